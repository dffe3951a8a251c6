//! Symbolic execution of the decoded IR.
use crate::decode::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<Val>,
    pub block: u32,
    pub pc: u32,
    pub ret_d: u32,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<u32>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Vec<u32>, // Var node ids
    pub steps: u64,
    pub expect_panic: bool,
    pub covers: Vec<u32>,
    pub obs: Vec<u32>,
    /// join short branches again instead of splitting the path
    pub merge: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub merges: u64,
    pub guessed: u64,
    pub paths: u64,
    pub forks: u64,
    pub assumed_away: u64,
    pub expected_panics: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub branches_sym: u64,
    pub unknown: u64,
    pub max_pc: u64,
    pub max_inputs: u64,
    pub input_bits: u64,
    pub mem_checks_solver: u64,
}

pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub id: u64,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub covers: Vec<u32>,
    pub panic: bool,
}

enum Stop {
    /// path is over
    End,
    Violation(&'static str, String, u64),
    Err(String),
}
type X<T> = Result<T, Stop>;
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Err(s)
    }
}

pub struct Exec {
    pub prog: Prog,
    pub x: Ctx,
    pub z: Z3,
    pub pending: VecDeque<State>,
    pub st: Stats,
    pub entered: BTreeSet<u32>,
    pub names: BTreeMap<u32, String>,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub covered: BTreeSet<u32>,
    pub ncovers: u32,
    pub max_samples: usize,
    pub max_steps: u64,
    pub rlimit: u32,
    pub cand_limit: u64,
    /// per function: immediate postdominators, see `ipdoms`
    pdom: FxMap<u32, Rc<Vec<u32>>>,
    /// merges that did not work and that did, by branch
    merge_log: FxMap<(u32, u32), (u32, u32)>,
    /// development aid (LLSYM_FORKLOG): where paths are split
    pub forklog: Option<BTreeMap<(u32, u32, u32), u64>>,
    memo: FxMap<u32, u128>,
    memo_model: Rc<Vec<u64>>,
}

impl Exec {
    pub fn new(prog: Prog, simple: bool) -> Exec {
        Exec {
            prog,
            x: Ctx::new(),
            z: Z3::new(simple),
            pending: VecDeque::new(),
            st: Stats::default(),
            entered: BTreeSet::new(),
            names: BTreeMap::new(),
            errors: BTreeMap::new(),
            violations: vec![],
            samples: vec![],
            covered: BTreeSet::new(),
            ncovers: 0,
            max_samples: 3,
            max_steps: 5_000_000,
            rlimit: 0,
            cand_limit: 300,
            pdom: Default::default(),
            merge_log: Default::default(),
            forklog: std::env::var_os("LLSYM_FORKLOG").map(|_| Default::default()),
            memo: Default::default(),
            memo_model: Rc::new(vec![]),
        }
    }
    pub fn start(&mut self, name: &str) -> Result<State, String> {
        let (mi, n) = match self.prog.resolve(0, name) {
            Sym::Func(i, n) => (i, n),
            s => {
                // may be internal to another module index
                let mut found = None;
                for i in 0..self.prog.mods.len() {
                    if self.prog.mods[i].funcs.contains_key(name) {
                        found = Some((i, name.to_string()));
                    }
                }
                found.ok_or_else(|| format!("harness {name} not found ({s:?})"))?
            }
        };
        let f = self.prog.func(mi, &n)?;
        self.enter(f);
        Ok(State {
            frames: vec![Frame {
                f,
                regs: vec![Val::I(E::C(0)); f.nregs as usize],
                block: 0,
                pc: 0,
                ret_d: NONE,
                normal: None,
                allocas: vec![],
            }],
            mem: Mem::new(),
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            steps: 0,
            expect_panic: false,
            covers: vec![],
            obs: vec![],
            merge: false,
        })
    }
    fn enter(&mut self, f: &'static Func) {
        if self.entered.insert(f.id) {
            self.names.insert(f.id, f.name.clone());
        }
    }

    fn eval(&mut self, s: &State, id: u32) -> u128 {
        if !Rc::ptr_eq(&self.memo_model, &s.model) {
            self.memo.clear();
            self.memo_model = s.model.clone();
        }
        let r = self.x.eval(id, &s.model, &mut self.memo);
        if self.memo.len() > 2_000_000 {
            self.memo.clear();
        }
        r
    }
    fn eval_e(&mut self, s: &State, e: E) -> u128 {
        match e {
            E::C(c) => c,
            E::S(i) => self.eval(s, i),
        }
    }
    /// Is pc ∧ cond satisfiable?  Returns a model if so.
    fn sat(&mut self, s: &State, cond: E) -> X<Option<Rc<Vec<u64>>>> {
        match cond {
            E::C(c) => {
                if c & 1 == 0 {
                    return Ok(None);
                }
                return Ok(Some(s.model.clone()));
            }
            E::S(id) => {
                if let Some(m) = self.guess(s, id) {
                    self.st.guessed += 1;
                    return Ok(Some(Rc::new(m)));
                }
                let (r, m) = self.z.check(&self.x, &s.pc, Some(id), &s.inputs, self.rlimit);
                match r {
                    Res::Sat => Ok(Some(Rc::new(m))),
                    Res::Unsat => Ok(None),
                    Res::Unknown => {
                        self.st.unknown += 1;
                        Err(Stop::Err("solver returned unknown".into()))
                    }
                }
            }
        }
    }
    /// A witness for pc ∧ cond near the current model, if one is found by
    /// changing the inputs that `cond` comes from; what it returns has been
    /// evaluated, so only the solver ever says that there is none.
    fn guess(&mut self, s: &State, id: u32) -> Option<Vec<u64>> {
        let mut m: Vec<u64> = (*s.model).clone();
        if m.len() < s.inputs.len() {
            m.resize(s.inputs.len(), 0);
        }
        let mut todo = id;
        for _ in 0..3 {
            let mut memo = FxMap::default();
            let mut budget = 200;
            if !self.x.aim(todo, 1, 1, &mut m, &mut memo, &mut budget) {
                return None;
            }
            memo.clear();
            let bad = std::iter::once(&id).chain(s.pc.iter()).find(|i| self.x.eval(**i, &m, &mut memo) & 1 == 0);
            match bad {
                None => return Some(m),
                Some(&b) if b != todo => todo = b,
                _ => return None,
            }
        }
        None
    }
    fn assume(&mut self, s: &mut State, c: E) {
        if let E::S(id) = c {
            if !s.pc.contains(&id) {
                s.pc.push(id);
                self.st.max_pc = self.st.max_pc.max(s.pc.len() as u64);
            }
        }
    }
    fn fork(&mut self, s: &State, cond: E, model: Rc<Vec<u64>>) {
        let mut n = s.clone();
        n.model = model;
        self.assume(&mut n, cond);
        self.st.forks += 1;
        if let (Some(l), Some(fr)) = (&mut self.forklog, s.frames.last()) {
            *l.entry((fr.f.id, fr.block, fr.pc)).or_insert(0) += 1;
        }
        self.pending.push_back(n);
    }
    /// Decide `c` on this path; when both outcomes are possible the other one
    /// is queued and re-executes the current instruction.
    fn decide(&mut self, s: &mut State, c: E) -> X<bool> {
        let id = match c {
            E::C(v) => return Ok(v & 1 == 1),
            E::S(i) => i,
        };
        let nc = self.x.not1(c);
        if s.pc.contains(&id) {
            return Ok(true);
        }
        if let E::S(n) = nc {
            if s.pc.contains(&n) {
                return Ok(false);
            }
        }
        self.st.branches_sym += 1;
        let v = self.eval(s, id) & 1 == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(s, other)? {
            self.fork(s, other, m);
            self.assume(s, mine);
        }
        Ok(v)
    }
    /// fork over the possible values of `e`
    fn concretize(&mut self, s: &mut State, w: u32, e: E) -> X<u128> {
        match e {
            E::C(c) => Ok(c),
            E::S(id) => {
                let v = self.eval(s, id);
                let c = self.x.eq(w, e, E::C(v));
                let t = self.decide(s, c)?;
                if !t {
                    return Err(Stop::Err("concretize: model mismatch".into()));
                }
                Ok(v)
            }
        }
    }

    // ---------------------------------------------------------------- memory

    /// object and offset for an access of `n` bytes
    fn resolve(&mut self, s: &mut State, p: E, n: u64, what: &'static str) -> X<(Loc, E)> {
        let a = self.eval_e(s, p) as u64;
        let l = s.mem.find(&mut self.prog, a)?;
        let Some(l) = l else {
            return Err(Stop::Violation("memory", format!("{what} of {n} bytes at {a:#x}: no live object there"), 0));
        };
        let (base, size) = {
            let o = s.mem.obj(l);
            (o.base, o.size)
        };
        match p {
            E::C(_) => {
                if a + n > base + size {
                    return Err(Stop::Violation("memory", format!("{what} of {n} bytes at offset {} of a {size}-byte object", a - base), 0));
                }
                Ok((l, E::C((a - base) as u128)))
            }
            E::S(_) => {
                let off = self.x.bin(Op::Sub, 64, p, E::C(base as u128));
                let (_, hi) = self.x.range(off);
                if n <= size && hi <= (size - n) as u128 {
                    return Ok((l, off));
                }
                if a + n > base + size {
                    return Err(Stop::Violation("memory", format!("{what} of {n} bytes at offset {} of a {size}-byte object", a - base), 0));
                }
                let inb = self.x.cmp(Op::Ule, 64, off, E::C((size - n) as u128));
                self.st.mem_checks_solver += 1;
                if !self.decide(s, inb)? {
                    return Err(Stop::Err("resolve: model mismatch".into()));
                }
                Ok((l, off))
            }
        }
    }
    fn load_n(&mut self, s: &mut State, p: E, n: u32) -> X<E> {
        if let E::S(id) = p {
            if self.x.nodes[id as usize].op == Op::Ite {
                if let Some(v) = self.load_choice(s, p, n, 6)? {
                    return Ok(v);
                }
            }
        }
        let (l, off) = self.resolve(s, p, n as u64, "read")?;
        match off {
            E::C(o) => Ok(s.mem.obj(l).load(&mut self.x, o as u64, n)),
            E::S(_) => match s.mem.obj(l).load_sym(&mut self.x, off, n, self.cand_limit) {
                Ok(v) => Ok(v),
                Err(_) => {
                    // too many candidates: split on the address
                    let o = self.concretize(s, 64, off)?;
                    Ok(s.mem.obj(l).load(&mut self.x, o as u64, n))
                }
            },
        }
    }
    /// load through a choice between constant addresses that are all valid
    fn load_choice(&mut self, s: &mut State, p: E, n: u32, depth: u32) -> X<Option<E>> {
        match p {
            E::C(a) => {
                let Some(l) = s.mem.find(&mut self.prog, a as u64)? else { return Ok(None) };
                let o = s.mem.obj(l);
                if a as u64 + n as u64 > o.base + o.size {
                    return Ok(None);
                }
                Ok(Some(o.load(&mut self.x, a as u64 - o.base, n)))
            }
            E::S(id) => {
                let nd = self.x.nodes[id as usize];
                if nd.op != Op::Ite || depth == 0 {
                    return Ok(None);
                }
                let (c, a, b) = (self.x.e(nd.a), self.x.e(nd.b), self.x.e(nd.c));
                let Some(va) = self.load_choice(s, a, n, depth - 1)? else { return Ok(None) };
                let Some(vb) = self.load_choice(s, b, n, depth - 1)? else { return Ok(None) };
                Ok(Some(self.x.ite(8 * n, c, va, vb)))
            }
        }
    }
    fn store_n(&mut self, s: &mut State, p: E, n: u32, v: E) -> X<()> {
        let (l, off) = self.resolve(s, p, n as u64, "write")?;
        if s.mem.obj(l).readonly {
            return Err(Stop::Violation("memory", "write to constant memory".into(), 0));
        }
        let lim = self.cand_limit;
        match off {
            E::C(o) => s.mem.obj_mut(l).store(&mut self.x, o as u64, n, v),
            E::S(_) => s.mem.obj_mut(l).store_sym(&mut self.x, off, n, v, lim),
        }
        Ok(())
    }
    fn load_ty(&mut self, s: &mut State, ty: TyRef, p: E) -> X<Val> {
        match ty {
            Ty::Int(w) => {
                let n = (*w + 7) / 8;
                if n > 16 {
                    return Err(Stop::Err(format!("load i{w}")));
                }
                let v = self.load_n(s, p, n)?;
                Ok(Val::I(self.x.extract(8 * n, 0, *w, v)))
            }
            Ty::Ptr => Ok(Val::I(self.load_n(s, p, 8)?)),
            Ty::Float(w) => Ok(Val::I(self.load_n(s, p, w / 8)?)),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Ty::Vec(_, e) = ty {
                    if e.bits() % 8 != 0 {
                        return Err(Stop::Err("load of bit vector".into()));
                    }
                }
                let mut v = vec![];
                for i in 0..ty.n_elems() {
                    let q = self.x.bin(Op::Add, 64, p, E::C(ty.field_off(i) as u128));
                    v.push(self.load_ty(s, ty.elem(i), q)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load of {ty:?}"))),
        }
    }
    fn store_ty(&mut self, s: &mut State, ty: TyRef, p: E, v: &Val) -> X<()> {
        match ty {
            Ty::Int(w) => {
                let n = (*w + 7) / 8;
                if n > 16 {
                    return Err(Stop::Err(format!("store i{w}")));
                }
                let e = self.x.zext(*w, 8 * n, v.e());
                self.store_n(s, p, n, e)
            }
            Ty::Ptr => self.store_n(s, p, 8, v.e()),
            Ty::Float(w) => self.store_n(s, p, w / 8, v.e()),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Ty::Vec(_, e) = ty {
                    if e.bits() % 8 != 0 {
                        return Err(Stop::Err("store of bit vector".into()));
                    }
                }
                let Val::Agg(vs) = v else { return Err(Stop::Err("aggregate store".into())) };
                for i in 0..ty.n_elems() {
                    let q = self.x.bin(Op::Add, 64, p, E::C(ty.field_off(i) as u128));
                    self.store_ty(s, ty.elem(i), q, &vs[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {ty:?}"))),
        }
    }
    fn memcpy(&mut self, s: &mut State, d: E, src: E, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (ls, os) = self.resolve(s, src, n, "copy from")?;
        let (ld, od) = self.resolve(s, d, n, "copy to")?;
        if s.mem.obj(ld).readonly {
            return Err(Stop::Violation("memory", "write to constant memory".into(), 0));
        }
        if let (E::C(os), E::C(od)) = (os, od) {
            let (os, od) = (os as u64, od as u64);
            let so = s.mem.obj(ls);
            if so.upd.is_empty() && (s.mem.obj(ld).upd.is_empty() || (od == 0 && n == s.mem.obj(ld).size)) {
                let data = so.data[os as usize..(os + n) as usize].to_vec();
                let mut sym: Vec<(u32, (u32, u8))> = vec![];
                if !so.sym.is_empty() {
                    if (so.sym.len() as u64) < n {
                        for (k, v) in &so.sym {
                            let k = *k as u64;
                            if k >= os && k < os + n {
                                sym.push(((k - os + od) as u32, *v));
                            }
                        }
                    } else {
                        for k in 0..n {
                            if let Some(v) = so.sym.get(&((os + k) as u32)) {
                                sym.push(((k + od) as u32, *v));
                            }
                        }
                    }
                }
                let o = s.mem.obj_mut(ld);
                o.upd.clear();
                o.data[od as usize..(od + n) as usize].copy_from_slice(&data);
                if !o.sym.is_empty() {
                    if (o.sym.len() as u64) < n {
                        o.sym.retain(|k, _| !((*k as u64) >= od && (*k as u64) < od + n));
                    } else {
                        for k in 0..n {
                            o.sym.remove(&((od + k) as u32));
                        }
                    }
                }
                for (k, v) in sym {
                    o.sym.insert(k, v);
                }
                return Ok(());
            }
            if os == 0 && od == 0 && n == so.size && n == s.mem.obj(ld).size {
                let (data, sym, upd) = (so.data.clone(), so.sym.clone(), so.upd.clone());
                let o = s.mem.obj_mut(ld);
                o.data = data;
                o.sym = sym;
                o.upd = upd;
                return Ok(());
            }
        }
        if n > 4096 {
            return Err(Stop::Err(format!("copy of {n} bytes through symbolic addresses")));
        }
        // element-wise, all loads first (memmove semantics)
        let mut parts = vec![];
        let mut k = 0;
        while k < n {
            let c = if n - k >= 8 { 8 } else if n - k >= 4 { 4 } else if n - k >= 2 { 2 } else { 1 };
            let q = self.x.bin(Op::Add, 64, src, E::C(k as u128));
            let v = self.load_n(s, q, c)?;
            parts.push((k, c, v));
            k += c as u64;
        }
        for (k, c, v) in parts {
            let q = self.x.bin(Op::Add, 64, d, E::C(k as u128));
            self.store_n(s, q, c, v)?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values

    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Ctx, E, E) -> E) -> Val {
        match (a, b) {
            (Val::Agg(p), Val::Agg(q)) => Val::Agg(Rc::new(
                p.iter().zip(q.iter()).map(|(m, n)| Val::I(f(&mut self.x, m.e(), n.e()))).collect(),
            )),
            _ => Val::I(f(&mut self.x, a.e(), b.e())),
        }
    }
    fn lanes1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Ctx, E) -> E) -> Val {
        match a {
            Val::Agg(p) => Val::Agg(Rc::new(p.iter().map(|m| Val::I(f(&mut self.x, m.e()))).collect())),
            _ => Val::I(f(&mut self.x, a.e())),
        }
    }
    fn select(&mut self, ty: TyRef, c: E, a: &Val, b: &Val) -> X<Val> {
        match c {
            E::C(v) => return Ok(if v & 1 == 1 { a.clone() } else { b.clone() }),
            _ => {}
        }
        match (a, b) {
            (Val::I(p), Val::I(q)) => Ok(Val::I(self.x.ite(ty.bits(), c, *p, *q))),
            (Val::Agg(p), Val::Agg(q)) => {
                let mut v = vec![];
                for i in 0..p.len() {
                    v.push(self.select(ty.elem(i), c, &p[i], &q[i])?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Err("select of mixed values".into())),
        }
    }
    fn pack(&mut self, ty: TyRef, v: &Val) -> X<E> {
        match v {
            Val::I(e) => Ok(*e),
            Val::Agg(vs) => {
                let Ty::Vec(_, et) = ty else { return Err(Stop::Err("bitcast".into())) };
                let w = et.bits();
                let mut r = vs[0].e();
                for (k, l) in vs.iter().enumerate().skip(1) {
                    r = self.x.concat(w, w * k as u32, l.e(), r);
                }
                Ok(r)
            }
        }
    }
    fn unpack(&mut self, ty: TyRef, e: E) -> Val {
        match ty {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let tw = w * n;
                Val::Agg(Rc::new((0..*n).map(|k| Val::I(self.x.extract(tw, k * w, w, e))).collect()))
            }
            _ => Val::I(e),
        }
    }

    // ---------------------------------------------------------------- run

    fn model_inputs(&mut self, s: &State) -> Vec<u64> {
        (0..s.inputs.len())
            .map(|i| {
                let w = self.x.width(s.inputs[i]);
                let v = s.model.get(i).copied().unwrap_or(0);
                trunc(v as u128, w) as u64
            })
            .collect()
    }
    fn backtrace(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| f.f.name.clone()).collect()
    }
    fn violation(&mut self, s: &State, kind: &'static str, msg: String, id: u64) {
        let inputs = self.model_inputs(s);
        let trace = self.backtrace(s);
        self.violations.push(Violation { kind, msg, id, inputs, trace });
    }
    fn finish(&mut self, s: &State, panic: bool) {
        self.st.paths += 1;
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len() as u64);
        let bits: u64 = s.inputs.iter().map(|i| self.x.width(*i) as u64).sum();
        self.st.input_bits = self.st.input_bits.max(bits);
        let mut newcov = false;
        for c in &s.covers {
            newcov |= self.covered.insert(*c);
        }
        if newcov || self.samples.len() < self.max_samples || (self.st.paths.is_power_of_two() && self.samples.len() < 4 * self.max_samples) {
            let inputs = self.model_inputs(s);
            let obs = s.obs.iter().map(|o| self.eval(s, *o) as u64).collect();
            self.samples.push(Sample { inputs, obs, covers: s.covers.clone(), panic });
        }
    }

    /// run one path until it ends (other paths are queued); `tick` is called
    /// now and then and may ask to stop (true) — then the path is put back.
    pub fn run_path(&mut self, mut s: State, tick: &mut dyn FnMut(&mut Exec) -> bool) {
        let mut local = 0u32;
        loop {
            local += 1;
            if local & 0xfff == 0 && tick(self) {
                self.pending.push_back(s);
                return;
            }
            s.steps += 1;
            self.st.steps += 1;
            if s.steps > self.max_steps {
                self.violation(&s, "steps", format!("no end after {} steps", self.max_steps), 0);
                return;
            }
            match self.step(&mut s) {
                Ok(()) => {
                    if s.frames.is_empty() {
                        self.finish(&s, false);
                        return;
                    }
                }
                Err(Stop::End) => return,
                Err(Stop::Violation(kind, msg, id)) => {
                    self.violation(&s, kind, msg, id);
                    return;
                }
                Err(Stop::Err(e)) => {
                    let at = s.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
                    *self.errors.entry(format!("{e} [in {at}]")).or_insert(0) += 1;
                    return;
                }
            }
        }
    }

    #[inline]
    fn opnd(s: &State, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn ope(s: &State, o: &Opnd) -> E {
        match o {
            Opnd::Reg(r) => match &s.frames.last().unwrap().regs[*r as usize] {
                Val::I(e) => *e,
                _ => panic!("scalar expected"),
            },
            Opnd::K(v) => v.e(),
        }
    }
    #[inline]
    fn set(s: &mut State, d: u32, v: Val) {
        if d != NONE {
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.block;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                for (l, v) in &p.inc {
                    if *l == from {
                        vals.push((
                            p.d,
                            match v {
                                Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                                Opnd::K(v) => v.clone(),
                            },
                        ));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.pc = 0;
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        let fr = s.frames.last().unwrap();
        let blk: &'static Block = &fr.f.blocks[fr.block as usize];
        let ins: &'static Ins = &blk.ins[fr.pc as usize];
        match ins {
            Ins::Bin { op, ty, a, b, d } => {
                let o = match *op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                match ty {
                    Ty::Vec(_, et) => {
                        let w = et.bits();
                        let (p, q) = (Self::opnd(s, a), Self::opnd(s, b));
                        let v = self.lanes2(&p, &q, &mut |x, m, n| x.bin(o, w, m, n));
                        Self::set(s, *d, v);
                    }
                    _ => {
                        let v = self.x.bin(o, ty.bits(), Self::ope(s, a), Self::ope(s, b));
                        Self::set(s, *d, Val::I(v));
                    }
                }
            }
            Ins::ICmp { p, ty, a, b, d } => {
                let (va, vb) = (Self::opnd(s, a), Self::opnd(s, b));
                let w = match ty {
                    Ty::Vec(_, et) => et.bits(),
                    _ => ty.bits(),
                };
                let p = *p;
                let v = self.lanes2(&va, &vb, &mut |x, m, n| match p {
                    Pred::Eq => x.cmp(Op::Eq, w, m, n),
                    Pred::Ne => {
                        let t = x.cmp(Op::Eq, w, m, n);
                        x.not1(t)
                    }
                    Pred::Ult => x.cmp(Op::Ult, w, m, n),
                    Pred::Ule => x.cmp(Op::Ule, w, m, n),
                    Pred::Ugt => x.cmp(Op::Ult, w, n, m),
                    Pred::Uge => x.cmp(Op::Ule, w, n, m),
                    Pred::Slt => x.cmp(Op::Slt, w, m, n),
                    Pred::Sle => x.cmp(Op::Sle, w, m, n),
                    Pred::Sgt => x.cmp(Op::Slt, w, n, m),
                    Pred::Sge => x.cmp(Op::Sle, w, n, m),
                });
                Self::set(s, *d, v);
            }
            Ins::Cast { k, from, to, a, d } => {
                let v = Self::opnd(s, a);
                let r = match k {
                    Cast::Bitcast => {
                        let e = self.pack(from, &v)?;
                        self.unpack(to, e)
                    }
                    _ => {
                        let (fw, tw) = match (from, to) {
                            (Ty::Vec(_, p), Ty::Vec(_, q)) => (p.bits(), q.bits()),
                            _ => (from.bits(), to.bits()),
                        };
                        let k = *k;
                        self.lanes1(&v, &mut |x, e| match k {
                            Cast::SExt => x.sext(fw, tw, e),
                            _ => {
                                if tw < fw {
                                    x.extract(fw, 0, tw, e)
                                } else {
                                    x.zext(fw, tw, e)
                                }
                            }
                        })
                    }
                };
                Self::set(s, *d, r);
            }
            Ins::Select { cty, ty, c, a, b, d } => {
                let (cv, p, q) = (Self::opnd(s, c), Self::opnd(s, a), Self::opnd(s, b));
                let r = match (cty, cv) {
                    (Ty::Vec(..), Val::Agg(cs)) => {
                        let (Val::Agg(p), Val::Agg(q)) = (&p, &q) else { return Err(Stop::Err("vector select".into())) };
                        let mut v = vec![];
                        for i in 0..cs.len() {
                            v.push(self.select(ty.elem(i), cs[i].e(), &p[i], &q[i])?);
                        }
                        Val::Agg(Rc::new(v))
                    }
                    (_, cv) => self.select(ty, cv.e(), &p, &q)?,
                };
                Self::set(s, *d, r);
            }
            Ins::Load { ty, p, d, .. } => {
                let p = Self::ope(s, p);
                let v = self.load_ty(s, ty, p)?;
                Self::set(s, *d, v);
            }
            Ins::Store { ty, v, p, .. } => {
                let (v, p) = (Self::opnd(s, v), Self::ope(s, p));
                self.store_ty(s, ty, p, &v)?;
            }
            Ins::Gep { p, off, idx, d } => {
                let mut a = Self::ope(s, p);
                for (scale, v, w) in idx {
                    let i = Self::ope(s, v);
                    let i = if *w < 64 { self.x.sext(*w, 64, i) } else { self.x.extract(*w, 0, 64, i) };
                    let t = self.x.bin(Op::Mul, 64, i, E::C(*scale as u64 as u128));
                    a = self.x.bin(Op::Add, 64, a, t);
                }
                if *off != 0 {
                    a = self.x.bin(Op::Add, 64, a, E::C(*off as u64 as u128));
                }
                Self::set(s, *d, Val::I(a));
            }
            Ins::Alloca { ty, n, nw, align, d } => {
                let n = Self::ope(s, n);
                let n = self.concretize(s, *nw, n)? as u64;
                let size = ty.size() * n;
                if size > 1 << 28 {
                    return Err(Stop::Err(format!("alloca of {size} bytes")));
                }
                let b = s.mem.alloc(size, *align, 1);
                let fr = s.frames.last_mut().unwrap();
                fr.allocas.push(b);
                Self::set(s, *d, Val::I(E::C(b as u128)));
            }
            Ins::Extract { a, path, d } => {
                let mut v = Self::opnd(s, a);
                for i in path {
                    let Val::Agg(x) = v else { return Err(Stop::Err("extractvalue".into())) };
                    v = x[*i as usize].clone();
                }
                Self::set(s, *d, v);
            }
            Ins::Insert { a, v, path, d } => {
                fn ins(a: &Val, path: &[u32], v: &Val) -> Val {
                    if path.is_empty() {
                        return v.clone();
                    }
                    let Val::Agg(x) = a else { panic!("insertvalue") };
                    let mut y = (**x).clone();
                    y[path[0] as usize] = ins(&y[path[0] as usize], &path[1..], v);
                    Val::Agg(Rc::new(y))
                }
                let (p, q) = (Self::opnd(s, a), Self::opnd(s, v));
                let r = ins(&p, path, &q);
                Self::set(s, *d, r);
            }
            Ins::ExtractElem { ty, a, i, d, .. } => {
                let i = Self::ope(s, i);
                let Val::Agg(vs) = Self::opnd(s, a) else { return Err(Stop::Err("extractelement".into())) };
                let r = match i {
                    E::C(c) => vs[c as usize].clone(),
                    _ => {
                        let iw = 64;
                        let mut r = vs[0].e();
                        for k in 1..vs.len() {
                            let c = self.x.eq(iw, i, E::C(k as u128));
                            r = self.x.ite(ty.elem(0).bits(), c, vs[k].e(), r);
                        }
                        Val::I(r)
                    }
                };
                Self::set(s, *d, r);
            }
            Ins::InsertElem { a, v, i, d, .. } => {
                let E::C(i) = Self::ope(s, i) else { return Err(Stop::Err("symbolic insertelement".into())) };
                let Val::Agg(vs) = Self::opnd(s, a) else { return Err(Stop::Err("insertelement".into())) };
                let mut y = (*vs).clone();
                y[i as usize] = Self::opnd(s, v);
                Self::set(s, *d, Val::Agg(Rc::new(y)));
            }
            Ins::Shuffle { a, b, n, mask, d } => {
                let (Val::Agg(p), Val::Agg(q)) = (Self::opnd(s, a), Self::opnd(s, b)) else { return Err(Stop::Err("shuffle".into())) };
                let v = mask.iter().map(|&m| if (m as usize) < *n { p[m as usize].clone() } else { q[m as usize - n].clone() }).collect();
                Self::set(s, *d, Val::Agg(Rc::new(v)));
            }
            Ins::Freeze { a, d } => {
                let v = Self::opnd(s, a);
                Self::set(s, *d, v);
            }
            Ins::Br(t) => {
                self.jump(s, *t);
                return Ok(());
            }
            Ins::CondBr(c, t, f) => {
                let c = Self::ope(s, c);
                if s.merge && self.mergeable(s) {
                    let nc = self.x.not1(c);
                    return self.branch_merge(s, vec![(c, *t), (nc, *f)]);
                }
                let v = self.decide(s, c)?;
                self.jump(s, if v { *t } else { *f });
                return Ok(());
            }
            Ins::Switch { ty, v, def, cases } => {
                let e = Self::ope(s, v);
                let w = ty.bits();
                if s.merge && matches!(e, E::S(_)) && self.mergeable(s) {
                    let mut arms: Vec<(E, u32)> = vec![];
                    let mut any = E::C(0);
                    for (c, l) in cases {
                        let q = self.x.eq(w, e, E::C(*c));
                        any = self.x.or1(any, q);
                        match arms.iter_mut().find(|a| a.1 == *l) {
                            Some(a) => a.0 = self.x.or1(a.0, q),
                            None => arms.push((q, *l)),
                        }
                    }
                    let q = self.x.not1(any);
                    match arms.iter_mut().find(|a| a.1 == *def) {
                        Some(a) => a.0 = self.x.or1(a.0, q),
                        None => arms.push((q, *def)),
                    }
                    return self.branch_merge(s, arms);
                }
                let cur = self.eval_e(s, e);
                let target = cases.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*def);
                if let E::S(_) = e {
                    let mut cond = E::C(0);
                    if target == *def {
                        // none of the cases with another target
                        let mut any = E::C(0);
                        for (c, l) in cases {
                            if *l != target {
                                let q = self.x.eq(w, e, E::C(*c));
                                any = self.x.or1(any, q);
                            }
                        }
                        cond = self.x.not1(any);
                    } else {
                        for (c, l) in cases {
                            if *l == target {
                                let q = self.x.eq(w, e, E::C(*c));
                                cond = self.x.or1(cond, q);
                            }
                        }
                    }
                    if !self.decide(s, cond)? {
                        return Err(Stop::Err("switch: model mismatch".into()));
                    }
                }
                self.jump(s, target);
                return Ok(());
            }
            Ins::Ret(v) => {
                let val = v.as_ref().map(|v| Self::opnd(s, v));
                let fr = s.frames.pop().unwrap();
                for b in fr.allocas {
                    s.mem.free(b);
                }
                if let Some(up) = s.frames.last_mut() {
                    if let Some(v) = val {
                        if fr.ret_d != NONE {
                            up.regs[fr.ret_d as usize] = v;
                        }
                    }
                    match fr.normal {
                        Some(l) => self.jump(s, l),
                        None => up.pc += 1,
                    }
                }
                return Ok(());
            }
            Ins::Unreachable => return Err(Stop::Violation("unreachable", "unreachable code reached (undefined behaviour)".into(), 0)),
            Ins::AtomicRmw { op, ty, p, v, d } => {
                let (p, v) = (Self::ope(s, p), Self::ope(s, v));
                let old = self.load_ty(s, ty, p)?.e();
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.x.bin(Op::Add, w, old, v),
                    "sub" => self.x.bin(Op::Sub, w, old, v),
                    "and" => self.x.bin(Op::And, w, old, v),
                    "or" => self.x.bin(Op::Or, w, old, v),
                    "xor" => self.x.bin(Op::Xor, w, old, v),
                    _ => return Err(Stop::Err(format!("atomicrmw {op}"))),
                };
                self.store_ty(s, ty, p, &Val::I(new))?;
                Self::set(s, *d, Val::I(old));
            }
            Ins::CmpXchg { ty, p, c, n, d } => {
                let (p, c, n) = (Self::ope(s, p), Self::ope(s, c), Self::ope(s, n));
                let old = self.load_ty(s, ty, p)?.e();
                let ok = self.x.eq(ty.bits(), old, c);
                let new = self.x.ite(ty.bits(), ok, n, old);
                self.store_ty(s, ty, p, &Val::I(new))?;
                Self::set(s, *d, Val::Agg(Rc::new(vec![Val::I(old), Val::I(ok)])));
            }
            Ins::Nop => {}
            Ins::Unsup(m) => return Err(Stop::Err(format!("unsupported instruction: {m}"))),
            Ins::Call { callee, cache, args, ret, d, noreturn, normal } => {
                let mut target = cache.get();
                if let Target::Unresolved = target {
                    let sym = match callee {
                        Callee::Name(mi, n) => self.prog.resolve(*mi, n),
                        Callee::Ind(o) => {
                            let e = Self::ope(s, o);
                            let a = self.concretize(s, 64, e)? as u64;
                            match self.prog.fn_at(a) {
                                Some((usize::MAX, n)) => Sym::Extern(n),
                                Some((i, n)) => Sym::Func(i, n),
                                None => return Err(Stop::Violation("memory", format!("call through bad pointer {a:#x}"), 0)),
                            }
                        }
                    };
                    target = match sym {
                        Sym::Func(i, n) if *noreturn && i >= self.prog.std_from && i != usize::MAX => {
                            Target::Ext(K::Unknown, Box::leak(n.into_boxed_str()))
                        }
                        Sym::Func(i, n) => Target::Func(self.prog.func(i, &n)?),
                        Sym::Extern(n) => {
                            let n: &'static str = Box::leak(n.into_boxed_str());
                            Target::Ext(classify(n), n)
                        }
                        Sym::Glob(..) => return Err(Stop::Err("call of data".into())),
                    };
                    if let Callee::Name(..) = callee {
                        cache.set(target);
                    }
                }
                match target {
                    Target::Func(f) => {
                        if s.frames.len() > 400 {
                            return Err(Stop::Violation("stack", "call depth over 400".into(), 0));
                        }
                        let mut regs = vec![Val::I(E::C(0)); f.nregs as usize];
                        for ((_, r), (_, a)) in f.params.iter().zip(args) {
                            regs[*r as usize] = Self::opnd(s, a);
                        }
                        self.enter(f);
                        s.frames.push(Frame { f, regs, block: 0, pc: 0, ret_d: *d, normal: *normal, allocas: vec![] });
                        return Ok(());
                    }
                    Target::Ext(k, n) => {
                        let r = self.external(s, k, n, args, ret, *noreturn)?;
                        Self::set(s, *d, r);
                        if let Some(l) = normal {
                            self.jump(s, *l);
                            return Ok(());
                        }
                    }
                    Target::Unresolved => unreachable!(),
                }
            }
        }
        s.frames.last_mut().unwrap().pc += 1;
        Ok(())
    }

    // ---------------------------------------------------------------- merging

    fn mergeable(&mut self, s: &State) -> bool {
        let fr = s.frames.last().unwrap();
        let key = (fr.f.id, fr.block);
        let (bad, good) = self.merge_log.get(&key).copied().unwrap_or((0, 0));
        if bad > 2 + good {
            return false;
        }
        let pd = self.pdom.entry(fr.f.id).or_insert_with(|| Rc::new(ipdoms(fr.f))).clone();
        match pd[fr.block as usize] {
            NONE => false,
            EXIT => s.frames.len() > 1,
            _ => true,
        }
    }
    /// The arms of a short branch or switch are executed up to where they meet
    /// and their effects joined under their conditions; if that does not work
    /// the path is split as usual.
    fn branch_merge(&mut self, s: &mut State, arms: Vec<(E, u32)>) -> X<()> {
        if arms.iter().any(|a| matches!(a.0, E::C(v) if v & 1 == 1) || matches!(a.0, E::S(i) if s.pc.contains(&i))) {
            let a = arms.iter().find(|a| matches!(a.0, E::C(v) if v & 1 == 1) || matches!(a.0, E::S(i) if s.pc.contains(&i)));
            self.jump(s, a.unwrap().1);
            return Ok(());
        }
        self.st.branches_sym += 1;
        // the feasible arms; the one the current model takes first
        let mut live: Vec<(E, u32, Rc<Vec<u64>>)> = vec![];
        for (c, t) in arms {
            if self.eval_e(s, c) & 1 == 1 {
                live.insert(0, (c, t, s.model.clone()));
            } else {
                let nc = self.x.not1(c);
                if matches!(nc, E::S(n) if s.pc.contains(&n)) {
                    continue;
                }
                if let Some(m) = self.sat(s, c)? {
                    live.push((c, t, m));
                }
            }
        }
        if live.len() == 1 {
            self.jump(s, live[0].1);
            return Ok(());
        }
        let fr = s.frames.last().unwrap();
        let (key, home) = ((fr.f.id, fr.block), fr.block);
        let meet = self.pdom[&fr.f.id][fr.block as usize];
        let depth = s.frames.len();
        let (np, ns, nv, st) = (self.pending.len(), self.samples.len(), self.violations.len(), self.st.clone());
        let mut acc: Option<State> = None;
        let mut ok = live.len() <= 8;
        for (c, t, m) in &live {
            if !ok {
                break;
            }
            let mut a = s.clone();
            a.model = m.clone();
            self.assume(&mut a, *c);
            self.jump(&mut a, *t);
            ok = self.run_arm(&mut a, depth, home, meet, np);
            if ok {
                acc = match acc {
                    None => Some(a),
                    Some(b) => self.join(s, *c, &a, &b, meet),
                };
                ok = acc.is_some();
            }
        }
        let e = self.merge_log.entry(key).or_insert((0, 0));
        if ok {
            e.1 += 1;
            self.st.merges += 1;
            *s = acc.unwrap();
            return Ok(());
        }
        e.0 += 1;
        self.pending.truncate(np);
        self.samples.truncate(ns);
        self.violations.truncate(nv);
        self.st = st;
        for (c, _, m) in live.iter().skip(1) {
            self.fork(s, *c, m.clone());
        }
        self.assume(s, live[0].0);
        self.jump(s, live[0].1);
        Ok(())
    }
    fn run_arm(&mut self, s: &mut State, depth: usize, home: u32, meet: u32, np: usize) -> bool {
        for _ in 0..2000 {
            if s.frames.len() < depth {
                return meet == EXIT;
            }
            if s.frames.len() == depth {
                let fr = s.frames.last().unwrap();
                if fr.pc == 0 && fr.block == meet {
                    return true;
                }
                if fr.pc == 0 && fr.block == home {
                    return false;
                }
            }
            s.steps += 1;
            self.st.steps += 1;
            if self.step(s).is_err() || self.pending.len() != np {
                return false;
            }
        }
        false
    }
    fn join(&mut self, s: &State, c: E, a: &State, b: &State, meet: u32) -> Option<State> {
        let n = s.pc.len();
        if a.pc.len() > n + 1 || b.pc.len() > n + 1 || a.frames.len() != b.frames.len() || a.inputs.len() != b.inputs.len() {
            return None;
        }
        if a.covers != b.covers || a.obs != b.obs || a.expect_panic != b.expect_panic || a.merge != b.merge {
            return None;
        }
        if a.mem.objs.len() != b.mem.objs.len() {
            return None;
        }
        let mut r = a.clone();
        r.pc = s.pc.clone();
        r.model = s.model.clone();
        r.steps = a.steps + (b.steps - s.steps);
        r.mem.next = a.mem.next.max(b.mem.next);
        for i in 0..a.mem.objs.len() {
            let (p, q) = (&a.mem.objs[i], &b.mem.objs[i]);
            if p.0 != q.0 {
                return None;
            }
            if !Rc::ptr_eq(&p.1, &q.1) {
                r.mem.objs[i].1 = Rc::new(Obj::merge(&mut self.x, c, &p.1, &q.1)?);
            }
        }
        for (g, q) in &b.mem.globals {
            match r.mem.globals.iter().position(|x| x.0 == *g) {
                None if q.readonly => r.mem.globals.push((*g, q.clone())),
                None => return None,
                Some(i) => {
                    let p = r.mem.globals[i].1.clone();
                    if !Rc::ptr_eq(&p, q) && !p.readonly {
                        r.mem.globals[i].1 = Rc::new(Obj::merge(&mut self.x, c, &p, q)?);
                    }
                }
            }
        }
        for (g, p) in &r.mem.globals {
            if !p.readonly && !b.mem.globals.iter().any(|x| x.0 == *g) {
                return None;
            }
        }
        let (fa, fb) = (a.frames.last()?, b.frames.last()?);
        if fa.block != fb.block || fa.pc != fb.pc || fa.allocas != fb.allocas {
            return None;
        }
        if meet == EXIT {
            // the value returned to the caller
            let up = &s.frames[s.frames.len() - 2];
            let Ins::Call { ret, d, normal, .. } = &up.f.blocks[up.block as usize].ins[up.pc as usize] else { return None };
            if normal.is_some() {
                return None;
            }
            if *d != NONE {
                let v = self.select(ret, c, &fa.regs[*d as usize], &fb.regs[*d as usize]).ok()?;
                r.frames.last_mut()?.regs[*d as usize] = v;
            }
        } else {
            for p in &fa.f.blocks[meet as usize].phis {
                let v = self.select(p.ty, c, &fa.regs[p.d as usize], &fb.regs[p.d as usize]).ok()?;
                r.frames.last_mut()?.regs[p.d as usize] = v;
            }
        }
        Some(r)
    }

    fn external(&mut self, s: &mut State, k: K, name: &str, args: &[(TyRef, Opnd)], ret: TyRef, noreturn: bool) -> X<Val> {
        let unit = Val::I(E::C(0));
        let a = |i: usize, s: &State| Self::ope(s, &args[i].1);
        let av = |i: usize, s: &State| Self::opnd(s, &args[i].1);
        let w = match ret {
            Ty::Vec(_, e) => e.bits(),
            Ty::Struct(f, _) => f[0].bits(),
            t => t.bits(),
        };
        Ok(match k {
            K::Nop => unit,
            K::Assume => {
                if let E::C(0) = a(0, s) {
                    return Err(Stop::Violation("assume", "compiler assumption violated (undefined behaviour)".into(), 0));
                }
                unit
            }
            K::Arg0 => av(0, s),
            K::LoadRelative => {
                let base = a(0, s);
                let off = a(1, s);
                let ow = args[1].0.bits();
                let off = if ow < 64 { self.x.sext(ow, 64, off) } else { off };
                let p = self.x.bin(Op::Add, 64, base, off);
                let r = self.load_n(s, p, 4)?;
                let r = self.x.sext(32, 64, r);
                Val::I(self.x.bin(Op::Add, 64, base, r))
            }
            K::PtrMask => {
                let (p, m) = (a(0, s), a(1, s));
                Val::I(self.x.bin(Op::And, 64, p, m))
            }
            K::IsConstant => Val::I(E::C(0)),
            K::Trap => return self.panic(s, "trap"),
            K::Memcpy => {
                let n = self.concretize(s, 64, a(2, s))? as u64;
                let (p, q) = (a(0, s), a(1, s));
                self.memcpy(s, p, q, n)?;
                Val::I(p)
            }
            K::Memset => {
                let n = self.concretize(s, 64, a(2, s))? as u64;
                let p = a(0, s);
                let v = a(1, s);
                let v = if args[1].0.bits() > 8 { self.x.extract(args[1].0.bits(), 0, 8, v) } else { v };
                if n > 0 {
                    let (l, off) = self.resolve(s, p, n, "memset")?;
                    let o = self.concretize(s, 64, off)? as u64;
                    let obj = s.mem.obj_mut(l);
                    if obj.readonly {
                        return Err(Stop::Violation("memory", "write to constant memory".into(), 0));
                    }
                    match v {
                        E::C(c) if obj.upd.is_empty() || (o == 0 && n == obj.size) => {
                            obj.upd.clear();
                            for b in &mut obj.data[o as usize..(o + n) as usize] {
                                *b = c as u8;
                            }
                            if !obj.sym.is_empty() {
                                obj.sym.retain(|k, _| !((*k as u64) >= o && (*k as u64) < o + n));
                            }
                        }
                        _ => {
                            for i in 0..n {
                                obj.store(&mut self.x, o + i, 1, v);
                            }
                        }
                    }
                }
                Val::I(p)
            }
            K::Bcmp | K::Memcmp => {
                let n = self.concretize(s, 64, a(2, s))? as u64;
                let (p, q) = (a(0, s), a(1, s));
                if n > 4096 {
                    return Err(Stop::Err(format!("memcmp of {n} bytes")));
                }
                let mut bytes = vec![];
                for i in 0..n {
                    let pi = self.x.bin(Op::Add, 64, p, E::C(i as u128));
                    let qi = self.x.bin(Op::Add, 64, q, E::C(i as u128));
                    let x = self.load_n(s, pi, 1)?;
                    let y = self.load_n(s, qi, 1)?;
                    bytes.push((x, y));
                }
                let mut r = E::C(0);
                for (x, y) in bytes.into_iter().rev() {
                    let eq = self.x.eq(8, x, y);
                    let lt = self.x.cmp(Op::Ult, 8, x, y);
                    let d = if k == K::Bcmp { E::C(1) } else { self.x.ite(32, lt, E::C(0xffff_ffff), E::C(1)) };
                    r = self.x.ite(32, eq, r, d);
                }
                Val::I(r)
            }
            K::Ctlz | K::Cttz | K::Ctpop | K::Bswap | K::Bitreverse | K::Abs => {
                let v = av(0, s);
                self.lanes1(&v, &mut |x, e| bitop(x, k, w, e))
            }
            K::Fshl | K::Fshr => {
                let (p, q, sh) = (a(0, s), a(1, s), a(2, s));
                let E::C(n) = sh else {
                    // by a symbolic amount
                    let m = self.x.bin(Op::URem, w, sh, E::C(w as u128));
                    let inv = self.x.bin(Op::Sub, w, E::C(w as u128 - 1), m);
                    let one = |x: &mut Ctx, o, e| x.bin(o, w, e, E::C(1));
                    let (l, r) = if k == K::Fshl {
                        let q = one(&mut self.x, Op::LShr, q);
                        (self.x.bin(Op::Shl, w, p, m), self.x.bin(Op::LShr, w, q, inv))
                    } else {
                        let p = one(&mut self.x, Op::Shl, p);
                        (self.x.bin(Op::Shl, w, p, inv), self.x.bin(Op::LShr, w, q, m))
                    };
                    return Ok(Val::I(self.x.bin(Op::Or, w, l, r)));
                };
                let n = (n % w as u128) as u32;
                // concat(p,q) shifted
                let (hi_lo, take) = if k == K::Fshl { (n, w - n) } else { (if n == 0 { w } else { w - n }, n) };
                let _ = take;
                let r = if k == K::Fshl {
                    if n == 0 {
                        p
                    } else {
                        let h = self.x.extract(w, 0, w - n, p);
                        let l = self.x.extract(w, w - n, n, q);
                        self.x.concat(w - n, n, h, l)
                    }
                } else if n == 0 {
                    q
                } else {
                    let h = self.x.extract(w, 0, n, p);
                    let l = self.x.extract(w, n, w - n, q);
                    let _ = hi_lo;
                    self.x.concat(n, w - n, h, l)
                };
                Val::I(r)
            }
            K::UaddO | K::UsubO | K::UmulO | K::SaddO | K::SsubO | K::SmulO => {
                let (p, q) = (a(0, s), a(1, s));
                let (r, o) = overflow(&mut self.x, k, w, p, q);
                Val::Agg(Rc::new(vec![Val::I(r), Val::I(o)]))
            }
            K::UaddSat | K::UsubSat | K::SaddSat | K::SsubSat | K::Umin | K::Umax | K::Smin | K::Smax => {
                let (p, q) = (av(0, s), av(1, s));
                self.lanes2(&p, &q, &mut |x, m, n| minmax(x, k, w, m, n))
            }
            K::Ucmp | K::Scmp => {
                let (p, q) = (a(0, s), a(1, s));
                let iw = args[0].0.bits();
                let lt = self.x.cmp(if k == K::Ucmp { Op::Ult } else { Op::Slt }, iw, p, q);
                let eq = self.x.eq(iw, p, q);
                let r = self.x.ite(w, eq, E::C(0), E::C(1));
                Val::I(self.x.ite(w, lt, E::C(mask(w)), r))
            }
            K::ReduceAdd | K::ReduceMul | K::ReduceOr | K::ReduceAnd | K::ReduceXor | K::ReduceUmax | K::ReduceUmin | K::ReduceSmax | K::ReduceSmin => {
                let Val::Agg(v) = av(0, s) else { return Err(Stop::Err("reduce".into())) };
                let mut r = v[0].e();
                for l in v.iter().skip(1) {
                    let l = l.e();
                    r = match k {
                        K::ReduceAdd => self.x.bin(Op::Add, w, r, l),
                        K::ReduceMul => self.x.bin(Op::Mul, w, r, l),
                        K::ReduceOr => self.x.bin(Op::Or, w, r, l),
                        K::ReduceAnd => self.x.bin(Op::And, w, r, l),
                        K::ReduceXor => self.x.bin(Op::Xor, w, r, l),
                        K::ReduceUmax => minmax(&mut self.x, K::Umax, w, r, l),
                        K::ReduceUmin => minmax(&mut self.x, K::Umin, w, r, l),
                        K::ReduceSmax => minmax(&mut self.x, K::Smax, w, r, l),
                        _ => minmax(&mut self.x, K::Smin, w, r, l),
                    };
                }
                Val::I(r)
            }
            K::Alloc | K::AllocZeroed => {
                let size = self.concretize(s, 64, a(0, s))? as u64;
                let align = self.concretize(s, 64, a(1, s))? as u64;
                if size > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {size} bytes")));
                }
                Val::I(E::C(s.mem.alloc(size, align, 0) as u128))
            }
            K::Realloc => {
                let p = self.concretize(s, 64, a(0, s))? as u64;
                let old = self.concretize(s, 64, a(1, s))? as u64;
                let align = self.concretize(s, 64, a(2, s))? as u64;
                let new = self.concretize(s, 64, a(3, s))? as u64;
                if new > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {new} bytes")));
                }
                let b = s.mem.alloc(new, align, 0);
                self.memcpy(s, E::C(b as u128), E::C(p as u128), old.min(new))?;
                if !s.mem.free(p) {
                    return Err(Stop::Violation("memory", "realloc of a dead object".into(), 0));
                }
                Val::I(E::C(b as u128))
            }
            K::Dealloc => {
                let p = self.concretize(s, 64, a(0, s))? as u64;
                if !s.mem.free(p) {
                    return Err(Stop::Violation("memory", "free of a dead object".into(), 0));
                }
                unit
            }
            K::RandomKeys => Val::Agg(Rc::new(vec![Val::I(E::C(0x0123_4567_89ab_cdef)), Val::I(E::C(0x0fed_cba9_8765_4321))])),
            K::VsymU64 => {
                let bits = self.concretize(s, 32, a(0, s))? as u32;
                let i = s.inputs.len() as u32;
                let v = self.x.var(i, bits);
                let E::S(id) = v else { unreachable!() };
                s.inputs.push(id);
                Val::I(self.x.zext(bits, 64, v))
            }
            K::VsymAssume => {
                let c = a(0, s);
                let c = self.x.extract(args[0].0.bits(), 0, 1, c);
                match c {
                    E::C(0) => {
                        self.st.assumed_away += 1;
                        return Err(Stop::End);
                    }
                    E::C(_) => {}
                    E::S(id) => {
                        if self.eval(s, id) & 1 == 0 {
                            match self.sat(s, c)? {
                                Some(m) => s.model = m,
                                None => {
                                    self.st.assumed_away += 1;
                                    return Err(Stop::End);
                                }
                            }
                        }
                        self.assume(s, c);
                    }
                }
                unit
            }
            K::VsymAssert => {
                let c = a(0, s);
                let c = self.x.extract(args[0].0.bits(), 0, 1, c);
                let idw = args[1].0.bits();
                let id = self.concretize(s, idw, a(1, s))? as u64;
                self.st.asserts += 1;
                let nc = self.x.not1(c);
                match c {
                    E::C(0) => return Err(Stop::Violation("assert", format!("assertion {id}"), id)),
                    E::C(_) => {}
                    E::S(n) => {
                        if !s.pc.contains(&n) {
                            self.st.asserts_solver += 1;
                            let ev = self.eval(s, n) & 1;
                            if ev == 0 {
                                return Err(Stop::Violation("assert", format!("assertion {id}"), id));
                            }
                            if let Some(m) = self.sat(s, nc)? {
                                s.model = m;
                                return Err(Stop::Violation("assert", format!("assertion {id}"), id));
                            }
                        }
                    }
                }
                unit
            }
            K::VsymCover => {
                let i = self.concretize(s, args[0].0.bits(), a(0, s))? as u32;
                if !s.covers.contains(&i) {
                    s.covers.push(i);
                }
                unit
            }
            K::VsymCovers => {
                if let E::C(i) = a(0, s) {
                    self.ncovers = self.ncovers.max(i as u32);
                }
                unit
            }
            K::VsymConcretize => {
                let v = self.concretize(s, 64, a(0, s))?;
                Val::I(E::C(v))
            }
            K::VsymExpectPanic => {
                let v = self.concretize(s, args[0].0.bits(), a(0, s))?;
                s.expect_panic = v & 1 == 1;
                unit
            }
            K::VsymMerge => {
                let v = self.concretize(s, args[0].0.bits(), a(0, s))?;
                s.merge = v & 1 == 1;
                unit
            }
            K::VsymObserve => {
                let v = a(0, s);
                let id = self.x.id(v, 64);
                s.obs.push(id);
                unit
            }
            K::Strlen | K::Unknown => {
                if noreturn {
                    return self.panic(s, name);
                }
                return Err(Stop::Err(format!("call of unknown external {name}")));
            }
        })
    }
    fn panic(&mut self, s: &mut State, name: &str) -> X<Val> {
        if name.contains("capacity_overflow") || name.contains("handle_alloc_error") || name.contains("alloc_err") {
            // would need an allocation failure
            return Err(Stop::Violation("panic", name.into(), 0));
        }
        if s.expect_panic && !name.contains("panic_nounwind") {
            self.st.expected_panics += 1;
            self.finish(s, true);
            return Err(Stop::End);
        }
        Err(Stop::Violation("panic", name.into(), 0))
    }
}

const EXIT: u32 = NONE - 1;

/// For each block the block (or EXIT) where all ways from it to a return meet
/// again, if the part in between is short; otherwise NONE.
fn ipdoms(f: &Func) -> Vec<u32> {
    let n = f.blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        let s = &mut succ[i];
        match b.ins.last() {
            Some(Ins::Br(t)) => s.push(*t as usize),
            Some(Ins::CondBr(_, t, f)) => {
                s.push(*t as usize);
                s.push(*f as usize);
            }
            Some(Ins::Switch { def, cases, .. }) => {
                s.push(*def as usize);
                s.extend(cases.iter().map(|c| c.1 as usize));
            }
            Some(Ins::Ret(_)) => s.push(n),
            Some(Ins::Call { normal: Some(l), .. }) => s.push(*l as usize),
            _ => {}
        }
        s.sort();
        s.dedup();
    }
    // blocks from which the function can return
    let mut live = vec![false; n + 1];
    live[n] = true;
    loop {
        let mut ch = false;
        for i in 0..n {
            if !live[i] && succ[i].iter().any(|t| live[*t]) {
                live[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let words = n / 64 + 1;
    let full = vec![u64::MAX; words];
    let mut pd: Vec<Vec<u64>> = vec![full; n + 1];
    pd[n] = vec![0; words];
    pd[n][n / 64] |= 1 << (n % 64);
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !live[i] {
                continue;
            }
            let mut m = vec![u64::MAX; words];
            for t in succ[i].iter().filter(|t| live[**t]) {
                for w in 0..words {
                    m[w] &= pd[*t][w];
                }
            }
            m[i / 64] |= 1 << (i % 64);
            if m != pd[i] {
                pd[i] = m;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let has = |s: &Vec<u64>, i: usize| s[i / 64] >> (i % 64) & 1 == 1;
    (0..n)
        .map(|i| {
            if !live[i] || !matches!(f.blocks[i].ins.last(), Some(Ins::CondBr(..) | Ins::Switch { .. })) {
                return NONE;
            }
            // the closest strict postdominator has all the others in its set
            let cand: Vec<usize> = (0..=n).filter(|&j| j != i && has(&pd[i], j) && live[j]).collect();
            let Some(&m) = cand.iter().find(|&&j| cand.iter().all(|&k| has(&pd[j], k))) else { return NONE };
            // short, and does not come back to the branch
            let mut seen = vec![false; n];
            let mut todo: Vec<usize> = succ[i].iter().copied().filter(|t| live[*t] && *t != m).collect();
            let mut size = 0;
            while let Some(b) = todo.pop() {
                if b == n || seen[b] {
                    continue;
                }
                if b == i {
                    return NONE;
                }
                seen[b] = true;
                size += f.blocks[b].ins.len();
                if size > 200 {
                    return NONE;
                }
                todo.extend(succ[b].iter().copied().filter(|t| live[*t] && *t != m));
            }
            if m == n {
                EXIT
            } else {
                m as u32
            }
        })
        .collect()
}

fn bitop(x: &mut Ctx, k: K, w: u32, e: E) -> E {
    match k {
        K::Abs => {
            let neg = x.bin(Op::Sub, w, E::C(0), e);
            let c = x.cmp(Op::Slt, w, e, E::C(0));
            x.ite(w, c, neg, e)
        }
        K::Ctlz | K::Cttz => {
            let mut r = E::C(w as u128);
            for i in 0..w {
                // later iterations win
                let pos = if k == K::Ctlz { i } else { w - 1 - i };
                let b = x.extract(w, pos, 1, e);
                let v = if k == K::Ctlz { w - 1 - pos } else { pos };
                r = x.ite(w, b, E::C(v as u128), r);
            }
            r
        }
        K::Ctpop => {
            let mut r = E::C(0);
            for i in 0..w {
                let b = x.extract(w, i, 1, e);
                let z = x.zext(1, w.max(2), b);
                let z = if w == 1 { b } else { z };
                r = x.bin(Op::Add, w, r, z);
            }
            r
        }
        K::Bswap => {
            let n = w / 8;
            let mut r = x.extract(w, w - 8, 8, e);
            for i in 1..n {
                let b = x.extract(w, w - 8 * (i + 1), 8, e);
                r = x.concat(8, 8 * i, b, r);
            }
            r
        }
        _ => {
            let mut r = x.extract(w, w - 1, 1, e);
            for i in 1..w {
                let b = x.extract(w, w - 1 - i, 1, e);
                r = x.concat(1, i, b, r);
            }
            r
        }
    }
}

fn minmax(x: &mut Ctx, k: K, w: u32, m: E, n: E) -> E {
    match k {
        K::Umin => {
            let c = x.cmp(Op::Ult, w, m, n);
            x.ite(w, c, m, n)
        }
        K::Umax => {
            let c = x.cmp(Op::Ult, w, m, n);
            x.ite(w, c, n, m)
        }
        K::Smin => {
            let c = x.cmp(Op::Slt, w, m, n);
            x.ite(w, c, m, n)
        }
        K::Smax => {
            let c = x.cmp(Op::Slt, w, m, n);
            x.ite(w, c, n, m)
        }
        K::UaddSat => {
            let (r, o) = overflow(x, K::UaddO, w, m, n);
            x.ite(w, o, E::C(mask(w)), r)
        }
        K::UsubSat => {
            let (r, o) = overflow(x, K::UsubO, w, m, n);
            x.ite(w, o, E::C(0), r)
        }
        _ => {
            let (r, o) = overflow(x, if k == K::SaddSat { K::SaddO } else { K::SsubO }, w, m, n);
            let neg = x.cmp(Op::Slt, w, m, E::C(0));
            let lim = x.ite(w, neg, E::C(1u128 << (w - 1)), E::C(mask(w) >> 1));
            x.ite(w, o, lim, r)
        }
    }
}

fn overflow(x: &mut Ctx, k: K, w: u32, p: E, q: E) -> (E, E) {
    match k {
        K::UaddO => {
            let r = x.bin(Op::Add, w, p, q);
            let (_, ph) = x.range(p);
            let (_, qh) = x.range(q);
            if ph.checked_add(qh).map_or(false, |h| h <= mask(w)) {
                return (r, E::C(0));
            }
            // p > max - q
            let lim = x.bin(Op::Sub, w, E::C(mask(w)), q);
            (r, x.cmp(Op::Ult, w, lim, p))
        }
        K::UsubO => (x.bin(Op::Sub, w, p, q), x.cmp(Op::Ult, w, p, q)),
        K::SaddO | K::SsubO => {
            let op = if k == K::SaddO { Op::Add } else { Op::Sub };
            let r = x.bin(op, w, p, q);
            if w < 128 {
                let (p2, q2) = (x.sext(w, w + 1, p), x.sext(w, w + 1, q));
                let r2 = x.bin(op, w + 1, p2, q2);
                let rs = x.sext(w, w + 1, r);
                let e = x.eq(w + 1, r2, rs);
                (r, x.not1(e))
            } else {
                let sp = x.extract(w, w - 1, 1, p);
                let sq = x.extract(w, w - 1, 1, q);
                let sr = x.extract(w, w - 1, 1, r);
                let same = x.bin(Op::Xor, 1, sp, sq);
                let ch = x.bin(Op::Xor, 1, sp, sr);
                let same = if k == K::SaddO { x.not1(same) } else { same };
                (r, x.and1(same, ch))
            }
        }
        K::UmulO => {
            let r = x.bin(Op::Mul, w, p, q);
            let (_, ph) = x.range(p);
            let (_, qh) = x.range(q);
            if ph.checked_mul(qh).map_or(false, |h| h <= mask(w)) {
                return (r, E::C(0));
            }
            if w <= 64 {
                let (p2, q2) = (x.zext(w, 2 * w, p), x.zext(w, 2 * w, q));
                let r2 = x.bin(Op::Mul, 2 * w, p2, q2);
                (r, x.cmp(Op::Ult, 2 * w, E::C(mask(w)), r2))
            } else {
                // p != 0 && q > max / p
                let z = x.eq(w, p, E::C(0));
                let d = x.bin(Op::UDiv, w, E::C(mask(w)), p);
                let g = x.cmp(Op::Ult, w, d, q);
                let nz = x.not1(z);
                (r, x.and1(nz, g))
            }
        }
        _ => {
            let r = x.bin(Op::Mul, w, p, q);
            if w <= 64 {
                let (p2, q2) = (x.sext(w, 2 * w, p), x.sext(w, 2 * w, q));
                let r2 = x.bin(Op::Mul, 2 * w, p2, q2);
                let rs = x.sext(w, 2 * w, r);
                let e = x.eq(2 * w, r2, rs);
                (r, x.not1(e))
            } else {
                let z = x.eq(w, p, E::C(0));
                let d = x.bin(Op::SDiv, w, r, p);
                let ne = x.eq(w, d, q);
                let ne = x.not1(ne);
                let m1 = x.eq(w, p, E::C(mask(w)));
                let qmin = x.eq(w, q, E::C(1u128 << (w - 1)));
                let sp = x.and1(m1, qmin);
                let o = x.or1(ne, sp);
                let nz = x.not1(z);
                (r, x.and1(nz, o))
            }
        }
    }
}
