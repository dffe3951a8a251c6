//! Per-path memory: objects with concrete bytes and a symbolic overlay,
//! copied on write.
use crate::decode::Prog;
use crate::expr::*;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x10_0000_0000;
const GAP: u64 = 0x100_0000;

#[derive(Clone)]
pub struct Upd {
    pub off: E, // 64 bit offset into the object
    pub n: u32, // bytes
    pub v: E,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: FxMap<u32, (u32, u8)>,
    /// writes at symbolic offsets, oldest first, on top of data/sym
    pub upd: Vec<Upd>,
    pub readonly: bool,
    pub kind: u8,
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<(u64, Rc<Obj>)>,
    pub globals: Vec<(usize, Rc<Obj>)>,
    pub next: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    H(usize),
    G(usize),
}

impl Mem {
    pub fn new() -> Mem {
        Mem { objs: vec![], globals: vec![], next: HEAP_BASE }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: u8) -> u64 {
        let align = align.max(16);
        let base = (self.next + align - 1) / align * align;
        self.next = (base + size + GAP) / GAP * GAP + GAP;
        self.objs.push((
            base,
            Rc::new(Obj { base, size, data: vec![0; size as usize], sym: Default::default(), upd: vec![], readonly: false, kind }),
        ));
        base
    }
    pub fn free(&mut self, base: u64) -> bool {
        match self.objs.binary_search_by_key(&base, |o| o.0) {
            Ok(i) => {
                self.objs.remove(i);
                true
            }
            Err(_) => false,
        }
    }
    /// object whose extent contains `a` (or ends exactly at `a`)
    pub fn find(&mut self, prog: &mut Prog, a: u64) -> Result<Option<Loc>, String> {
        if a >= HEAP_BASE {
            let k = self.objs.partition_point(|o| o.0 <= a);
            if k == 0 {
                return Ok(None);
            }
            let o = &self.objs[k - 1].1;
            return Ok(if a <= o.base + o.size { Some(Loc::H(k - 1)) } else { None });
        }
        match prog.gobj_at(a) {
            None => Ok(None),
            Some(g) => {
                if let Some(i) = self.globals.iter().position(|x| x.0 == g) {
                    return Ok(Some(Loc::G(i)));
                }
                let bytes = prog.gbytes(g)?;
                let go = &prog.gobjs[g];
                let o = Obj {
                    base: go.base,
                    size: go.size,
                    data: (*bytes).clone(),
                    sym: Default::default(),
                    upd: vec![],
                    readonly: go.readonly,
                    kind: 2,
                };
                self.globals.push((g, Rc::new(o)));
                Ok(Some(Loc::G(self.globals.len() - 1)))
            }
        }
    }
    pub fn obj(&self, l: Loc) -> &Obj {
        match l {
            Loc::H(i) => &self.objs[i].1,
            Loc::G(i) => &self.globals[i].1,
        }
    }
    pub fn obj_mut(&mut self, l: Loc) -> &mut Obj {
        match l {
            Loc::H(i) => Rc::make_mut(&mut self.objs[i].1),
            Loc::G(i) => Rc::make_mut(&mut self.globals[i].1),
        }
    }
}

impl Obj {
    fn byte(&self, x: &mut Ctx, off: u64) -> E {
        match self.sym.get(&(off as u32)) {
            None => E::C(self.data[off as usize] as u128),
            Some(&(n, k)) => {
                let w = x.width(n);
                x.extract(w, 8 * k as u32, 8, E::S(n))
            }
        }
    }
    /// load ignoring `upd`
    fn load_base(&self, x: &mut Ctx, off: u64, n: u32) -> E {
        let any = !self.sym.is_empty() && (0..n as u64).any(|k| self.sym.contains_key(&((off + k) as u32)));
        if !any {
            let mut v = 0u128;
            for k in (0..n as usize).rev() {
                v = (v << 8) | self.data[off as usize + k] as u128;
            }
            return E::C(v);
        }
        if let Some(&(nd, 0)) = self.sym.get(&(off as u32)) {
            if x.width(nd) == 8 * n && (1..n as u64).all(|k| self.sym.get(&((off + k) as u32)) == Some(&(nd, k as u8))) {
                return E::S(nd);
            }
        }
        let mut r = self.byte(x, off);
        for k in 1..n as u64 {
            let b = self.byte(x, off + k);
            r = x.concat(8, 8 * k as u32, b, r);
        }
        r
    }
    pub fn load(&self, x: &mut Ctx, off: u64, n: u32) -> E {
        let b = self.load_base(x, off, n);
        if self.upd.is_empty() {
            return b;
        }
        self.apply_upds(x, E::C(off as u128), n, b)
    }
    fn apply_upds(&self, x: &mut Ctx, off: E, n: u32, base: E) -> E {
        let mut r = base;
        for u in &self.upd {
            // congruent accesses of the same size either coincide or are disjoint
            let (su, ou) = stride(x, u.off);
            let (so, oo) = stride(x, off);
            let nn = n as u64;
            let cong = u.n == n && su % nn == 0 && so % nn == 0 && ou % nn == oo % nn;
            let cong = cong || (u.n == n && matches!((u.off, off), (E::C(_), E::C(_))) && u.off == off);
            if cong {
                let c = x.eq(64, u.off, off);
                r = x.ite(8 * n, c, u.v, r);
            } else {
                // bytewise
                let mut out: Option<E> = None;
                for k in 0..n {
                    let mut byte = x.extract(8 * n, 8 * k, 8, r);
                    let pos = x.bin(Op::Add, 64, off, E::C(k as u128));
                    for j in 0..u.n {
                        let up = x.bin(Op::Add, 64, u.off, E::C(j as u128));
                        let c = x.eq(64, pos, up);
                        let ub = x.extract(8 * u.n, 8 * j, 8, u.v);
                        byte = x.ite(8, c, ub, byte);
                    }
                    out = Some(match out {
                        None => byte,
                        Some(lo) => x.concat(8, 8 * k, byte, lo),
                    });
                }
                r = out.unwrap();
            }
        }
        r
    }
    pub fn store(&mut self, x: &mut Ctx, off: u64, n: u32, v: E) {
        let _ = &x;
        if !self.upd.is_empty() {
            self.upd.push(Upd { off: E::C(off as u128), n, v });
            return;
        }
        self.set_base(off, n, v)
    }
    fn set_base(&mut self, off: u64, n: u32, v: E) {
        match v {
            E::C(c) => {
                for k in 0..n as usize {
                    self.data[off as usize + k] = (c >> (8 * k)) as u8;
                }
                if !self.sym.is_empty() {
                    for k in 0..n {
                        self.sym.remove(&(off as u32 + k));
                    }
                }
            }
            E::S(id) => {
                for k in 0..n {
                    self.sym.insert(off as u32 + k, (id, k as u8));
                }
            }
        }
    }
    fn whole(&self, x: &Ctx, off: u64) -> Option<(u64, u32)> {
        let &(id, k) = self.sym.get(&(off as u32))?;
        let n = x.width(id) / 8;
        let start = off.checked_sub(k as u64)?;
        if n == 0 || n > 16 || x.width(id) % 8 != 0 || start + n as u64 > self.size {
            return None;
        }
        for j in 0..n {
            if self.sym.get(&((start + j as u64) as u32)) != Some(&(id, j as u8)) {
                return None;
            }
        }
        Some((start, n))
    }
    /// `a` where `c` holds and `b` elsewhere
    pub fn merge(x: &mut Ctx, c: E, a: &Obj, b: &Obj) -> Option<Obj> {
        if a.base != b.base || a.size != b.size || a.upd.len() != b.upd.len() {
            return None;
        }
        if a.upd.iter().zip(&b.upd).any(|(p, q)| p.off != q.off || p.n != q.n || p.v != q.v) {
            return None;
        }
        let mut r = a.clone();
        let mut off = 0u64;
        while off < a.size {
            let (sa, sb) = (a.sym.get(&(off as u32)), b.sym.get(&(off as u32)));
            if sa == sb && (sa.is_some() || a.data[off as usize] == b.data[off as usize]) {
                off += 1;
                continue;
            }
            let (mut st, mut n) = (off, 1u32);
            if sa.is_none() && sb.is_none() {
                let o = off & !7;
                if o + 8 <= a.size && (o..o + 8).all(|k| !a.sym.contains_key(&(k as u32)) && !b.sym.contains_key(&(k as u32))) {
                    st = o;
                    n = 8;
                }
            } else {
                for w in [a.whole(x, off), b.whole(x, off)].into_iter().flatten() {
                    if w.1 > n {
                        st = w.0;
                        n = w.1;
                    }
                }
            }
            let (va, vb) = (a.load_base(x, st, n), b.load_base(x, st, n));
            let v = x.ite(8 * n, c, va, vb);
            r.set_base(st, n, v);
            off = st + n as u64;
        }
        Some(r)
    }
    /// candidate concrete offsets of a symbolic offset expression
    pub fn candidates(&self, x: &Ctx, off: E, n: u32) -> (u64, u64, u64) {
        let (lo, hi) = x.range(off);
        let last = self.size.saturating_sub(n as u64);
        let lo = lo.min(last as u128) as u64;
        let hi = hi.min(last as u128) as u64;
        let (s, o) = stride(x, off);
        let s = s.max(1);
        // smallest c >= lo with c % s == o % s
        let o = o % s;
        let mut c = lo / s * s + o;
        if c < lo {
            c += s;
        }
        (c, hi, s)
    }
    pub fn load_sym(&self, x: &mut Ctx, off: E, n: u32, limit: u64) -> Result<E, String> {
        let (lo, hi, s) = self.candidates(x, off, n);
        let mut vals: Vec<(u64, E)> = vec![];
        let cnt = if hi >= lo { (hi - lo) / s + 1 } else { 0 };
        if cnt == 0 {
            return Err("no candidate offset".into());
        }
        if cnt > limit {
            // uniform concrete contents are the only cheap case
            let first = self.load_base(x, lo, n);
            let uniform = self.sym.is_empty() && {
                let mut c = lo;
                let mut u = true;
                while c <= hi {
                    if self.load_base(x, c, n) != first {
                        u = false;
                        break;
                    }
                    c += s;
                }
                u
            };
            if !uniform {
                return Err(format!("symbolic read over {cnt} candidates"));
            }
            return Ok(self.apply_upds(x, off, n, first));
        }
        let mut c = lo;
        while c <= hi {
            let v = self.load_base(x, c, n);
            vals.push((c, v));
            c += s;
        }
        let base = mux(x, off, &vals, 8 * n);
        Ok(if self.upd.is_empty() { base } else { self.apply_upds(x, off, n, base) })
    }
    pub fn store_sym(&mut self, x: &mut Ctx, off: E, n: u32, v: E, limit: u64) {
        let (lo, hi, s) = self.candidates(x, off, n);
        let cnt = if hi >= lo { (hi - lo) / s + 1 } else { 0 };
        if cnt > limit || !self.upd.is_empty() || s < n as u64 {
            self.upd.push(Upd { off, n, v });
            return;
        }
        let mut c = lo;
        while c <= hi {
            let old = self.load_base(x, c, n);
            let e = x.eq(64, off, E::C(c as u128));
            let nv = x.ite(8 * n, e, v, old);
            self.store(x, c, n, nv);
            c += s;
        }
    }
}

fn mux(x: &mut Ctx, off: E, vals: &[(u64, E)], w: u32) -> E {
    let first = vals[0].1;
    if vals.iter().all(|v| v.1 == first) {
        return first;
    }
    let distinct = {
        let mut d: Vec<E> = vec![];
        for v in vals {
            if !d.contains(&v.1) {
                d.push(v.1);
                if d.len() > 4 {
                    break;
                }
            }
        }
        d.len()
    };
    if vals.len() <= 8 || distinct <= 2 && vals.len() <= 64 {
        // most common value is the default
        let mut best = first;
        let mut bc = 0;
        for v in vals {
            let c = vals.iter().filter(|y| y.1 == v.1).count();
            if c > bc {
                bc = c;
                best = v.1;
            }
        }
        if bc > 1 || vals.len() <= 8 {
            let mut r = best;
            for v in vals.iter().rev() {
                if v.1 != best {
                    let c = x.eq(64, off, E::C(v.0 as u128));
                    r = x.ite(w, c, v.1, r);
                }
            }
            return r;
        }
    }
    let m = vals.len() / 2;
    let a = mux(x, off, &vals[..m], w);
    let b = mux(x, off, &vals[m..], w);
    if a == b {
        return a;
    }
    let c = x.cmp(Op::Ult, 64, off, E::C(vals[m].0 as u128));
    x.ite(w, c, a, b)
}

/// (stride, residue): value ≡ residue (mod stride); stride 0 = constant
pub fn stride(x: &Ctx, e: E) -> (u64, u64) {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    fn go(x: &Ctx, e: E, d: u32) -> (u64, u64) {
        match e {
            E::C(c) => (0, c as u64),
            E::S(i) => {
                if d == 0 {
                    return (1, 0);
                }
                let n = x.nodes[i as usize];
                // modular wrap-around keeps congruences only for powers of two
                // or when the range shows that nothing wrapped
                let pow2 = |s: u64| if s == 0 { 1 << 32 } else { 1u64 << s.trailing_zeros().min(32) };
                match n.op {
                    Op::ZExt => go(x, x.e(n.a), d - 1),
                    Op::Mul => {
                        if let E::C(k) = x.e(n.b) {
                            let (s, o) = go(x, x.e(n.a), d - 1);
                            let k = k as u64;
                            if k == 0 || k > (1 << 32) || s > (1 << 30) || o > (1 << 30) {
                                return (1, 0);
                            }
                            let (s, o) = (s * k, o * k);
                            let (_, ah) = x.range(x.e(n.a));
                            if ah.checked_mul(k as u128).map_or(false, |h| h <= mask(n.w as u32)) {
                                return (s, if s > 0 { o % s } else { o });
                            }
                            let p = pow2(s);
                            return (p, o % p);
                        }
                        (1, 0)
                    }
                    Op::Add => {
                        let (sa, oa) = go(x, x.e(n.a), d - 1);
                        let (sb, ob) = go(x, x.e(n.b), d - 1);
                        let g = gcd(sa, sb);
                        if g == 0 {
                            return (1, 0);
                        }
                        let (_, ah) = x.range(x.e(n.a));
                        let (_, bh) = x.range(x.e(n.b));
                        let nowrap = ah.checked_add(bh).map_or(false, |h| h <= mask(n.w as u32));
                        let g = if nowrap { g } else { pow2(g) };
                        (g, (oa % g + ob % g) % g)
                    }
                    Op::Concat => {
                        let bw = (n.w - n.aw) as u32;
                        match x.e(n.b) {
                            E::C(c) if bw < 32 => {
                                let (sa, oa) = go(x, x.e(n.a), d - 1);
                                if sa < (1 << 30) && oa < (1 << 30) && sa > 0 {
                                    (sa << bw, (oa << bw) | c as u64)
                                } else {
                                    (1 << bw, c as u64)
                                }
                            }
                            _ => (1, 0),
                        }
                    }
                    Op::Shl => {
                        if let E::C(k) = x.e(n.b) {
                            if k < 32 {
                                return (1 << k, 0);
                            }
                        }
                        (1, 0)
                    }
                    Op::Ite => {
                        let (sa, oa) = go(x, x.e(n.b), d - 1);
                        let (sb, ob) = go(x, x.e(n.c), d - 1);
                        let diff = oa.abs_diff(ob);
                        let g = gcd(gcd(sa, sb), diff);
                        if g == 0 {
                            (0, oa)
                        } else {
                            (g, oa % g)
                        }
                    }
                    _ => (1, 0),
                }
            }
        }
    }
    go(x, e, 12)
}
