//! Hash-consed bit-vector expression DAG with constant folding and
//! light-weight rewriting.  Widths are 1..=128 bits.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// A value: either a concrete constant (truncated to its width, which the
/// context supplies) or a node of the DAG.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    C(u128),
    S(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Node {
    pub op: Op,
    /// result width
    pub w: u16,
    /// operand width (width of `a`)
    pub aw: u16,
    /// extra immediate: Extract low bit / Var index / Const table index
    pub x: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const NONE: u32 = u32::MAX;

#[inline]
fn bitwise(o: Op) -> bool {
    matches!(o, Op::And | Op::Or | Op::Xor | Op::Ite)
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn trunc(v: u128, w: u32) -> u128 {
    v & mask(w)
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w = operand width
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                mask(w)
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            if b >= w as u128 {
                if x < 0 {
                    u128::MAX
                } else {
                    0
                }
            } else {
                (x >> b) as u128
            }
        }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => return (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    };
    trunc(r, w)
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u16), u32>,
    map: FxMap<Node, u32>,
    xmap: FxMap<(u32, u32, u32), E>,
    pub nvars: u32,
    pub var_node: Vec<u32>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            lo: vec![],
            hi: vec![],
            consts: vec![],
            cmap: Default::default(),
            map: Default::default(),
            xmap: Default::default(),
            nvars: 0,
            var_node: vec![],
        }
    }
    /// variable number `i` of width `w`; variables are shared between paths by
    /// (index,width).
    pub fn var(&mut self, i: u32, w: u32) -> E {
        let n = Node { op: Op::Var, w: w as u16, aw: 0, x: i, a: NONE, b: NONE, c: NONE };
        E::S(self.intern_raw(n, 0, mask(w)))
    }
    fn intern_raw(&mut self, n: Node, lo: u128, hi: u128) -> u32 {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.map.insert(n, id);
        id
    }
    pub fn id(&mut self, e: E, w: u32) -> u32 {
        match e {
            E::S(i) => i,
            E::C(v) => {
                let v = trunc(v, w);
                if let Some(&i) = self.cmap.get(&(v, w as u16)) {
                    return i;
                }
                let ci = self.consts.len() as u32;
                self.consts.push(v);
                let n = Node { op: Op::Const, w: w as u16, aw: 0, x: ci, a: NONE, b: NONE, c: NONE };
                let id = self.intern_raw(n, v, v);
                self.cmap.insert((v, w as u16), id);
                id
            }
        }
    }
    #[inline]
    pub fn e(&self, id: u32) -> E {
        let n = &self.nodes[id as usize];
        if n.op == Op::Const {
            E::C(self.consts[n.x as usize])
        } else {
            E::S(id)
        }
    }
    pub fn width(&self, id: u32) -> u32 {
        self.nodes[id as usize].w as u32
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        match e {
            E::C(v) => (v, v),
            E::S(i) => (self.lo[i as usize], self.hi[i as usize]),
        }
    }
    fn node(&self, e: E) -> Option<Node> {
        match e {
            E::S(i) => Some(self.nodes[i as usize]),
            _ => None,
        }
    }

    fn mk(&mut self, op: Op, w: u32, aw: u32, x: u32, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w: w as u16, aw: aw as u16, x, a, b, c };
        if let Some(&i) = self.map.get(&n) {
            return E::S(i);
        }
        let (lo, hi) = self.compute_range(&n);
        if lo == hi {
            return E::C(lo);
        }
        E::S(self.intern_raw(n, lo, hi))
    }

    fn compute_range(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = mask(w);
        let full = (0u128, m);
        let r = |i: u32| (self.lo[i as usize], self.hi[i as usize]);
        match n.op {
            Op::Add => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // both ends overflow: (e.g. x + (-1) with x>=1)
                        match (al.checked_add(bl), ah.checked_add(bh)) {
                            (Some(l), Some(h)) if l > m && w < 127 => (l - m - 1, h - m - 1),
                            _ => full,
                        }
                    }
                }
            }
            Op::Sub => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            Op::URem => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if bl > 0 {
                    if ah < bl {
                        (al, ah)
                    } else {
                        (0, ah.min(bh - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => {
                let (_, ah) = r(n.a);
                let (_, bh) = r(n.b);
                (0, ah.min(bh))
            }
            Op::Or => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                let bits = 128 - (ah | bh).leading_zeros();
                (al.max(bl), mask(bits))
            }
            Op::Xor => {
                let (_, ah) = r(n.a);
                let (_, bh) = r(n.b);
                let bits = 128 - (ah | bh).leading_zeros();
                (0, mask(bits))
            }
            Op::Shl => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if bh < w as u128 && ah.leading_zeros() as u128 >= bh && (ah << bh) <= m {
                    (al << bl, ah << bh)
                } else {
                    full
                }
            }
            Op::LShr => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                let hi = if bl >= w as u128 { 0 } else { ah >> bl };
                let lo = if bh >= w as u128 { 0 } else { al >> bh };
                (lo, hi)
            }
            Op::Ite => {
                let (al, ah) = r(n.b);
                let (bl, bh) = r(n.c);
                (al.min(bl), ah.max(bh))
            }
            Op::ZExt => r(n.a),
            Op::SExt => {
                let (al, ah) = r(n.a);
                let sign = 1u128 << (n.aw - 1);
                if ah < sign {
                    (al, ah)
                } else {
                    full
                }
            }
            Op::Extract => {
                let (al, ah) = r(n.a);
                if n.x == 0 {
                    if ah <= m {
                        (al, ah)
                    } else {
                        full
                    }
                } else if (ah >> n.x) <= m {
                    (al >> n.x, ah >> n.x)
                } else {
                    full
                }
            }
            Op::Concat => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                let bw = w - n.aw as u32;
                if al == ah {
                    ((al << bw) | bl, (al << bw) | bh)
                } else {
                    (al << bw, (ah << bw) | mask(bw))
                }
            }
            _ => full,
        }
    }

    pub fn not1(&mut self, a: E) -> E {
        self.bin(Op::Xor, 1, a, E::C(1))
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, 1, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, 1, a, b)
    }
    pub fn eq(&mut self, w: u32, a: E, b: E) -> E {
        self.cmp(Op::Eq, w, a, b)
    }

    fn is_ite_consts(&self, e: E) -> Option<(u32, u128, u128)> {
        let n = self.node(e)?;
        if n.op != Op::Ite {
            return None;
        }
        match (self.e(n.b), self.e(n.c)) {
            (E::C(x), E::C(y)) => Some((n.a, x, y)),
            _ => None,
        }
    }
    /// ite tree whose leaves are all constants, up to a small leaf budget
    fn const_tree(&self, e: E, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        match e {
            E::C(_) => true,
            E::S(i) => {
                let n = self.nodes[i as usize];
                n.op == Op::Ite && self.const_tree(self.e(n.b), budget) && self.const_tree(self.e(n.c), budget)
            }
        }
    }
    fn map_tree(&mut self, e: E, rw: u32, f: &mut dyn FnMut(&mut Ctx, u128) -> E) -> E {
        match e {
            E::C(v) => f(self, v),
            E::S(i) => {
                let n = self.nodes[i as usize];
                let (b, c) = (self.e(n.b), self.e(n.c));
                let b = self.map_tree(b, rw, f);
                let c = self.map_tree(c, rw, f);
                self.ite(rw, E::S(n.a), b, c)
            }
        }
    }

    /// whether `e` is a word put together by bit operations
    fn of_bits(&self, e: E, depth: u32) -> bool {
        let Some(n) = self.node(e) else { return true };
        match n.op {
            Op::And | Op::Or | Op::Xor | Op::Shl | Op::Concat => n.w > 1 && !matches!(e, E::C(_)),
            Op::Ite => depth > 0 && self.of_bits(self.e(n.b), depth - 1) && self.of_bits(self.e(n.c), depth - 1),
            _ => false,
        }
    }
    pub fn cmp(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        if let (E::C(x), E::C(y)) = (a, b) {
            return E::C(fold(op, w, x, y));
        }
        if a == b {
            return E::C(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        match op {
            Op::Eq => {
                if ah < bl || bh < al {
                    return E::C(0);
                }
            }
            Op::Ult => {
                if ah < bl {
                    return E::C(1);
                }
                if al >= bh {
                    return E::C(0);
                }
            }
            Op::Ule => {
                if ah <= bl {
                    return E::C(1);
                }
                if al > bh {
                    return E::C(0);
                }
            }
            Op::Slt | Op::Sle => {
                let sign = 1u128 << (w - 1);
                // both in the same half: unsigned comparison is equivalent
                if (ah < sign && bh < sign) || (al >= sign && bl >= sign) {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.cmp(o, w, a, b);
                }
                if al >= sign && bh < sign {
                    return E::C(1);
                }
                if ah < sign && bl >= sign {
                    return E::C(0);
                }
            }
            _ => {}
        }
        if op == Op::Ule {
            // a <= b  ==  !(b < a)
            let r = self.cmp(Op::Ult, w, b, a);
            return self.not1(r);
        }
        if op == Op::Sle {
            let r = self.cmp(Op::Slt, w, b, a);
            return self.not1(r);
        }
        // constants to the right for Eq
        let (a, b) = if op == Op::Eq {
            match (a, b) {
                (E::C(_), _) => (b, a),
                (E::S(x), E::S(y)) if x > y => (b, a),
                _ => (a, b),
            }
        } else {
            (a, b)
        };
        if w == 1 && op == Op::Eq {
            match b {
                E::C(1) => return a,
                E::C(0) => return self.not1(a),
                _ => {
                    let x = self.bin(Op::Xor, 1, a, b);
                    return self.not1(x);
                }
            }
        }
        // the sign of a word put together from bits
        let top = 1u128 << (w - 1);
        let bits = |x: &Self, e: E| x.of_bits(e, 8);
        match (op, a, b) {
            (Op::Slt, _, E::C(0)) if bits(self, a) => return self.extract(w, w - 1, 1, a),
            (Op::Ult, _, E::C(k)) if k == top && bits(self, a) => {
                let s = self.extract(w, w - 1, 1, a);
                return self.not1(s);
            }
            (Op::Slt, E::C(k), _) if k == mask(w) && bits(self, b) => {
                let s = self.extract(w, w - 1, 1, b);
                return self.not1(s);
            }
            (Op::Ult, E::C(k), _) if k == top - 1 && bits(self, b) => return self.extract(w, w - 1, 1, b),
            _ => {}
        }
        if w == 1 && op == Op::Ult {
            // a < b  == !a & b
            let na = self.not1(a);
            return self.and1(na, b);
        }
        if let E::C(k) = b {
            if let Some(n) = self.node(a) {
                match n.op {
                    Op::Ite => {
                        let mut bud = 24;
                        if self.const_tree(a, &mut bud) {
                            return self.map_tree(a, 1, &mut |_, v| E::C(fold(op, w, v, k)));
                        }
                        if op == Op::Eq {
                            // one constant side decides
                            let (x, y) = (self.e(n.b), self.e(n.c));
                            if let E::C(xv) = x {
                                if xv != k {
                                    let r = self.cmp(Op::Eq, w, y, b);
                                    let nc = self.not1(E::S(n.a));
                                    return self.and1(nc, r);
                                }
                            }
                            if let E::C(yv) = y {
                                if yv != k {
                                    let r = self.cmp(Op::Eq, w, x, b);
                                    return self.and1(E::S(n.a), r);
                                }
                            }
                        }
                    }
                    Op::ZExt if op == Op::Eq || op == Op::Ult => {
                        // ranges already excluded k > max
                        let aw = n.aw as u32;
                        if k <= mask(aw) {
                            return self.cmp(op, aw, E::S(n.a), E::C(k));
                        }
                    }
                    Op::SExt if op == Op::Eq => {
                        let aw = n.aw as u32;
                        let t = trunc(k, aw);
                        if trunc(sext(t, aw) as u128, w) == k {
                            return self.cmp(Op::Eq, aw, E::S(n.a), E::C(t));
                        }
                        return E::C(0);
                    }
                    Op::Add if op == Op::Eq => {
                        if let E::C(c2) = self.e(n.b) {
                            return self.cmp(Op::Eq, w, E::S(n.a), E::C(trunc(k.wrapping_sub(c2), w)));
                        }
                    }
                    Op::And if op == Op::Eq => {
                        // one bit of a word
                        if let E::C(c2) = self.e(n.b) {
                            if c2.is_power_of_two() && (k == 0 || k == c2) {
                                let bit = self.extract(w, c2.trailing_zeros(), 1, E::S(n.a));
                                return if k == 0 { self.not1(bit) } else { bit };
                            }
                        }
                    }
                    Op::Xor if op == Op::Eq => {
                        if let E::C(c2) = self.e(n.b) {
                            return self.cmp(Op::Eq, w, E::S(n.a), E::C(k ^ c2));
                        }
                    }
                    Op::Concat if op == Op::Eq => {
                        let bw = w - n.aw as u32;
                        let (ha, lb) = (self.e(n.a), self.e(n.b));
                        let h = self.cmp(Op::Eq, n.aw as u32, ha, E::C(k >> bw));
                        let l = self.cmp(Op::Eq, bw, lb, E::C(trunc(k, bw)));
                        return self.and1(h, l);
                    }
                    _ => {}
                }
            }
            if op == Op::Ult && k == 1 {
                return self.cmp(Op::Eq, w, a, E::C(0));
            }
        }
        if let (E::C(k), Op::Ult) = (a, op) {
            if let Some(n) = self.node(b) {
                match n.op {
                    Op::Ite => {
                        let mut bud = 24;
                        if self.const_tree(b, &mut bud) {
                            return self.map_tree(b, 1, &mut |_, v| E::C(fold(op, w, k, v)));
                        }
                    }
                    Op::ZExt => {
                        let aw = n.aw as u32;
                        if k <= mask(aw) {
                            return self.cmp(op, aw, E::C(k), E::S(n.a));
                        }
                    }
                    _ => {}
                }
            }
            if k == 0 {
                let r = self.cmp(Op::Eq, w, b, E::C(0));
                return self.not1(r);
            }
        }
        if op == Op::Ult && self.multiple(w, a, b, false).is_some() {
            return E::C(0);
        }
        if let (Some(n1), Some(n2)) = (self.node(a), self.node(b)) {
            if n1.op == Op::ZExt && n2.op == Op::ZExt && (op == Op::Eq || op == Op::Ult) {
                let aw = n1.aw.max(n2.aw) as u32;
                if aw < w {
                    let x = self.zext(n1.aw as u32, aw, E::S(n1.a));
                    let y = self.zext(n2.aw as u32, aw, E::S(n2.a));
                    return self.cmp(op, aw, x, y);
                }
            }
            if n1.op == Op::SExt && n2.op == Op::SExt && n1.aw == n2.aw && (op == Op::Eq || op == Op::Slt) {
                return self.cmp(op, n1.aw as u32, E::S(n1.a), E::S(n2.a));
            }
            // words put together in different ways from the same bits
            if op == Op::Eq && (8..=64).contains(&w) && (bitwise(n1.op) || bitwise(n2.op)) && n1.op != Op::Var && n2.op != Op::Var {
                let mut same = true;
                for i in 0..w {
                    let p = self.extract(w, i, 1, a);
                    let q = self.extract(w, i, 1, b);
                    if let (E::C(x), E::C(y)) = (p, q) {
                        if x != y {
                            return E::C(0);
                        }
                    } else if p != q {
                        same = false;
                        break;
                    }
                }
                if same {
                    return E::C(1);
                }
            }
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        self.mk(op, 1, w, 0, ia, ib, NONE)
    }

    pub fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        if let (E::C(x), E::C(y)) = (a, b) {
            return E::C(fold(op, w, x, y));
        }
        let m = mask(w);
        // constants to the right for commutative ops
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            match (a, b) {
                (E::C(_), _) => std::mem::swap(&mut a, &mut b),
                (E::S(x), E::S(y)) if x > y => std::mem::swap(&mut a, &mut b),
                _ => {}
            }
        }
        if let E::C(k) = b {
            match op {
                Op::Add | Op::Sub | Op::Xor | Op::Or | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 && w > 1 => return a,
                Op::Mul | Op::And if k == 0 => return E::C(0),
                Op::URem if k == 1 => return E::C(0),
                Op::And if k == m => return a,
                Op::Or if k == m => return E::C(m),
                Op::Shl | Op::LShr if k >= w as u128 => return E::C(0),
                _ => {}
            }
            // op over ite-of-constants
            if let Some((c, x, y)) = self.is_ite_consts(a) {
                return self.ite(w, E::S(c), E::C(fold(op, w, x, k)), E::C(fold(op, w, y, k)));
            }
            match op {
                Op::Sub => {
                    return self.bin(Op::Add, w, a, E::C(trunc(k.wrapping_neg(), w)));
                }
                Op::Add | Op::Xor | Op::And | Op::Or => {
                    if let Some(n) = self.node(a) {
                        if n.op == op {
                            if let E::C(k2) = self.e(n.b) {
                                return self.bin(op, w, E::S(n.a), E::C(fold(op, w, k2, k)));
                            }
                        }
                    }
                }
                Op::Mul if k.is_power_of_two() => {
                    return self.bin(Op::Shl, w, a, E::C(k.trailing_zeros() as u128));
                }
                Op::UDiv if k.is_power_of_two() => {
                    return self.bin(Op::LShr, w, a, E::C(k.trailing_zeros() as u128));
                }
                Op::URem if k.is_power_of_two() => {
                    return self.bin(Op::And, w, a, E::C(k - 1));
                }
                _ => {}
            }
            let (al, ah) = self.range(a);
            let _ = al;
            match op {
                Op::And => {
                    // mask that keeps everything a can have
                    if k & (k + 1) == 0 && ah <= k {
                        return a;
                    }
                    // low mask: zext(trunc)
                    if k & (k + 1) == 0 {
                        let kb = 128 - k.leading_zeros();
                        let t = self.extract(w, 0, kb, a);
                        return self.zext(kb, w, t);
                    }
                    // single bit or generic: keep
                }
                Op::UDiv if ah < k => return E::C(0),
                Op::URem if ah < k => return a,
                Op::LShr => {
                    // constant shift: extract + zext
                    let s = k as u32;
                    let t = self.extract(w, s, w - s, a);
                    return self.zext(w - s, w, t);
                }
                _ => {}
            }
        }
        if let E::C(k) = a {
            if k == 0 && matches!(op, Op::Shl | Op::LShr | Op::AShr) {
                return E::C(0);
            }
            if let Some((c, x, y)) = self.is_ite_consts(b) {
                return self.ite(w, E::S(c), E::C(fold(op, w, k, x)), E::C(fold(op, w, k, y)));
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return E::C(0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Op::Add | Op::Sub => return self.bin(Op::Xor, 1, a, b),
                Op::Mul => return self.bin(Op::And, 1, a, b),
                _ => {}
            }
            if matches!(op, Op::And | Op::Or) {
                // x & !x
                let na = self.not1(a);
                if na == b {
                    return E::C((op == Op::Or) as u128);
                }
            }
            // xor of two constant-xors:  (a^1)^(b^1) = a^b
            if op == Op::Xor {
                if let (Some(n1), Some(n2)) = (self.node(a), self.node(b)) {
                    let k1 = if n1.op == Op::Xor { self.e(n1.b) == E::C(1) } else { false };
                    let k2 = if n2.op == Op::Xor { self.e(n2.b) == E::C(1) } else { false };
                    if k1 && k2 {
                        return self.bin(Op::Xor, 1, E::S(n1.a), E::S(n2.a));
                    }
                    if k1 {
                        let r = self.bin(Op::Xor, 1, E::S(n1.a), b);
                        return self.not1(r);
                    }
                    if k2 {
                        let r = self.bin(Op::Xor, 1, a, E::S(n2.a));
                        return self.not1(r);
                    }
                }
            }
        }
        // (x + k1) - x style cancellations and (x+c1)-(x+c2)
        if op == Op::Sub {
            // what a division leaves
            if let Some(k) = self.multiple(w, a, b, false) {
                return self.bin(Op::URem, w, a, E::C(k));
            }
            if let Some(r) = self.cancel_sub(w, a, b) {
                return r;
            }
            // the larger less the smaller
            if let (Some(n1), Some(n2)) = (self.node(a), self.node(b)) {
                if n1.op == Op::Ite && n2.op == Op::Ite && n1.a == n2.a && n1.b == n2.c && n1.c == n2.b {
                    let (x, y) = (self.e(n1.b), self.e(n1.c));
                    let d = self.bin(Op::Sub, w, x, y);
                    let e = self.bin(Op::Sub, w, y, x);
                    return self.ite(w, E::S(n1.a), d, e);
                }
            }
        }
        if op == Op::Add {
            for (p, q) in [(a, b), (b, a)] {
                if let Some(k) = self.multiple(w, p, q, true) {
                    return self.bin(Op::URem, w, p, E::C(k));
                }
            }
            // hoist constants: (x + k) + y -> (x + y) + k
            for (p, q) in [(a, b), (b, a)] {
                if let Some(n) = self.node(p) {
                    if n.op == Op::Add {
                        if let E::C(k) = self.e(n.b) {
                            let s = self.bin(Op::Add, w, E::S(n.a), q);
                            return self.bin(Op::Add, w, s, E::C(k));
                        }
                    }
                }
            }
            // a + (b - a) -> b
            for (p, q) in [(a, b), (b, a)] {
                if let (E::S(pi), Some(n)) = (p, self.node(q)) {
                    if n.op == Op::Sub && n.b == pi {
                        return self.e(n.a);
                    }
                }
            }
        }
        // or of disjoint concat-like pieces: (x << k) | zext(y)  with y < 2^k
        if op == Op::Or || op == Op::Add || op == Op::Xor {
            if let Some(r) = self.shl_or(w, a, b) {
                return r;
            }
        }
        if op == Op::Shl {
            if let (E::C(k), Some(n)) = (b, self.node(a)) {
                let _ = n;
                // constant shift: concat(extract, zeros)
                let s = k as u32;
                let t = self.extract(w, 0, w - s, a);
                return self.concat(w - s, s, t, E::C(0));
            }
        }
        if matches!(op, Op::And | Op::Or | Op::Xor) {
            // both zero-extended: do it narrow
            if let Some(n1) = self.node(a) {
                if n1.op == Op::ZExt {
                    let aw = n1.aw as u32;
                    match b {
                        E::C(k) if k <= mask(aw) => {
                            let r = self.bin(op, aw, E::S(n1.a), b);
                            return self.zext(aw, w, r);
                        }
                        E::C(k) if op == Op::And => {
                            let r = self.bin(op, aw, E::S(n1.a), E::C(k & mask(aw)));
                            return self.zext(aw, w, r);
                        }
                        E::S(j) => {
                            let n2 = self.nodes[j as usize];
                            if n2.op == Op::ZExt && n2.aw == n1.aw {
                                let r = self.bin(op, aw, E::S(n1.a), E::S(n2.a));
                                return self.zext(aw, w, r);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        // narrowing of mul / udiv / urem by ranges
        if matches!(op, Op::Mul | Op::UDiv | Op::URem) && w > 4 {
            let (_, ah) = self.range(a);
            let (bl, bh) = self.range(b);
            let need = match op {
                Op::Mul => match ah.checked_mul(bh) {
                    Some(h) => 128 - h.leading_zeros(),
                    None => 128,
                },
                _ if bl > 0 => 128 - (ah | bh).leading_zeros(),
                _ => 128,
            };
            let need = need.max(1);
            if need < w {
                let x = self.extract(w, 0, need, a);
                let y = self.extract(w, 0, need, b);
                let r = self.bin(op, need, x, y);
                return self.zext(need, w, r);
            }
        }
        // signed division of non-negative operands
        if matches!(op, Op::SDiv | Op::SRem) {
            let sign = 1u128 << (w - 1);
            if self.range(a).1 < sign && self.range(b).1 < sign {
                return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, w, a, b);
            }
        }
        if op == Op::AShr {
            let sign = 1u128 << (w - 1);
            if self.range(a).1 < sign {
                return self.bin(Op::LShr, w, a, b);
            }
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        self.mk(op, w, w, 0, ia, ib, NONE)
    }

    /// k, if b is (a / k) * k, or with `neg` (a / k) * -k
    fn multiple(&mut self, w: u32, a: E, b: E, neg: bool) -> Option<u128> {
        let mut n = self.node(b)?;
        if neg && n.op != Op::Mul {
            return None;
        }
        let mut mw = w;
        if n.op == Op::ZExt {
            mw = n.aw as u32;
            n = self.node(self.e(n.a))?;
        }
        if n.op == Op::Concat && self.e(n.b) == E::C(0) {
            let s = mw - n.aw as u32;
            if mw != w || s >= w {
                return None;
            }
            let h = self.extract(w, s, w - s, a);
            return (h == self.e(n.a)).then(|| 1 << s);
        }
        if n.op != Op::Mul {
            return None;
        }
        let E::C(mut k) = self.e(n.b) else {
            return None;
        };
        if neg {
            k = trunc(k.wrapping_neg(), w);
        }
        let mut q = self.node(self.e(n.a))?;
        let mut qw = mw;
        if q.op == Op::ZExt {
            qw = q.aw as u32;
            q = self.node(self.e(q.a))?;
        }
        if q.op != Op::UDiv || self.e(q.b) != E::C(k) {
            return None;
        }
        let p = self.e(q.a);
        (self.zext(qw, w, p) == a).then_some(k)
    }

    fn split_const(&self, w: u32, e: E) -> (Option<u32>, u128) {
        match e {
            E::C(k) => (None, k),
            E::S(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::Add {
                    if let E::C(k) = self.e(n.b) {
                        return (Some(n.a), trunc(k, w));
                    }
                }
                (Some(i), 0)
            }
        }
    }
    fn cancel_sub(&mut self, w: u32, a: E, b: E) -> Option<E> {
        let (xa, ka) = self.split_const(w, a);
        let (xb, kb) = self.split_const(w, b);
        if xa.is_some() && xa == xb {
            return Some(E::C(trunc(ka.wrapping_sub(kb), w)));
        }
        // (x + y) - x
        if let (Some(x), Some(y)) = (xa, xb) {
            let n = self.nodes[x as usize];
            if n.op == Op::Add && (n.a == y || n.b == y) {
                let other = self.e(if n.a == y { n.b } else { n.a });
                return Some(self.bin(Op::Add, w, other, E::C(trunc(ka.wrapping_sub(kb), w))));
            }
        }
        None
    }
    /// zero-low-bits count known syntactically
    fn low_zeros(&self, e: E) -> u32 {
        match e {
            E::C(0) => 128,
            E::C(k) => k.trailing_zeros(),
            E::S(i) => {
                let n = self.nodes[i as usize];
                match n.op {
                    Op::Concat => {
                        let bw = (n.w - n.aw) as u32;
                        if self.e(n.b) == E::C(0) {
                            bw + self.low_zeros(self.e(n.a)).min(128)
                        } else {
                            self.low_zeros(self.e(n.b)).min(bw)
                        }
                    }
                    Op::ZExt => self.low_zeros(E::S(n.a)),
                    _ => 0,
                }
            }
        }
    }
    fn shl_or(&mut self, w: u32, a: E, b: E) -> Option<E> {
        for (p, q) in [(a, b), (b, a)] {
            let z = self.low_zeros(p);
            if z == 0 || z >= w {
                continue;
            }
            let (_, qh) = self.range(q);
            if qh <= mask(z) && matches!(p, E::S(_)) {
                let hi = self.extract(w, z, w - z, p);
                let lo = self.extract(w, 0, z, q);
                return Some(self.concat(w - z, z, hi, lo));
            }
        }
        None
    }

    pub fn ite(&mut self, w: u32, c: E, a: E, b: E) -> E {
        match c {
            E::C(v) => return if v & 1 == 1 { a } else { b },
            _ => {}
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (a, b) {
                (E::C(1), E::C(0)) => return c,
                (E::C(0), E::C(1)) => return self.not1(c),
                (E::C(1), _) => return self.or1(c, b),
                (E::C(0), _) => {
                    let nc = self.not1(c);
                    return self.and1(nc, b);
                }
                (_, E::C(0)) => return self.and1(c, a),
                (_, E::C(1)) => {
                    let nc = self.not1(c);
                    return self.or1(nc, a);
                }
                _ => {}
            }
        }
        let E::S(ci) = c else { unreachable!() };
        let cn = self.nodes[ci as usize];
        // not(c)
        if cn.op == Op::Xor && cn.w == 1 && self.e(cn.b) == E::C(1) {
            return self.ite(w, E::S(cn.a), b, a);
        }
        // nested same condition
        let a = match self.node(a) {
            Some(n) if n.op == Op::Ite && n.a == ci => self.e(n.b),
            _ => a,
        };
        let b = match self.node(b) {
            Some(n) if n.op == Op::Ite && n.a == ci => self.e(n.c),
            _ => b,
        };
        if a == b {
            return a;
        }
        // ite(x == k, k, x) -> x ; skip otherwise
        if cn.op == Op::Eq && cn.aw as u32 == w {
            let (x, k) = (self.e(cn.a), self.e(cn.b));
            if (a == k && b == x) || (a == x && b == k) {
                return b;
            }
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        self.mk(Op::Ite, w, 1, 0, ci, ia, ib)
    }

    pub fn zext(&mut self, from: u32, to: u32, a: E) -> E {
        if from == to {
            return a;
        }
        debug_assert!(to > from);
        match a {
            E::C(v) => E::C(v),
            E::S(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::ZExt {
                    return self.zext(n.aw as u32, to, E::S(n.a));
                }
                if n.op == Op::Ite {
                    if let (E::C(x), E::C(y)) = (self.e(n.b), self.e(n.c)) {
                        return self.ite(to, E::S(n.a), E::C(x), E::C(y));
                    }
                }
                self.mk(Op::ZExt, to, from, 0, i, NONE, NONE)
            }
        }
    }
    pub fn sext(&mut self, from: u32, to: u32, a: E) -> E {
        if from == to {
            return a;
        }
        match a {
            E::C(v) => E::C(trunc(sext(v, from) as u128, to)),
            E::S(i) => {
                let n = self.nodes[i as usize];
                if self.hi[i as usize] < (1u128 << (from - 1)) {
                    return self.zext(from, to, a);
                }
                if n.op == Op::SExt {
                    return self.sext(n.aw as u32, to, E::S(n.a));
                }
                if from == 1 {
                    return self.ite(to, a, E::C(mask(to)), E::C(0));
                }
                if n.op == Op::Ite {
                    if let (E::C(x), E::C(y)) = (self.e(n.b), self.e(n.c)) {
                        let f = |v| E::C(trunc(sext(v, from) as u128, to));
                        return self.ite(to, E::S(n.a), f(x), f(y));
                    }
                }
                self.mk(Op::SExt, to, from, 0, i, NONE, NONE)
            }
        }
    }
    /// bits [lo, lo+len) of a (width w)
    pub fn extract(&mut self, w: u32, lo: u32, len: u32, a: E) -> E {
        if lo == 0 && len == w {
            return a;
        }
        debug_assert!(lo + len <= w && len > 0);
        match a {
            E::C(v) => E::C(trunc(v >> lo, len)),
            E::S(i) => {
                if let Some(r) = self.xmap.get(&(i, lo, len)) {
                    return *r;
                }
                let r = self.extract_new(w, lo, len, a);
                self.xmap.insert((i, lo, len), r);
                r
            }
        }
    }
    fn extract_new(&mut self, w: u32, lo: u32, len: u32, a: E) -> E {
        match a {
            E::C(v) => E::C(trunc(v >> lo, len)),
            E::S(i) => {
                let n = self.nodes[i as usize];
                match n.op {
                    Op::Extract => return self.extract(n.aw as u32, n.x + lo, len, E::S(n.a)),
                    Op::ZExt => {
                        let aw = n.aw as u32;
                        if lo >= aw {
                            return E::C(0);
                        }
                        if lo + len <= aw {
                            return self.extract(aw, lo, len, E::S(n.a));
                        }
                        let t = self.extract(aw, lo, aw - lo, E::S(n.a));
                        return self.zext(aw - lo, len, t);
                    }
                    Op::SExt => {
                        let aw = n.aw as u32;
                        if lo + len <= aw {
                            return self.extract(aw, lo, len, E::S(n.a));
                        }
                        if lo == 0 {
                            return self.sext(aw, len, E::S(n.a));
                        }
                    }
                    Op::Concat => {
                        let bw = (n.w - n.aw) as u32;
                        if lo + len <= bw {
                            let x = self.e(n.b);
                            return self.extract(bw, lo, len, x);
                        }
                        if lo >= bw {
                            let x = self.e(n.a);
                            return self.extract(n.aw as u32, lo - bw, len, x);
                        }
                        let (x, y) = (self.e(n.a), self.e(n.b));
                        let h = self.extract(n.aw as u32, 0, lo + len - bw, x);
                        let l = self.extract(bw, lo, bw - lo, y);
                        return self.concat(lo + len - bw, bw - lo, h, l);
                    }
                    Op::Ite => {
                        let (x, y) = (self.e(n.b), self.e(n.c));
                        let mut bud = 24;
                        if self.const_tree(a, &mut bud) {
                            return self.map_tree(a, len, &mut |_, v| E::C(trunc(v >> lo, len)));
                        }
                        if len == 1 || matches!(x, E::C(_)) || matches!(y, E::C(_)) {
                            let x = self.extract(w, lo, len, x);
                            let y = self.extract(w, lo, len, y);
                            return self.ite(len, E::S(n.a), x, y);
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (x, y) = (self.e(n.a), self.e(n.b));
                        if matches!(y, E::C(_)) || len == 1 {
                            let x = self.extract(w, lo, len, x);
                            let y = self.extract(w, lo, len, y);
                            return self.bin(n.op, len, x, y);
                        }
                    }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 && len < w => {
                        // modular arithmetic commutes with truncation
                        let (x, y) = (self.e(n.a), self.e(n.b));
                        let x = self.extract(w, 0, len, x);
                        let y = self.extract(w, 0, len, y);
                        return self.bin(n.op, len, x, y);
                    }
                    _ => {}
                }
                if lo > 0 && (self.hi[i as usize] >> lo) == 0 {
                    return E::C(0);
                }
                self.mk(Op::Extract, len, w, lo, i, NONE, NONE)
            }
        }
    }
    /// a (aw bits, high) ++ b (bw bits, low)
    pub fn concat(&mut self, aw: u32, bw: u32, a: E, b: E) -> E {
        let w = aw + bw;
        if aw == 0 {
            return b;
        }
        if bw == 0 {
            return a;
        }
        match (a, b) {
            (E::C(x), E::C(y)) => return E::C((x << bw) | y),
            (E::C(0), _) => return self.zext(bw, w, b),
            _ => {}
        }
        if let (Some(n1), Some(n2)) = (self.node(a), self.node(b)) {
            if n1.op == Op::Extract && n2.op == Op::Extract && n1.a == n2.a && n1.x == n2.x + bw {
                return self.extract(n1.aw as u32, n2.x, w, E::S(n1.a));
            }
        }
        // low part extract(x,0..), high part extract where b is the whole low of x
        if let (Some(n1), E::S(bi)) = (self.node(a), b) {
            if n1.op == Op::ZExt {
                // concat(zext(x), y) = zext(concat(x,y))
                let xw = n1.aw as u32;
                let t = self.concat(xw, bw, E::S(n1.a), E::S(bi));
                return self.zext(xw + bw, w, t);
            }
            if n1.op == Op::Concat {
                // concat(concat(p,q),b) with q,b mergeable
                let qw = (n1.w - n1.aw) as u32;
                let q = self.e(n1.b);
                if let (Some(nq), Some(nb)) = (self.node(q), self.node(b)) {
                    if nq.op == Op::Extract && nb.op == Op::Extract && nq.a == nb.a && nq.x == nb.x + bw {
                        let m = self.extract(nq.aw as u32, nb.x, qw + bw, E::S(nq.a));
                        let p = self.e(n1.a);
                        return self.concat(n1.aw as u32, qw + bw, p, m);
                    }
                }
            }
        }
        if let (E::C(0), Some(n1)) = (b, self.node(a)) {
            if n1.op == Op::ZExt {
                let xw = n1.aw as u32;
                let t = self.concat(xw, bw, E::S(n1.a), b);
                return self.zext(xw + bw, w, t);
            }
            if n1.op == Op::Ite {
                if let (E::C(x), E::C(y)) = (self.e(n1.b), self.e(n1.c)) {
                    return self.ite(w, E::S(n1.a), E::C(x << bw), E::C(y << bw));
                }
            }
        }
        let ia = self.id(a, aw);
        let ib = self.id(b, bw);
        self.mk(Op::Concat, w, aw, 0, ia, ib, NONE)
    }

    /// Evaluate under an assignment of the variables (by index; missing = 0).
    pub fn eval(&self, root: u32, model: &[u64], memo: &mut FxMap<u32, u128>) -> u128 {
        if let Some(&v) = memo.get(&root) {
            return v;
        }
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            if memo.contains_key(&i) {
                stack.pop();
                continue;
            }
            let n = self.nodes[i as usize];
            let mut ready = true;
            if n.op == Op::Ite {
                match memo.get(&n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(&c) => {
                        let t = if c & 1 == 1 { n.b } else { n.c };
                        match memo.get(&t) {
                            None => {
                                stack.push(t);
                                continue;
                            }
                            Some(&v) => {
                                memo.insert(i, v);
                                stack.pop();
                                continue;
                            }
                        }
                    }
                }
            }
            for c in [n.a, n.b, n.c] {
                if c != NONE && !memo.contains_key(&c) {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |j: u32| memo[&j];
            let w = n.w as u32;
            let v = match n.op {
                Op::Const => self.consts[n.x as usize],
                Op::Var => trunc(model.get(n.x as usize).copied().unwrap_or(0) as u128, w),
                Op::ZExt => g(n.a),
                Op::SExt => trunc(sext(g(n.a), n.aw as u32) as u128, w),
                Op::Extract => trunc(g(n.a) >> n.x, w),
                Op::Concat => (g(n.a) << (w - n.aw as u32)) | g(n.b),
                Op::Ite => unreachable!(),
                op => fold(op, n.aw as u32, g(n.a), g(n.b)),
            };
            memo.insert(i, v);
            stack.pop();
        }
        memo[&root]
    }

    /// Change `m` so that the bits `bits` of node `id` may become those of
    /// `want` (a heuristic; nothing is promised).
    pub fn aim(&self, id: u32, bits: u128, want: u128, m: &mut Vec<u64>, memo: &mut FxMap<u32, u128>, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.nodes[id as usize];
        let w = n.w as u32;
        let want = want & bits;
        let cur = self.eval(id, m, memo);
        if cur & bits == want {
            return true;
        }
        let full = (cur & !bits) | want;
        match n.op {
            Op::Const => false,
            Op::Var => match m.get_mut(n.x as usize) {
                Some(v) => {
                    *v = full as u64;
                    memo.clear();
                    true
                }
                None => false,
            },
            Op::ZExt | Op::SExt => self.aim(n.a, bits & mask(n.aw as u32), want & mask(n.aw as u32), m, memo, budget),
            Op::Extract => self.aim(n.a, bits << n.x, want << n.x, m, memo, budget),
            Op::Concat => {
                let bw = w - n.aw as u32;
                let low = mask(bw);
                self.aim(n.b, bits & low, want & low, m, memo, budget) && self.aim(n.a, bits >> bw, want >> bw, m, memo, budget)
            }
            Op::Ite => {
                let c = self.eval(n.a, m, memo) & 1 == 1;
                let (t, e) = if c { (n.b, n.c) } else { (n.c, n.b) };
                if self.eval(e, m, memo) & bits == want {
                    return self.aim(n.a, 1, !c as u128, m, memo, budget);
                }
                self.aim(t, bits, want, m, memo, budget) || (self.aim(e, bits, want, m, memo, budget) && self.aim(n.a, 1, !c as u128, m, memo, budget))
            }
            Op::And | Op::Or => {
                // the bits that have to change
                let up = if n.op == Op::And { want } else { bits & !want };
                let v = if n.op == Op::And { want } else { 0 };
                // bits where both operands have to have the value
                if !(self.aim(n.a, up, v, m, memo, budget) && self.aim(n.b, up, v, m, memo, budget)) {
                    return false;
                }
                let rest = bits & !up;
                let (p, q) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                let bad = (if n.op == Op::And { (p & q) ^ want } else { (p | q) ^ want }) & rest;
                bad == 0 || self.aim(n.a, bad, want, m, memo, budget) || self.aim(n.b, bad, want, m, memo, budget)
            }
            Op::Xor => {
                let (p, q) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                self.aim(n.a, bits, want ^ (q & bits), m, memo, budget) || self.aim(n.b, bits, want ^ (p & bits), m, memo, budget)
            }
            Op::Add | Op::Sub => {
                let (p, q) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                let all = mask(w);
                let (a, b) = if n.op == Op::Add {
                    (full.wrapping_sub(q), full.wrapping_sub(p))
                } else {
                    (full.wrapping_add(q), p.wrapping_sub(full))
                };
                self.aim(n.a, all, trunc(a, w), m, memo, budget) || self.aim(n.b, all, trunc(b, w), m, memo, budget)
            }
            Op::Eq => {
                let all = mask(n.aw as u32);
                let (p, q) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                if want == 1 {
                    self.aim(n.a, all, q, m, memo, budget) || self.aim(n.b, all, p, m, memo, budget)
                } else {
                    self.aim(n.a, 1, !p & 1, m, memo, budget) || self.aim(n.b, 1, !q & 1, m, memo, budget)
                }
            }
            Op::Ult => {
                let all = mask(n.aw as u32);
                let (p, q) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                if want == 1 {
                    (q > 0 && self.aim(n.a, all, q - 1, m, memo, budget)) || (p < all && self.aim(n.b, all, p + 1, m, memo, budget))
                } else {
                    self.aim(n.a, all, q, m, memo, budget) || self.aim(n.b, all, p, m, memo, budget)
                }
            }
            _ => false,
        }
    }
}
