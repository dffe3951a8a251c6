//! Program = set of modules; symbol resolution, global objects, function decoding.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const GLOB_BASE: u64 = 0x1_0000_0000;
pub const FN_BASE: u64 = 0x1000_0000;

pub struct GObj {
    pub base: u64,
    pub size: u64,
    pub module: usize,
    pub name: String,
    pub bytes: Option<Rc<Vec<u8>>>,
    pub readonly: bool,
    pub external: bool,
}

pub struct Prog {
    pub mods: Vec<&'static Module>,
    decoded: HashMap<(usize, String), Result<&'static Func, String>>,
    gaddr: HashMap<(usize, String), u64>,
    pub gobjs: Vec<GObj>,
    next_g: u64,
    pub fns: Vec<(usize, String)>,
    pub nfuncs: u32,
    /// modules from this one on are std's
    pub std_from: usize,
    ext_index: HashMap<&'static str, usize>,
    ext_aliases: HashMap<&'static str, usize>,
    ext_gindex: HashMap<&'static str, usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
    Func(usize, String),
    Glob(usize, String),
    Extern(String),
}

struct D<'a> {
    p: P<'a>,
    prog: &'a mut Prog,
    mi: usize,
    regs: HashMap<&'static str, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
}

impl Prog {
    pub fn new(texts: Vec<String>) -> Prog {
        let mods: Vec<&'static Module> = texts.into_iter().map(|t| &*Box::leak(Box::new(parse_module(t)))).collect();
        let mut ext_index = HashMap::new();
        let mut ext_gindex = HashMap::new();
        let mut ext_aliases = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, f) in &m.funcs {
                if !f.internal {
                    ext_index.entry(*n).or_insert(i);
                }
            }
            for n in m.aliases.keys() {
                ext_aliases.entry(*n).or_insert(i);
            }
            for (n, g) in &m.globs {
                if !g.internal && !g.text.trim_start().starts_with("external") {
                    ext_gindex.entry(*n).or_insert(i);
                }
            }
        }
        Prog {
            mods,
            decoded: HashMap::new(),
            gaddr: HashMap::new(),
            gobjs: vec![],
            next_g: GLOB_BASE,
            fns: vec![],
            nfuncs: 0,
            std_from: usize::MAX,
            ext_index,
            ext_aliases,
            ext_gindex,
        }
    }
    pub fn resolve(&self, mi: usize, name: &str) -> Sym {
        let m = self.mods[mi];
        if let Some(t) = m.aliases.get(name) {
            return self.resolve(mi, t);
        }
        if m.funcs.contains_key(name) {
            return Sym::Func(mi, name.to_string());
        }
        if let Some(g) = m.globs.get(name) {
            if !g.text.trim_start().starts_with("external") {
                return Sym::Glob(mi, name.to_string());
            }
        }
        if let Some(&i) = self.ext_index.get(name) {
            return Sym::Func(i, name.to_string());
        }
        if let Some(&i) = self.ext_gindex.get(name) {
            return Sym::Glob(i, name.to_string());
        }
        if let Some(&i) = self.ext_aliases.get(name) {
            return self.resolve(i, name);
        }
        if m.globs.contains_key(name) {
            return Sym::Glob(mi, name.to_string());
        }
        Sym::Extern(name.to_string())
    }
    pub fn addr_of(&mut self, mi: usize, name: &str) -> R<u64> {
        match self.resolve(mi, name) {
            Sym::Func(i, n) => Ok(self.fn_addr(i, n)),
            Sym::Extern(n) => Ok(self.fn_addr(usize::MAX, n)),
            Sym::Glob(i, n) => {
                if let Some(a) = self.gaddr.get(&(i, n.clone())) {
                    return Ok(*a);
                }
                let m = self.mods[i];
                let toks = lex(m.globs[n.as_str()].text);
                let mut p = P { t: &toks, i: 0, m };
                let mut readonly = false;
                let mut external = false;
                while !p.eatw("global") {
                    if p.eatw("constant") {
                        readonly = true;
                        break;
                    }
                    if p.word() == "external" {
                        external = true;
                    }
                    p.next()?;
                }
                let ty = p.ty()?;
                let size = ty.size();
                let base = self.next_g;
                self.next_g += (size + 0xfff) / 0x1000 * 0x1000 + 0x10000;
                self.gaddr.insert((i, n.clone()), base);
                self.gobjs.push(GObj { base, size, module: i, name: n, bytes: None, readonly, external });
                Ok(base)
            }
        }
    }
    fn fn_addr(&mut self, mi: usize, n: String) -> u64 {
        let key = (mi, n.clone());
        if let Some(a) = self.gaddr.get(&key) {
            return *a;
        }
        let a = FN_BASE + 16 * self.fns.len() as u64;
        self.fns.push(key.clone());
        self.gaddr.insert(key, a);
        a
    }
    pub fn fn_at(&self, a: u64) -> Option<(usize, String)> {
        if a < FN_BASE || (a - FN_BASE) % 16 != 0 {
            return None;
        }
        self.fns.get(((a - FN_BASE) / 16) as usize).cloned()
    }
    /// index of the global object containing `a`
    pub fn gobj_at(&self, a: u64) -> Option<usize> {
        if a < GLOB_BASE || a >= self.next_g {
            return None;
        }
        let k = self.gobjs.partition_point(|g| g.base <= a);
        if k == 0 {
            return None;
        }
        let g = &self.gobjs[k - 1];
        if a < g.base + g.size.max(1) {
            Some(k - 1)
        } else {
            None
        }
    }
    pub fn gbytes(&mut self, k: usize) -> R<Rc<Vec<u8>>> {
        if let Some(b) = &self.gobjs[k].bytes {
            return Ok(b.clone());
        }
        let (mi, name, size, external) = {
            let g = &self.gobjs[k];
            (g.module, g.name.clone(), g.size, g.external)
        };
        let mut bytes = vec![0u8; size as usize];
        if !external {
            let m = self.mods[mi];
            let toks = lex(m.globs[name.as_str()].text);
            let mut p = P { t: &toks, i: 0, m };
            loop {
                if p.eatw("global") || p.eatw("constant") {
                    break;
                }
                p.next()?;
            }
            let ty = p.ty()?;
            let start = p.i;
            let mut d = D { p: P { t: &toks, i: start, m }, prog: self, mi, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
            let v = d.cval(ty)?;
            write_const(ty, &v, &mut bytes, 0);
        }
        let rc = Rc::new(bytes);
        self.gobjs[k].bytes = Some(rc.clone());
        Ok(rc)
    }
    pub fn func(&mut self, mi: usize, name: &str) -> Result<&'static Func, String> {
        let key = (mi, name.to_string());
        if let Some(f) = self.decoded.get(&key) {
            return f.clone();
        }
        let r = self.decode(mi, name).map_err(|e| format!("decode {name}: {e}"));
        self.decoded.insert(key, r.clone());
        r
    }
    pub fn decoded_names(&self) -> Vec<String> {
        self.decoded.iter().filter(|(_, v)| v.is_ok()).map(|(k, _)| k.1.clone()).collect()
    }

    fn decode(&mut self, mi: usize, name: &str) -> R<&'static Func> {
        let m = self.mods[mi];
        let (key, src) = m.funcs.get_key_value(name).ok_or("no such function")?;
        let _ = key;
        let htoks: &'static Vec<Tok<'static>> = Box::leak(Box::new(lex(src.header)));
        // logical lines
        let mut lines: Vec<(bool, Vec<Tok<'static>>)> = vec![];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nblocks = 0u32;
        {
            let mut acc: Option<(usize, usize)> = None; // byte span in body
            let body: &'static str = src.body;
            let mut pos = 0;
            let mut depth = 0i32;
            while pos < body.len() {
                let e = body[pos..].find('\n').map(|x| pos + x).unwrap_or(body.len());
                let line = &body[pos..e];
                let lpos = pos;
                pos = e + 1;
                if line.trim().is_empty() {
                    continue;
                }
                let tr = line.trim_start();
                if tr.starts_with(';') || tr.starts_with("#dbg") {
                    continue;
                }
                if depth == 0 && !line.starts_with(' ') {
                    // label
                    let l = if line.starts_with('"') {
                        let q = line[1..].find('"').ok_or("label")?;
                        &line[1..1 + q]
                    } else {
                        &line[..line.find(':').ok_or("label")?]
                    };
                    labels.insert(l.to_string(), nblocks);
                    nblocks += 1;
                    lines.push((true, vec![]));
                    continue;
                }
                if nblocks == 0 {
                    // unnamed entry block
                    labels.insert("<entry>".into(), 0);
                    nblocks = 1;
                    lines.push((true, vec![]));
                }
                // bracket depth: only '[' of switch spans lines
                let t = lex(line);
                for x in &t {
                    match x {
                        Tok::P('[') => depth += 1,
                        Tok::P(']') => depth -= 1,
                        _ => {}
                    }
                }
                let st = acc.map(|a| a.0).unwrap_or(lpos);
                if depth > 0 {
                    acc = Some((st, e));
                } else {
                    acc = None;
                    depth = 0;
                    lines.push((false, lex(&body[st..e])));
                }
            }
        }
        let lines: &'static Vec<(bool, Vec<Tok<'static>>)> = Box::leak(Box::new(lines));
        let id = self.nfuncs;
        self.nfuncs += 1;
        let mut d = D { p: P { t: htoks, i: 0, m }, prog: self, mi, regs: HashMap::new(), nregs: 0, labels };
        // header: ... @name(params)
        while !matches!(d.p.peek(), Some(Tok::Global(_))) {
            d.p.next()?;
        }
        d.p.next()?;
        d.p.expect('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !d.p.eat(')') {
            loop {
                if d.p.is('.') || d.p.word().starts_with('.') {
                    return Err("varargs".into());
                }
                let t = d.p.ty()?;
                d.p.skip_attrs()?;
                let r = match d.p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = *n;
                        d.p.i += 1;
                        d.reg(n)
                    }
                    _ => {
                        let n: &'static str = Box::leak(format!("{unnamed}").into_boxed_str());
                        d.reg(n)
                    }
                };
                unnamed += 1;
                params.push((t, r));
                if d.p.eat(')') {
                    break;
                }
                d.p.expect(',')?;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        for (is_label, toks) in lines {
            if *is_label {
                blocks.push(Block { phis: vec![], ins: vec![] });
                continue;
            }
            d.p = P { t: toks, i: 0, m };
            let b = blocks.last_mut().unwrap();
            match d.instr(b) {
                Ok(()) => {}
                Err(e) => b.ins.push(Ins::Unsup(format!("{e}: {:?}", toks.iter().take(12).collect::<Vec<_>>()))),
            }
        }
        let nregs = d.nregs;
        Ok(Box::leak(Box::new(Func { name: name.to_string(), params, blocks, nregs, id })))
    }
}

pub fn write_const(ty: TyRef, v: &Val, out: &mut [u8], off: usize) {
    match v {
        Val::Agg(vs) => {
            for (i, x) in vs.iter().enumerate() {
                write_const(ty.elem(i), x, out, off + ty.field_off(i) as usize);
            }
        }
        Val::I(E::C(c)) => {
            let n = ty.store_size() as usize;
            for k in 0..n {
                out[off + k] = if k < 16 { (c >> (8 * k)) as u8 } else { 0 };
            }
        }
        _ => panic!("symbolic initializer"),
    }
}

fn binop(w: &str) -> Option<&'static str> {
    Some(match w {
        "add" => "add",
        "sub" => "sub",
        "mul" => "mul",
        "udiv" => "udiv",
        "sdiv" => "sdiv",
        "urem" => "urem",
        "srem" => "srem",
        "and" => "and",
        "or" => "or",
        "xor" => "xor",
        "shl" => "shl",
        "lshr" => "lshr",
        "ashr" => "ashr",
        _ => return None,
    })
}

impl<'a> D<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k: &'static str = Box::leak(n.to_string().into_boxed_str());
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(k, r);
        r
    }
    fn label(&mut self) -> R<u32> {
        if !self.p.eatw("label") {
            return Err("label expected".into());
        }
        self.label_name()
    }
    fn label_name(&mut self) -> R<u32> {
        match self.p.next()? {
            Tok::Local(n) => self.labels.get(*n).copied().ok_or(()).or_else(|_| {
                // reference to unnamed entry block
                self.labels.get("<entry>").copied().ok_or_else(|| format!("label %{n}"))
            }),
            t => Err(format!("label, got {t:?}")),
        }
    }
    /// constant of type `ty`
    fn cval(&mut self, ty: TyRef) -> R<Val> {
        let w = ty.bits();
        let t = self.p.next()?.clone();
        Ok(match t {
            Tok::Int(i) => Val::I(E::C(trunc(i as u128, w))),
            Tok::Word("true") => Val::I(E::C(1)),
            Tok::Word("false") => Val::I(E::C(0)),
            Tok::Word("null") => Val::I(E::C(0)),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") | Tok::Word("none") => zero(ty),
            Tok::Word("splat") => {
                self.p.expect('(')?;
                let et = self.p.ty()?;
                let v = self.cval(et)?;
                self.p.expect(')')?;
                Val::Agg(Rc::new(vec![v; ty.n_elems()]))
            }
            Tok::CStr(b) => Val::Agg(Rc::new(b.iter().map(|c| Val::I(E::C(*c as u128))).collect())),
            Tok::Global(n) => Val::I(E::C(self.prog.addr_of(self.mi, n)? as u128)),
            Tok::P('{') => self.agg('}')?,
            Tok::P('[') => self.agg(']')?,
            Tok::P('<') => {
                if self.p.eat('{') {
                    let a = self.agg('}')?;
                    self.p.expect('>')?;
                    a
                } else {
                    self.agg('>')?
                }
            }
            Tok::Word("getelementptr") => {
                while !self.p.is('(') {
                    self.p.next()?;
                }
                self.p.expect('(')?;
                let st = self.p.ty()?;
                self.p.expect(',')?;
                let pt = self.p.ty()?;
                let base = self.cval(pt)?.e();
                let mut idx = vec![];
                while self.p.eat(',') {
                    if self.p.eatw("inrange") {
                        self.p.skip_parens()?;
                    }
                    let it = self.p.ty()?;
                    let v = self.cval(it)?;
                    idx.push((it, Opnd::K(v)));
                }
                self.p.expect(')')?;
                let (off, rest) = gep_off(st, &idx)?;
                if !rest.is_empty() {
                    return Err("const gep".into());
                }
                match base {
                    E::C(b) => Val::I(E::C((b as u64).wrapping_add(off as u64) as u128)),
                    _ => return Err("const gep base".into()),
                }
            }
            Tok::Word(op @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr")) => {
                let _ = op;
                self.p.expect('(')?;
                let ft = self.p.ty()?;
                let v = self.cval(ft)?.e();
                if !self.p.eatw("to") {
                    return Err("to".into());
                }
                let tt = self.p.ty()?;
                self.p.expect(')')?;
                match v {
                    E::C(c) => Val::I(E::C(trunc(c, tt.bits()))),
                    _ => return Err("const cast".into()),
                }
            }
            Tok::Word(op @ ("add" | "sub" | "xor" | "mul")) => {
                while !self.p.is('(') {
                    self.p.next()?;
                }
                self.p.expect('(')?;
                let t1 = self.p.ty()?;
                let a = self.cval(t1)?.e();
                self.p.expect(',')?;
                let t2 = self.p.ty()?;
                let b = self.cval(t2)?.e();
                self.p.expect(')')?;
                match (a, b) {
                    (E::C(a), E::C(b)) => {
                        let o = match op {
                            "add" => Op::Add,
                            "sub" => Op::Sub,
                            "mul" => Op::Mul,
                            _ => Op::Xor,
                        };
                        Val::I(E::C(fold(o, w, a, b)))
                    }
                    _ => return Err("const op".into()),
                }
            }
            t => return Err(format!("constant {t:?}")),
        })
    }
    fn agg(&mut self, end: char) -> R<Val> {
        let mut v = vec![];
        if self.p.eat(end) {
            return Ok(Val::Agg(Rc::new(v)));
        }
        loop {
            let t = self.p.ty()?;
            v.push(self.cval(t)?);
            if self.p.eat(end) {
                break;
            }
            self.p.expect(',')?;
        }
        Ok(Val::Agg(Rc::new(v)))
    }
    fn val(&mut self, ty: TyRef) -> R<Opnd> {
        if let Some(Tok::Local(n)) = self.p.peek() {
            let n = *n;
            self.p.i += 1;
            return Ok(Opnd::Reg(self.reg(n)));
        }
        Ok(Opnd::K(self.cval(ty)?))
    }
    fn tval(&mut self) -> R<(TyRef, Opnd)> {
        let t = self.p.ty()?;
        self.p.skip_attrs()?;
        let v = self.val(t)?;
        Ok((t, v))
    }
    fn align_suffix(&mut self) -> u64 {
        let mut a = 1;
        while self.p.eat(',') {
            if self.p.eatw("align") {
                if let Ok(n) = self.p.int() {
                    a = n as u64;
                }
            } else {
                break;
            }
        }
        a
    }

    fn instr(&mut self, b: &mut Block) -> R<()> {
        let mut d = NONE;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.p.t.get(0), self.p.t.get(1)) {
            let n = *n;
            d = self.reg(n);
            self.p.i = 2;
        }
        let mut op = match self.p.next()? {
            Tok::Word(w) => *w,
            t => return Err(format!("opcode {t:?}")),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match self.p.next()? {
                Tok::Word(w) => *w,
                t => return Err(format!("opcode {t:?}")),
            };
        }
        if let Some(o) = binop(op) {
            while matches!(self.p.word(), "nuw" | "nsw" | "exact" | "disjoint") {
                self.p.i += 1;
            }
            let ty = self.p.ty()?;
            let a = self.val(ty)?;
            self.p.expect(',')?;
            let bb = self.val(ty)?;
            b.ins.push(Ins::Bin { op: o, ty, a, b: bb, d });
            return Ok(());
        }
        match op {
            "icmp" => {
                if self.p.word() == "samesign" {
                    self.p.i += 1;
                }
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    w => return Err(format!("icmp {w}")),
                };
                self.p.i += 1;
                let ty = self.p.ty()?;
                let a = self.val(ty)?;
                self.p.expect(',')?;
                let bb = self.val(ty)?;
                b.ins.push(Ins::ICmp { p, ty, a, b: bb, d });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast,
                    _ => Cast::PtrToInt,
                };
                while matches!(self.p.word(), "nuw" | "nsw" | "nneg") {
                    self.p.i += 1;
                }
                let from = self.p.ty()?;
                let a = self.val(from)?;
                if !self.p.eatw("to") {
                    return Err("cast to".into());
                }
                let to = self.p.ty()?;
                b.ins.push(Ins::Cast { k, from, to, a, d });
            }
            "select" => {
                let (cty, c) = self.tval()?;
                self.p.expect(',')?;
                let (ty, a) = self.tval()?;
                self.p.expect(',')?;
                let (_, bb) = self.tval()?;
                b.ins.push(Ins::Select { cty, ty, c, a, b: bb, d });
            }
            "load" => {
                let mut atomic = false;
                while matches!(self.p.word(), "volatile" | "atomic") {
                    atomic = true;
                    self.p.i += 1;
                }
                let ty = self.p.ty()?;
                self.p.expect(',')?;
                let (_, p) = self.tval()?;
                if atomic {
                    while matches!(self.p.peek(), Some(Tok::Word(_))) {
                        self.p.i += 1;
                    }
                }
                let align = self.align_suffix();
                b.ins.push(Ins::Load { ty, p, align, d });
            }
            "store" => {
                let mut atomic = false;
                while matches!(self.p.word(), "volatile" | "atomic") {
                    atomic = true;
                    self.p.i += 1;
                }
                let (ty, v) = self.tval()?;
                self.p.expect(',')?;
                let (_, p) = self.tval()?;
                if atomic {
                    while matches!(self.p.peek(), Some(Tok::Word(_))) {
                        self.p.i += 1;
                    }
                }
                let align = self.align_suffix();
                b.ins.push(Ins::Store { ty, v, p, align });
            }
            "getelementptr" => {
                while matches!(self.p.word(), "inbounds" | "nuw" | "nusw") {
                    self.p.i += 1;
                }
                let st = self.p.ty()?;
                self.p.expect(',')?;
                let (bt, p) = self.tval()?;
                if matches!(bt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let mut idx = vec![];
                while self.p.eat(',') {
                    if matches!(self.p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (t, v) = self.tval()?;
                    idx.push((t, v));
                }
                let (off, idx) = gep_off(st, &idx)?;
                b.ins.push(Ins::Gep { p, off, idx, d });
            }
            "alloca" => {
                self.p.eatw("inalloca");
                let ty = self.p.ty()?;
                let mut n = Opnd::K(Val::I(E::C(1)));
                let mut nw = 64;
                let mut align = ty.align();
                while self.p.eat(',') {
                    if self.p.eatw("align") {
                        align = self.p.int()? as u64;
                    } else if matches!(self.p.peek(), Some(Tok::Meta(_))) {
                        break;
                    } else {
                        let (t, v) = self.tval()?;
                        n = v;
                        nw = t.bits();
                    }
                }
                b.ins.push(Ins::Alloca { ty, n, nw, align, d });
            }
            "phi" => {
                while !self.p.at_type() {
                    self.p.i += 1;
                    if self.p.i > self.p.t.len() {
                        return Err("phi".into());
                    }
                }
                let ty = self.p.ty()?;
                let mut inc = vec![];
                loop {
                    self.p.expect('[')?;
                    let v = self.val(ty)?;
                    self.p.expect(',')?;
                    let l = self.label_name()?;
                    self.p.expect(']')?;
                    inc.push((l, v));
                    if !self.p.eat(',') {
                        break;
                    }
                    if matches!(self.p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                }
                b.phis.push(Phi { d, ty, inc });
            }
            "br" => {
                if self.p.word() == "label" {
                    let l = self.label()?;
                    b.ins.push(Ins::Br(l));
                } else {
                    let (_, c) = self.tval()?;
                    self.p.expect(',')?;
                    let l1 = self.label()?;
                    self.p.expect(',')?;
                    let l2 = self.label()?;
                    b.ins.push(Ins::CondBr(c, l1, l2));
                }
            }
            "switch" => {
                let (ty, v) = self.tval()?;
                self.p.expect(',')?;
                let def = self.label()?;
                self.p.expect('[')?;
                let mut cases = vec![];
                while !self.p.eat(']') {
                    let t = self.p.ty()?;
                    let c = match self.cval(t)? {
                        Val::I(E::C(c)) => c,
                        _ => return Err("switch case".into()),
                    };
                    self.p.expect(',')?;
                    let l = self.label()?;
                    cases.push((c, l));
                }
                b.ins.push(Ins::Switch { ty, v, def, cases });
            }
            "ret" => {
                if self.p.eatw("void") {
                    b.ins.push(Ins::Ret(None));
                } else {
                    let (_, v) = self.tval()?;
                    b.ins.push(Ins::Ret(Some(v)));
                }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "fence" => b.ins.push(Ins::Nop),
            "freeze" => {
                let (_, a) = self.tval()?;
                b.ins.push(Ins::Freeze { a, d });
            }
            "extractvalue" => {
                let (_, a) = self.tval()?;
                let mut path = vec![];
                while self.p.eat(',') {
                    match self.p.peek() {
                        Some(Tok::Int(_)) => path.push(self.p.int()? as u32),
                        _ => break,
                    }
                }
                b.ins.push(Ins::Extract { a, path, d });
            }
            "insertvalue" => {
                let (_, a) = self.tval()?;
                self.p.expect(',')?;
                let (_, v) = self.tval()?;
                let mut path = vec![];
                while self.p.eat(',') {
                    match self.p.peek() {
                        Some(Tok::Int(_)) => path.push(self.p.int()? as u32),
                        _ => break,
                    }
                }
                b.ins.push(Ins::Insert { a, v, path, d });
            }
            "extractelement" => {
                let (ty, a) = self.tval()?;
                self.p.expect(',')?;
                let (it, i) = self.tval()?;
                b.ins.push(Ins::ExtractElem { ty, a, i, iw: it.bits(), d });
            }
            "insertelement" => {
                let (ty, a) = self.tval()?;
                self.p.expect(',')?;
                let (_, v) = self.tval()?;
                self.p.expect(',')?;
                let (it, i) = self.tval()?;
                b.ins.push(Ins::InsertElem { ty, a, v, i, iw: it.bits(), d });
            }
            "shufflevector" => {
                let (ty, a) = self.tval()?;
                self.p.expect(',')?;
                let (_, bb) = self.tval()?;
                self.p.expect(',')?;
                let mt = self.p.ty()?;
                let mask = match self.cval(mt)? {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(E::C(c)) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                b.ins.push(Ins::Shuffle { a, b: bb, n: ty.n_elems(), mask, d });
            }
            "atomicrmw" => {
                while matches!(self.p.word(), "volatile") {
                    self.p.i += 1;
                }
                let o = self.p.word().to_string();
                self.p.i += 1;
                let (_, p) = self.tval()?;
                self.p.expect(',')?;
                let (ty, v) = self.tval()?;
                b.ins.push(Ins::AtomicRmw { op: o, ty, p, v, d });
            }
            "cmpxchg" => {
                while matches!(self.p.word(), "volatile" | "weak") {
                    self.p.i += 1;
                }
                let (_, p) = self.tval()?;
                self.p.expect(',')?;
                let (ty, c) = self.tval()?;
                self.p.expect(',')?;
                let (_, n) = self.tval()?;
                b.ins.push(Ins::CmpXchg { ty, p, c, n, d });
            }
            "call" | "invoke" => {
                self.p.skip_attrs()?;
                let ret = self.p.ty()?;
                // optional function type "(...)" before callee for varargs
                if self.p.is('(') {
                    self.p.skip_parens()?;
                }
                let callee = match self.p.next()? {
                    Tok::Global(n) => Callee::Name(self.mi, n.to_string()),
                    Tok::Local(n) => Callee::Ind(Opnd::Reg(self.reg(n))),
                    t => return Err(format!("callee {t:?}")),
                };
                self.p.expect('(')?;
                let mut args = vec![];
                if !self.p.eat(')') {
                    loop {
                        if self.p.word() == "metadata" {
                            // metadata argument: skip
                            let mut depth = 0;
                            loop {
                                match self.p.peek() {
                                    Some(Tok::P('(')) => depth += 1,
                                    Some(Tok::P(')')) if depth == 0 => break,
                                    Some(Tok::P(')')) => depth -= 1,
                                    Some(Tok::P(',')) if depth == 0 => break,
                                    None => return Err("metadata".into()),
                                    _ => {}
                                }
                                self.p.i += 1;
                            }
                        } else {
                            let t = self.p.ty()?;
                            self.p.skip_attrs()?;
                            let v = self.val(t)?;
                            args.push((t, v));
                        }
                        if self.p.eat(')') {
                            break;
                        }
                        self.p.expect(',')?;
                    }
                }
                let mut noreturn = false;
                let mut normal = None;
                while self.p.i < self.p.t.len() {
                    match self.p.next()? {
                        Tok::Attr(g) => noreturn |= self.p.m.attr_has(g, "noreturn"),
                        Tok::Word("noreturn") => noreturn = true,
                        Tok::Word("to") => {
                            normal = Some(self.label()?);
                            break;
                        }
                        _ => {}
                    }
                }
                if let Callee::Name(_, n) = &callee {
                    noreturn |= self.p.m.decl_attr(n, "noreturn");
                }
                b.ins.push(Ins::Call { callee, cache: Default::default(), args, ret, d, noreturn, normal });
            }
            _ => return Err(format!("opcode {op}")),
        }
        Ok(())
    }
}

/// constant part and variable (scale, operand, width) parts of a GEP
fn gep_off(st: TyRef, idx: &[(TyRef, Opnd)]) -> R<(i64, Vec<(i64, Opnd, u32)>)> {
    let mut off = 0i64;
    let mut rest = vec![];
    let mut cur = st;
    for (k, (t, v)) in idx.iter().enumerate() {
        let w = t.bits();
        let konst = match v {
            Opnd::K(Val::I(E::C(c))) => Some(sext(*c, w) as i64),
            Opnd::K(_) => return Err("gep index".into()),
            Opnd::Reg(_) => None,
        };
        let scale;
        if k == 0 {
            scale = cur.size() as i64;
        } else {
            match cur {
                Ty::Struct(..) => {
                    let c = konst.ok_or("struct index")? as usize;
                    off += cur.field_off(c) as i64;
                    cur = cur.elem(c);
                    continue;
                }
                Ty::Arr(_, e) => {
                    scale = e.size() as i64;
                    cur = e;
                }
                Ty::Vec(_, e) => {
                    scale = e.store_size() as i64;
                    cur = e;
                }
                _ => return Err("gep into scalar".into()),
            }
        }
        match konst {
            Some(c) => off = off.wrapping_add(c.wrapping_mul(scale)),
            None => rest.push((scale, v.clone(), w)),
        }
    }
    Ok((off, rest))
}
