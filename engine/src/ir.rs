//! Textual LLVM IR: types, lexer, module index, lazy function decoding.
use crate::expr::E;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, PartialEq, Clone)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u32, TyRef),
    Arr(u64, TyRef),
    Struct(Vec<TyRef>, bool),
    Other,
}
pub type TyRef = &'static Ty;

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

fn al(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store of this type
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = al(o, t.align());
                    }
                    o += t.size();
                }
                al(o, self.align())
            }
            _ => 0,
        }
    }
    /// allocation size (with tail padding)
    pub fn size(&self) -> u64 {
        al(self.store_size(), self.align())
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = al(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index");
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.store_size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> TyRef {
        match self {
            Ty::Struct(f, _) => f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(E),
    Agg(Rc<Vec<Val>>),
}
impl Val {
    pub fn e(&self) -> E {
        match self {
            Val::I(e) => *e,
            _ => panic!("scalar expected"),
        }
    }
}

pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => Val::Agg(Rc::new((0..t.n_elems()).map(|i| zero(t.elem(i))).collect())),
        _ => Val::I(E::C(0)),
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Debug, Clone, Copy)]
pub enum Target {
    Unresolved,
    Func(&'static Func),
    Ext(K, &'static str),
}
impl Default for Target {
    fn default() -> Target {
        Target::Unresolved
    }
}
/// externals and intrinsics with built-in semantics
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    Nop,
    Assume,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Umin,
    Umax,
    Smin,
    Smax,
    Ucmp,
    Scmp,
    Abs,
    Arg0,
    LoadRelative,
    PtrMask,
    IsConstant,
    ReduceMul,
    Trap,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    RandomKeys,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUmax,
    ReduceUmin,
    ReduceSmax,
    ReduceSmin,
    VsymU64,
    VsymAssume,
    VsymAssert,
    VsymCover,
    VsymCovers,
    VsymConcretize,
    VsymExpectPanic,
    VsymObserve,
    VsymMerge,
    Unknown,
}

pub fn classify(n: &str) -> K {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("lifetime") || p("experimental.noalias") || p("dbg.") || p("donothing") || p("invariant") || p("prefetch") || p("fake.use") {
            K::Nop
        } else if p("assume") {
            K::Assume
        } else if p("memcpy") || p("memmove") {
            K::Memcpy
        } else if p("memset") {
            K::Memset
        } else if p("ctlz") {
            K::Ctlz
        } else if p("cttz") {
            K::Cttz
        } else if p("ctpop") {
            K::Ctpop
        } else if p("bswap") {
            K::Bswap
        } else if p("bitreverse") {
            K::Bitreverse
        } else if p("fshl") {
            K::Fshl
        } else if p("fshr") {
            K::Fshr
        } else if p("uadd.with") {
            K::UaddO
        } else if p("usub.with") {
            K::UsubO
        } else if p("umul.with") {
            K::UmulO
        } else if p("sadd.with") {
            K::SaddO
        } else if p("ssub.with") {
            K::SsubO
        } else if p("smul.with") {
            K::SmulO
        } else if p("uadd.sat") {
            K::UaddSat
        } else if p("usub.sat") {
            K::UsubSat
        } else if p("sadd.sat") {
            K::SaddSat
        } else if p("ssub.sat") {
            K::SsubSat
        } else if p("umin") {
            K::Umin
        } else if p("umax") {
            K::Umax
        } else if p("smin") {
            K::Smin
        } else if p("smax") {
            K::Smax
        } else if p("ucmp") {
            K::Ucmp
        } else if p("scmp") {
            K::Scmp
        } else if p("abs") {
            K::Abs
        } else if p("expect") || p("threadlocal.address") || p("ssa.copy") || p("launder") || p("strip.inv") {
            K::Arg0
        } else if p("load.relative") {
            K::LoadRelative
        } else if p("ptrmask") {
            K::PtrMask
        } else if p("is.constant") {
            K::IsConstant
        } else if p("vector.reduce.mul") {
            K::ReduceMul
        } else if p("trap") {
            K::Trap
        } else if p("vector.reduce.add") {
            K::ReduceAdd
        } else if p("vector.reduce.or") {
            K::ReduceOr
        } else if p("vector.reduce.and") {
            K::ReduceAnd
        } else if p("vector.reduce.xor") {
            K::ReduceXor
        } else if p("vector.reduce.umax") {
            K::ReduceUmax
        } else if p("vector.reduce.umin") {
            K::ReduceUmin
        } else if p("vector.reduce.smax") {
            K::ReduceSmax
        } else if p("vector.reduce.smin") {
            K::ReduceSmin
        } else {
            K::Unknown
        };
    }
    match n {
        "memcpy" | "memmove" => return K::Memcpy,
        "memset" => return K::Memset,
        "memcmp" => return K::Memcmp,
        "bcmp" => return K::Bcmp,
        "strlen" => return K::Strlen,
        "vsym_u64" => return K::VsymU64,
        "vsym_assume" => return K::VsymAssume,
        "vsym_assert" => return K::VsymAssert,
        "vsym_cover" => return K::VsymCover,
        "vsym_covers" => return K::VsymCovers,
        "vsym_concretize" => return K::VsymConcretize,
        "vsym_expect_panic" => return K::VsymExpectPanic,
        "vsym_observe" => return K::VsymObserve,
        "vsym_merge" => return K::VsymMerge,
        _ => {}
    }
    if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
        K::Alloc
    } else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
        K::AllocZeroed
    } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
        K::Realloc
    } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
        K::Dealloc
    } else if n.contains("no_alloc_shim_is_unstable") {
        K::Nop
    } else if n.contains("hashmap_random_keys") {
        K::RandomKeys
    } else {
        K::Unknown
    }
}

#[derive(Debug)]
pub enum Callee {
    Name(usize, String), // module index, symbol
    Ind(Opnd),
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: &'static str, ty: TyRef, a: Opnd, b: Opnd, d: u32 },
    ICmp { p: Pred, ty: TyRef, a: Opnd, b: Opnd, d: u32 },
    Cast { k: Cast, from: TyRef, to: TyRef, a: Opnd, d: u32 },
    Select { cty: TyRef, ty: TyRef, c: Opnd, a: Opnd, b: Opnd, d: u32 },
    Load { ty: TyRef, p: Opnd, align: u64, d: u32 },
    Store { ty: TyRef, v: Opnd, p: Opnd, align: u64 },
    Gep { p: Opnd, off: i64, idx: Vec<(i64, Opnd, u32)>, d: u32 },
    Alloca { ty: TyRef, n: Opnd, nw: u32, align: u64, d: u32 },
    Call { callee: Callee, cache: std::cell::Cell<Target>, args: Vec<(TyRef, Opnd)>, ret: TyRef, d: u32, noreturn: bool, normal: Option<u32> },
    Extract { a: Opnd, path: Vec<u32>, d: u32 },
    Insert { a: Opnd, v: Opnd, path: Vec<u32>, d: u32 },
    ExtractElem { ty: TyRef, a: Opnd, i: Opnd, iw: u32, d: u32 },
    InsertElem { ty: TyRef, a: Opnd, v: Opnd, i: Opnd, iw: u32, d: u32 },
    Shuffle { a: Opnd, b: Opnd, n: usize, mask: Vec<i64>, d: u32 },
    Freeze { a: Opnd, d: u32 },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { ty: TyRef, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    AtomicRmw { op: String, ty: TyRef, p: Opnd, v: Opnd, d: u32 },
    CmpXchg { ty: TyRef, p: Opnd, c: Opnd, n: Opnd, d: u32 },
    Nop,
    Unsup(String),
}

#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: TyRef,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(TyRef, u32)>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub id: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    Int(i128),
    CStr(Vec<u8>),
    Str(&'a str),
    P(char),
}

pub fn unquote(s: &str) -> &str {
    if s.starts_with('"') {
        &s[1..s.len() - 1]
    } else {
        s
    }
}

fn ident_end(b: &[u8], mut i: usize) -> usize {
    if i < b.len() && b[i] == b'"' {
        i += 1;
        while b[i] != b'"' {
            i += 1;
        }
        return i + 1;
    }
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    i
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(24);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' => {
                let e = ident_end(b, i + 1);
                v.push(Tok::Local(unquote(&s[i + 1..e])));
                i = e;
            }
            b'@' => {
                let e = ident_end(b, i + 1);
                v.push(Tok::Global(unquote(&s[i + 1..e])));
                i = e;
            }
            b'!' => {
                let e = ident_end(b, i + 1);
                v.push(Tok::Meta(&s[i + 1..e]));
                i = e;
            }
            b'#' => {
                let e = ident_end(b, i + 1);
                v.push(Tok::Attr(&s[i + 1..e]));
                i = e;
            }
            b'"' => {
                let e = ident_end(b, i);
                v.push(Tok::Str(unquote(&s[i..e])));
                i = e;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut out = vec![];
                i += 2;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        let h = u8::from_str_radix(&s[i + 1..i + 3], 16);
                        match h {
                            Ok(x) => {
                                out.push(x);
                                i += 3;
                            }
                            Err(_) => {
                                out.push(b'\\');
                                i += 2;
                            }
                        }
                    } else {
                        out.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                v.push(Tok::CStr(out));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && matches!(b[i - 1], b'e' | b'E'))) {
                    i += 1;
                }
                let t = &s[st..i];
                if let Ok(x) = t.parse::<i128>() {
                    v.push(Tok::Int(x));
                } else if let Ok(x) = t.parse::<u128>() {
                    v.push(Tok::Int(x as i128));
                } else {
                    v.push(Tok::Word(t));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let e = ident_end(b, i);
                v.push(Tok::Word(&s[i..e]));
                i = e.max(i + 1);
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct FuncSrc {
    pub header: &'static str,
    pub body: &'static str,
    pub internal: bool,
}
pub struct GlobSrc {
    pub text: &'static str, // after the '='
    pub internal: bool,
}
pub struct Module {
    pub funcs: HashMap<&'static str, FuncSrc>,
    pub globs: HashMap<&'static str, GlobSrc>,
    pub decls: HashMap<&'static str, &'static str>,
    pub types: HashMap<&'static str, TyRef>,
    pub aliases: HashMap<&'static str, &'static str>,
    type_src: HashMap<&'static str, &'static str>,
    pub attrs: HashMap<&'static str, &'static str>,
}

pub fn parse_module(text: String) -> Module {
    let text: &'static str = Box::leak(text.into_boxed_str());
    let mut m = Module {
        funcs: HashMap::new(),
        globs: HashMap::new(),
        decls: HashMap::new(),
        types: HashMap::new(),
        aliases: HashMap::new(),
        type_src: HashMap::new(),
        attrs: HashMap::new(),
    };
    let mut pos = 0;
    let len = text.len();
    let bytes = text.as_bytes();
    while pos < len {
        let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(len);
        let line = &text[pos..e];
        let mut next = e + 1;
        match bytes[pos..].first() {
            Some(b'd') if line.starts_with("define ") => {
                // body until a line that is "}"
                let bend = text[e..].find("\n}").map(|x| e + x).expect("function end");
                let at = line.find('@').unwrap();
                let ne = ident_end(bytes, at + 1 + pos);
                let name = unquote(&text[pos + at + 1..ne]);
                let internal = line.starts_with("define internal ") || line.starts_with("define private ");
                m.funcs.insert(name, FuncSrc { header: line, body: &text[e + 1..bend + 1], internal });
                next = bend + 3;
            }
            Some(b'd') if line.starts_with("declare ") => {
                let at = line.find('@').unwrap();
                let ne = ident_end(bytes, at + 1 + pos);
                let name = unquote(&text[pos + at + 1..ne]);
                m.decls.insert(name, line);
            }
            Some(b'@') => {
                let ne = ident_end(bytes, pos + 1);
                let name = unquote(&text[pos + 1..ne]);
                if let Some(eq) = text[ne..e].find('=') {
                    let rest = &text[ne + eq + 1..e];
                    let internal = rest.trim_start().starts_with("private") || rest.trim_start().starts_with("internal");
                    if rest.contains(" alias ") {
                        // alias T, ptr @target
                        if let Some(a) = rest.rfind('@') {
                            let st = ne + eq + 1 + a + 1;
                            let te = ident_end(bytes, st);
                            m.aliases.insert(name, unquote(&text[st..te]));
                        }
                    } else {
                        m.globs.insert(name, GlobSrc { text: rest, internal });
                    }
                }
            }
            Some(b'%') => {
                let ne = ident_end(bytes, pos + 1);
                let name = unquote(&text[pos + 1..ne]);
                if let Some(t) = text[ne..e].find("type ") {
                    m.type_src.insert(name, &text[ne + t + 5..e]);
                }
            }
            Some(b'a') if line.starts_with("attributes #") => {
                let st = pos + "attributes #".len();
                let ne = ident_end(bytes, st);
                m.attrs.insert(&text[st..ne], &text[ne..e]);
            }
            _ => {}
        }
        pos = next;
    }
    let names: Vec<&'static str> = m.type_src.keys().copied().collect();
    for n in names {
        m.named_type(n);
    }
    m
}

impl Module {
    fn named_type(&mut self, n: &'static str) -> TyRef {
        if let Some(t) = self.types.get(n) {
            return t;
        }
        let Some(src) = self.type_src.get(n).copied() else { return leak(Ty::Other) };
        if src.trim() == "opaque" {
            let t: TyRef = leak(Ty::Other);
            self.types.insert(n, t);
            return t;
        }
        let toks = lex(src);
        // resolve nested names first (no recursive types by value)
        for t in &toks {
            if let Tok::Local(x) = t {
                let x: &'static str = Box::leak(x.to_string().into_boxed_str());
                let key = *self.type_src.get_key_value(x).map(|(k, _)| k).unwrap_or(&x);
                self.named_type(key);
            }
        }
        let t = {
            let mut p = P { t: &toks, i: 0, m: self };
            p.ty().unwrap_or(leak(Ty::Other))
        };
        self.types.insert(n, t);
        t
    }
    pub fn attr_has(&self, group: &str, word: &str) -> bool {
        self.attrs.get(group).map_or(false, |s| s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == word))
    }
    /// does the declaration's / definition's attribute group contain `word`?
    pub fn decl_attr(&self, name: &str, word: &str) -> bool {
        let line = match self.decls.get(name) {
            Some(l) => *l,
            None => match self.funcs.get(name) {
                Some(f) => f.header,
                None => return false,
            },
        };
        let mut i = 0;
        while let Some(p) = line[i..].find(" #") {
            let st = i + p + 2;
            let ne = ident_end(line.as_bytes(), st);
            if self.attr_has(&line[st..ne], word) {
                return true;
            }
            i = ne;
        }
        false
    }
}

/// Token cursor with type parsing.
pub struct P<'a> {
    pub t: &'a [Tok<'a>],
    pub i: usize,
    pub m: &'a Module,
}
pub type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> R<&'a Tok<'a>> {
        let r = self.t.get(self.i).ok_or_else(|| "unexpected end".to_string())?;
        self.i += 1;
        Ok(r)
    }
    pub fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{c}' got {:?}", self.peek()))
        }
    }
    pub fn word(&self) -> &'a str {
        match self.t.get(self.i) {
            Some(Tok::Word(w)) => w,
            _ => "",
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_mmx" | "bfloat" | "fp128" | "x86_fp80")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<TyRef> {
        let t = self.next()?.clone();
        Ok(match t {
            Tok::Word("void") => &Ty::Void,
            Tok::Word("ptr") => {
                if self.word() == "addrspace" {
                    return Err("addrspace".into());
                }
                &Ty::Ptr
            }
            Tok::Word("float") => &Ty::Float(32),
            Tok::Word("double") => &Ty::Float(64),
            Tok::Word(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                let n: u32 = w[1..].parse().map_err(|_| "int type")?;
                match n {
                    1 => &Ty::Int(1),
                    8 => &Ty::Int(8),
                    16 => &Ty::Int(16),
                    32 => &Ty::Int(32),
                    64 => &Ty::Int(64),
                    // the expressions hold up to 128 bits
                    129.. => return Err(format!("integers of {n} bits")),
                    _ => leak(Ty::Int(n)),
                }
            }
            Tok::Word("label") | Tok::Word("metadata") | Tok::Word("token") => &Ty::Other,
            Tok::Word(_) => &Ty::Other,
            Tok::P('[') => {
                let n = self.int()?;
                if !self.eatw("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                leak(Ty::Arr(n as u64, t))
            }
            Tok::P('<') => {
                if self.is('{') {
                    self.i += 1;
                    let f = self.tys('}')?;
                    self.expect('>')?;
                    leak(Ty::Struct(f, true))
                } else {
                    let n = self.int()?;
                    if !self.eatw("x") {
                        return Err("vector".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    leak(Ty::Vec(n as u32, t))
                }
            }
            Tok::P('{') => {
                let f = self.tys('}')?;
                leak(Ty::Struct(f, false))
            }
            Tok::Local(n) => self.m.types.get(n).copied().ok_or_else(|| format!("type %{n}"))?,
            t => return Err(format!("type expected, got {t:?}")),
        })
    }
    fn tys(&mut self, end: char) -> R<Vec<TyRef>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    pub fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Int(i) => Ok(*i),
            t => Err(format!("int expected, got {t:?}")),
        }
    }
    pub fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') | Tok::P('[') | Tok::P('{') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    /// skip attribute words (noundef, range(..), align 8, ...) before a value or type
    pub fn skip_attrs(&mut self) -> R<()> {
        loop {
            if self.at_type() {
                return Ok(());
            }
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if is_value_word(w) {
                        return Ok(());
                    }
                    let w = *w;
                    self.i += 1;
                    if self.is('(') {
                        self.skip_parens()?;
                    } else if w == "align" || w == "cc" || w == "alignstack" {
                        if let Some(Tok::Int(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    // "key"="value"
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
}

pub fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "splat" | "asm" | "blockaddress" | "mul" | "ptrtoaddr" | "dso_local_equivalent" | "no_cfi"
    )
}
