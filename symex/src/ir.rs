//! Parser for textual LLVM IR (the subset rustc emits).  Produces a raw module which
//! `decode.rs` lowers to the engine's flattened instruction form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Label,
    Metadata,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(String),
}

#[derive(Clone, Debug)]
pub enum V {
    Reg(String),
    Global(String),
    Int(i128),
    Float(u64),
    Null,
    Undef,
    Zero,
    Str(Vec<u8>),
    Agg(Vec<(Ty, V)>),
    Splat(Box<(Ty, V)>),
    Gep(Ty, Vec<(Ty, V)>),
    Cast(String, Box<(Ty, V)>, Ty),
    Bin(String, Box<(Ty, V)>, Box<(Ty, V)>),
    Meta,
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(String, Ty, V, V),
    Cmp(String, Ty, V, V),
    Cast(String, Ty, V, Ty),
    Select(Ty, V, Ty, V, V),
    Load(Ty, V),
    Store(Ty, V, V),
    Alloca(Ty, u64),
    Gep(Ty, V, Vec<(Ty, V)>),
    Phi(Ty, Vec<(V, String)>),
    Br(String),
    CondBr(V, String, String),
    Switch(Ty, V, String, Vec<(V, String)>),
    Ret(Ty, Option<V>),
    Unreachable,
    Resume,
    Call { ret: Ty, callee: V, args: Vec<(Ty, V)>, normal: Option<String> },
    ExtractValue(Ty, V, Vec<u64>),
    InsertValue(Ty, V, Ty, V, Vec<u64>),
    ExtractElement(Ty, V, V),
    InsertElement(Ty, V, V, V),
    Shuffle(Ty, V, V, Ty, V),
    Freeze(Ty, V),
    Rmw(String, V, Ty, V),
    CmpXchg(V, Ty, V, V),
    Fence,
    Landingpad,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, String)>,
    pub ret: Ty,
    pub blocks: Vec<(String, Vec<(Option<String>, I)>)>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<V>,
    pub constant: bool,
    /// placed in `.init_array` (run before `main`)
    pub init_array: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub decls: Vec<String>,
    pub aliases: Vec<(String, V)>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),       // word
    L(String),       // %local
    G(String),       // @global
    M(String),       // !meta
    H,               // #attr
    N(i128),         // integer
    Fl(u64),         // float (hex)
    S(Vec<u8>),      // string
    C(Vec<u8>),      // c"string"
    Lab(String),     // label:
    P(u8),           // punctuation
    Dots,
    Eof,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lx<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        unesc(&self.s[st..j])
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn next(&mut self) -> T {
        loop {
            if self.i >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.i];
            if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if c.is_ascii_whitespace() {
                self.i += 1;
            } else {
                break;
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                T::L(self.name())
            }
            b'@' => {
                self.i += 1;
                T::G(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && (idch(self.s[self.i])) {
                    T::M(self.name())
                } else {
                    T::P(b'!')
                }
            }
            b'#' => {
                self.i += 1;
                self.name();
                T::H
            }
            b'"' => {
                let q = self.quoted();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return T::Lab(String::from_utf8_lossy(&q).into_owned());
                }
                T::S(q)
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                T::C(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                T::Dots
            }
            _ if idch(c) => {
                let st = self.i;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                // 1.000000e+22
                if (c == b'-' || c.is_ascii_digit()) && self.i + 1 < self.s.len() && self.s[self.i] == b'+' && self.s[self.i - 1] == b'e' && self.s[self.i + 1].is_ascii_digit() {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                        self.i += 1;
                    }
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return T::Lab(w.to_string());
                }
                if c == b'-' || c.is_ascii_digit() {
                    if let Ok(n) = w.parse::<i128>() {
                        return T::N(n);
                    }
                    if let Ok(n) = w.parse::<u128>() {
                        return T::N(n as i128);
                    }
                    if let Some(h) = w.strip_prefix("0x") {
                        if let Ok(n) = u64::from_str_radix(h, 16) {
                            return T::Fl(n);
                        }
                    }
                    if let Ok(f) = w.parse::<f64>() {
                        return T::Fl(f.to_bits());
                    }
                }
                T::W(w.to_string())
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
}

struct Ps {
    t: Vec<T>,
    i: usize,
}

type R<X> = Result<X, String>;

const CONST_KW: &[&str] = &[
    "null", "true", "false", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "splat",
    "add", "sub", "mul", "xor", "trunc", "bitcast", "zext", "sext", "asm", "none", "no_cfi", "dso_local_equivalent", "and", "or", "shl",
];

impl Ps {
    fn pk(&self) -> &T {
        &self.t[self.i]
    }
    fn pk2(&self) -> &T {
        &self.t[(self.i + 1).min(self.t.len() - 1)]
    }
    fn nx(&mut self) -> T {
        let x = self.t[self.i].clone();
        self.i += 1;
        x
    }
    fn isp(&self, c: u8) -> bool {
        *self.pk() == T::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), T::W(x) if x == w)
    }
    fn eatp(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: u8) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c as char))
        }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        let lo = self.i.saturating_sub(12);
        Err(format!("{} at {:?} <<HERE {:?}>>", m, &self.t[lo..self.i], &self.t[self.i..(self.i + 6).min(self.t.len())]))
    }
    fn word(&mut self) -> R<String> {
        match self.nx() {
            T::W(w) => Ok(w),
            _ => {
                self.i -= 1;
                self.err("expected word")
            }
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.nx() {
            T::N(n) => Ok(n),
            _ => {
                self.i -= 1;
                self.err("expected number")
            }
        }
    }
    fn skip_bal(&mut self) {
        // at an opening bracket
        let mut d = 0i32;
        loop {
            match self.nx() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.pk() {
            T::W(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "opaque")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::L(_) => true,
            T::P(b'[') | T::P(b'<') | T::P(b'{') => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let r = match self.nx() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Metadata,
                "opaque" => Ty::Void,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => {
                    self.i -= 1;
                    return self.err("bad type");
                }
            },
            T::L(n) => Ty::Named(n),
            T::P(b'[') => {
                let n = self.num()?;
                self.word()?;
                let e = self.ty()?;
                self.expp(b']')?;
                Ty::Arr(n as u64, Box::new(e))
            }
            T::P(b'<') => {
                if self.isp(b'{') {
                    self.nx();
                    let mut v = vec![];
                    while !self.eatp(b'}') {
                        v.push(self.ty()?);
                        self.eatp(b',');
                    }
                    self.expp(b'>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()?;
                    self.word()?;
                    let e = self.ty()?;
                    self.expp(b'>')?;
                    Ty::Vec(n as u64, Box::new(e))
                }
            }
            T::P(b'{') => {
                let mut v = vec![];
                while !self.eatp(b'}') {
                    v.push(self.ty()?);
                    self.eatp(b',');
                }
                Ty::Struct(v, false)
            }
            _ => {
                self.i -= 1;
                return self.err("bad type");
            }
        };
        Ok(r)
    }
    fn attrs(&mut self) {
        loop {
            match self.pk() {
                T::W(w) => {
                    if CONST_KW.contains(&w.as_str()) {
                        return;
                    }
                    let is_align = w == "align";
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal();
                    } else if is_align {
                        self.i += 1;
                    }
                }
                T::S(_) => {
                    self.i += 1;
                    if self.eatp(b'=') {
                        self.i += 1;
                    }
                }
                T::H => self.i += 1,
                _ => return,
            }
        }
    }
    fn tyval(&mut self) -> R<(Ty, V)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn val(&mut self, t: &Ty) -> R<V> {
        let mut x = self.nx();
        if x == T::P(b'+') {
            x = self.nx();
        }
        Ok(match x {
            T::W(w) if w.starts_with("f0x") => V::Float(u64::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?),
            T::W(w) if w == "qnan" => V::Float(f64::NAN.to_bits()),
            T::W(w) if w == "inf" => V::Float(f64::INFINITY.to_bits()),
            T::W(w) if w == "-inf" => V::Float(f64::NEG_INFINITY.to_bits()),
            T::W(w) if w == "-qnan" => V::Float((-f64::NAN).to_bits()),
            T::L(n) => V::Reg(n),
            T::G(n) => V::Global(n),
            T::N(n) => V::Int(n),
            T::Fl(n) if *t == Ty::F32 => V::Float((f64::from_bits(n) as f32).to_bits() as u64),
            T::Fl(n) => V::Float(n),
            T::C(s) => V::Str(s),
            T::M(_) => {
                if self.isp(b'(') {
                    self.skip_bal();
                }
                V::Meta
            }
            T::P(b'!') => {
                if self.isp(b'{') {
                    self.skip_bal();
                } else {
                    self.i += 1;
                }
                V::Meta
            }
            T::P(b'[') => self.agg(b']')?,
            T::P(b'{') => self.agg(b'}')?,
            T::P(b'<') => {
                if self.eatp(b'{') {
                    let a = self.agg(b'}')?;
                    self.expp(b'>')?;
                    a
                } else {
                    self.agg(b'>')?
                }
            }
            T::W(w) => match w.as_str() {
                "null" | "none" => V::Null,
                "true" => V::Int(1),
                "false" => V::Int(0),
                "undef" | "poison" => V::Undef,
                "zeroinitializer" => V::Zero,
                "splat" => {
                    self.expp(b'(')?;
                    let e = self.tyval()?;
                    self.expp(b')')?;
                    V::Splat(Box::new(e))
                }
                "getelementptr" => {
                    while !self.isp(b'(') {
                        self.i += 1;
                        if let (T::W(_), true) = (&self.t[self.i - 1].clone(), self.isp(b'(')) {
                            // inrange(...) carries its own parenthesis
                            if matches!(&self.t[self.i - 1], T::W(w) if w == "inrange") {
                                self.skip_bal();
                            }
                        }
                    }
                    self.expp(b'(')?;
                    let bt = self.ty()?;
                    let mut a = vec![];
                    while self.eatp(b',') {
                        a.push(self.tyval()?);
                    }
                    self.expp(b')')?;
                    V::Gep(bt, a)
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "sext" | "ptrtoaddr" => {
                    while !self.isp(b'(') {
                        self.i += 1;
                    }
                    self.expp(b'(')?;
                    let e = self.tyval()?;
                    self.word()?;
                    let to = self.ty()?;
                    self.expp(b')')?;
                    V::Cast(w, Box::new(e), to)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while !self.isp(b'(') {
                        self.i += 1;
                    }
                    self.expp(b'(')?;
                    let a = self.tyval()?;
                    self.expp(b',')?;
                    let b = self.tyval()?;
                    self.expp(b')')?;
                    V::Bin(w, Box::new(a), Box::new(b))
                }
                "asm" => {
                    let mut first = String::new();
                    let mut got = 0;
                    loop {
                        match self.nx() {
                            T::S(s) => {
                                if got == 0 {
                                    first = String::from_utf8_lossy(&s).into_owned();
                                }
                                got += 1;
                                if got == 2 {
                                    break;
                                }
                            }
                            T::Eof => return self.err("asm"),
                            _ => {}
                        }
                    }
                    V::Asm(first)
                }
                "no_cfi" | "dso_local_equivalent" => return self.val(t),
                _ => {
                    if *t == Ty::Metadata {
                        V::Meta
                    } else {
                        self.i -= 1;
                        return self.err("bad value");
                    }
                }
            },
            _ => {
                self.i -= 1;
                return self.err("bad value");
            }
        })
    }
    fn agg(&mut self, close: u8) -> R<V> {
        let mut v = vec![];
        while !self.eatp(close) {
            v.push(self.tyval()?);
            self.eatp(b',');
        }
        Ok(V::Agg(v))
    }
    /// Skip trailing `, align 8, !meta !1` of an instruction.
    fn trail(&mut self) {
        while self.isp(b',') {
            match self.pk2() {
                T::M(_) => {
                    self.i += 2;
                    // !name then node ref
                    match self.pk() {
                        T::M(_) => {
                            self.i += 1;
                            if self.isp(b'(') {
                                self.skip_bal();
                            }
                        }
                        T::P(b'!') => {
                            self.i += 1;
                            if self.isp(b'{') {
                                self.skip_bal();
                            }
                        }
                        _ => {}
                    }
                }
                T::W(w) if w == "align" => self.i += 3,
                _ => return,
            }
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let T::W(w) = self.pk() {
            if ws.contains(&w.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn label(&mut self) -> R<String> {
        if !self.eatw("label") {
            return self.err("label");
        }
        match self.nx() {
            T::L(n) => Ok(n),
            _ => self.err("label name"),
        }
    }
    fn idxs(&mut self) -> R<Vec<u64>> {
        let mut v = vec![];
        while self.isp(b',') && matches!(self.pk2(), T::N(_)) {
            self.i += 1;
            v.push(self.num()? as u64);
        }
        Ok(v)
    }
    fn call(&mut self, invoke: bool) -> R<I> {
        // attributes / calling convention before return type
        loop {
            if self.is_ty() {
                break;
            }
            match self.pk() {
                T::W(w) => {
                    let w = w.clone();
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal();
                    } else if w == "align" || w == "cc" {
                        self.i += 1;
                    }
                }
                T::S(_) => {
                    self.i += 1;
                    if self.eatp(b'=') {
                        self.i += 1;
                    }
                }
                _ => return self.err("call prefix"),
            }
        }
        let ret = self.ty()?;
        if self.isp(b'(') {
            self.skip_bal(); // explicit function type
        }
        let callee = self.val(&Ty::Ptr)?;
        self.expp(b'(')?;
        let mut args = vec![];
        while !self.eatp(b')') {
            let t = self.ty()?;
            if t == Ty::Metadata {
                // skip metadata argument
                match self.nx() {
                    T::P(b'!') => {
                        if self.isp(b'{') {
                            self.skip_bal();
                        }
                    }
                    T::M(_) => {
                        if self.isp(b'(') {
                            self.skip_bal();
                        }
                    }
                    _ => {}
                }
                args.push((t, V::Meta));
            } else {
                self.attrs();
                let v = self.val(&t)?;
                args.push((t, v));
            }
            self.eatp(b',');
        }
        // function attributes & bundles
        loop {
            match self.pk() {
                T::H => self.i += 1,
                T::P(b'[') => self.skip_bal(),
                T::W(w)
                    if matches!(
                        w.as_str(),
                        "nounwind" | "noreturn" | "cold" | "memory" | "noinline" | "alwaysinline" | "readonly" | "readnone" | "willreturn" | "nobuiltin" | "builtin"
                    ) =>
                {
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal();
                    }
                }
                T::S(_) => {
                    self.i += 1;
                    if self.eatp(b'=') {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            if !self.eatw("to") {
                return self.err("invoke to");
            }
            normal = Some(self.label()?);
            if !self.eatw("unwind") {
                return self.err("invoke unwind");
            }
            self.label()?;
        }
        Ok(I::Call { ret, callee, args, normal })
    }
    fn inst(&mut self) -> R<(Option<String>, I)> {
        let mut dst = None;
        if let T::L(n) = self.pk() {
            dst = Some(n.clone());
            self.i += 1;
            self.expp(b'=')?;
        }
        let op = self.word()?;
        let fl = &["nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words(fl);
                let (t, a) = self.tyval()?;
                self.expp(b',')?;
                let b = self.val(&t)?;
                I::Bin(op, t, a, b)
            }
            "fneg" => {
                self.skip_words(fl);
                let (t, a) = self.tyval()?;
                I::Bin("fneg".into(), t, a.clone(), a)
            }
            "icmp" | "fcmp" => {
                self.skip_words(fl);
                let p = self.word()?;
                let (t, a) = self.tyval()?;
                self.expp(b',')?;
                let b = self.val(&t)?;
                I::Cmp(p, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "uitofp" | "sitofp" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.skip_words(fl);
                let (t, a) = self.tyval()?;
                self.word()?;
                let to = self.ty()?;
                I::Cast(op, t, a, to)
            }
            "select" => {
                self.skip_words(fl);
                let (ct, c) = self.tyval()?;
                self.expp(b',')?;
                let (t, a) = self.tyval()?;
                self.expp(b',')?;
                let (_, b) = self.tyval()?;
                I::Select(ct, c, t, a, b)
            }
            "load" => {
                self.eatw("atomic");
                self.skip_words(fl);
                let t = self.ty()?;
                self.expp(b',')?;
                let (_, p) = self.tyval()?;
                // atomic ordering
                if self.eatw("syncscope") {
                    self.skip_bal();
                }
                self.skip_words(&["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                I::Load(t, p)
            }
            "store" => {
                self.eatw("atomic");
                self.skip_words(fl);
                let (t, v) = self.tyval()?;
                self.expp(b',')?;
                let (_, p) = self.tyval()?;
                if self.eatw("syncscope") {
                    self.skip_bal();
                }
                self.skip_words(&["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                I::Store(t, v, p)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                if self.isp(b',') && matches!(self.pk2(), T::W(w) if w.starts_with('i') ) {
                    self.i += 1;
                    let (_, v) = self.tyval()?;
                    if let V::Int(k) = v {
                        n = k as u64;
                    } else {
                        return self.err("dynamic alloca");
                    }
                }
                I::Alloca(t, n)
            }
            "getelementptr" => {
                self.skip_words(fl);
                let t = self.ty()?;
                self.expp(b',')?;
                let (_, b) = self.tyval()?;
                let mut ix = vec![];
                while self.isp(b',') && !matches!(self.pk2(), T::M(_)) {
                    self.i += 1;
                    ix.push(self.tyval()?);
                }
                I::Gep(t, b, ix)
            }
            "phi" => {
                self.skip_words(fl);
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.expp(b'[')?;
                    let x = self.val(&t)?;
                    self.expp(b',')?;
                    let l = match self.nx() {
                        T::L(n) => n,
                        _ => return self.err("phi label"),
                    };
                    self.expp(b']')?;
                    v.push((x, l));
                    if self.isp(b',') && *self.pk2() == T::P(b'[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "br" => {
                if self.isw("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.expp(b',')?;
                    let a = self.label()?;
                    self.expp(b',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.expp(b',')?;
                let d = self.label()?;
                self.expp(b'[')?;
                let mut cs = vec![];
                while !self.eatp(b']') {
                    let (_, c) = self.tyval()?;
                    self.expp(b',')?;
                    cs.push((c, self.label()?));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.eatw("void") {
                    I::Ret(Ty::Void, None)
                } else {
                    let (t, v) = self.tyval()?;
                    I::Ret(t, Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => {
                self.tyval()?;
                I::Resume
            }
            "tail" | "musttail" | "notail" => {
                self.word()?;
                self.call(false)?
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "extractvalue" => {
                let (t, v) = self.tyval()?;
                let ix = self.idxs()?;
                I::ExtractValue(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.expp(b',')?;
                let (t2, v2) = self.tyval()?;
                let ix = self.idxs()?;
                I::InsertValue(t, v, t2, v2, ix)
            }
            "extractelement" => {
                let (t, v) = self.tyval()?;
                self.expp(b',')?;
                let (_, ix) = self.tyval()?;
                I::ExtractElement(t, v, ix)
            }
            "insertelement" => {
                let (t, v) = self.tyval()?;
                self.expp(b',')?;
                let (_, x) = self.tyval()?;
                self.expp(b',')?;
                let (_, ix) = self.tyval()?;
                I::InsertElement(t, v, x, ix)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.expp(b',')?;
                let (_, b) = self.tyval()?;
                self.expp(b',')?;
                let (mt, m) = self.tyval()?;
                I::Shuffle(t, a, b, mt, m)
            }
            "freeze" => {
                let (t, v) = self.tyval()?;
                I::Freeze(t, v)
            }
            "atomicrmw" => {
                self.skip_words(fl);
                let o = self.word()?;
                let (_, p) = self.tyval()?;
                self.expp(b',')?;
                let (t, v) = self.tyval()?;
                self.skip_words(&["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                I::Rmw(o, p, t, v)
            }
            "cmpxchg" => {
                self.skip_words(&["weak", "volatile"]);
                let (_, p) = self.tyval()?;
                self.expp(b',')?;
                let (t, a) = self.tyval()?;
                self.expp(b',')?;
                let (_, b) = self.tyval()?;
                self.skip_words(&["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                I::CmpXchg(p, t, a, b)
            }
            "fence" => {
                self.skip_words(&["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                I::Fence
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    if self.eatw("cleanup") {
                        continue;
                    }
                    if self.eatw("catch") || self.eatw("filter") {
                        self.tyval()?;
                        continue;
                    }
                    break;
                }
                I::Landingpad
            }
            _ => return self.err(&format!("unknown instruction {}", op)),
        };
        self.trail();
        Ok((dst, i))
    }
    fn func(&mut self) -> R<Func> {
        // after 'define'
        loop {
            if self.is_ty() && !matches!(self.pk(), T::L(_)) {
                break;
            }
            match self.pk() {
                T::W(w) => {
                    let w = w.clone();
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal();
                    } else if w == "align" || w == "cc" {
                        self.i += 1;
                    }
                }
                T::S(_) => self.i += 1,
                T::L(_) => break,
                _ => return self.err("define prefix"),
            }
        }
        let ret = self.ty()?;
        let name = match self.nx() {
            T::G(n) => n,
            _ => return self.err("function name"),
        };
        self.expp(b'(')?;
        let mut params = vec![];
        let mut cnt = 0;
        while !self.eatp(b')') {
            if *self.pk() == T::Dots {
                self.i += 1;
                continue;
            }
            let t = self.ty()?;
            self.attrs();
            let n = if let T::L(n) = self.pk().clone() {
                self.i += 1;
                n
            } else {
                cnt += 1;
                format!("{}", cnt - 1)
            };
            params.push((t, n));
            self.eatp(b',');
        }
        while !self.isp(b'{') {
            self.i += 1;
        }
        self.i += 1;
        let mut blocks: Vec<(String, Vec<(Option<String>, I)>)> = vec![];
        while !self.eatp(b'}') {
            if let T::Lab(l) = self.pk().clone() {
                self.i += 1;
                blocks.push((l, vec![]));
                continue;
            }
            if blocks.is_empty() {
                // unlabelled entry: takes the next unnamed value number
                let k = params.iter().filter(|(_, n)| n.bytes().all(|c| c.is_ascii_digit())).count();
                blocks.push((format!("{}", k), vec![]));
            }
            let x = self.inst()?;
            blocks.last_mut().unwrap().1.push(x);
        }
        Ok(Func { name, params, ret, blocks })
    }
}

pub fn parse(src: &[u8]) -> Result<Module, String> {
    // Drop metadata and attribute lines first (they are the bulk of the file).
    let mut m = Module::default();
    let mut lx = Lx { s: src, i: 0 };
    let mut toks: Vec<T> = vec![];
    let n = src.len();
    while lx.i < n {
        let ls = lx.i;
        let mut le = ls;
        while le < n && src[le] != b'\n' {
            le += 1;
        }
        let line = &src[ls..le];
        let skip = line.is_empty() || line[0] == b'!' || line[0] == b';' || line[0] == b'^' || line.starts_with(b"attributes ") || line.starts_with(b"source_filename") || line.starts_with(b"target ") || line.starts_with(b"module asm") || line.starts_with(b"$");
        if skip {
            lx.i = le + 1;
            continue;
        }
        // tokenise the line
        let mut sub = Lx { s: &src[..le], i: ls };
        loop {
            let t = sub.next();
            if t == T::Eof {
                break;
            }
            toks.push(t);
        }
        lx.i = le + 1;
    }
    toks.push(T::Eof);
    let mut p = Ps { t: toks, i: 0 };
    loop {
        match p.pk().clone() {
            T::Eof => break,
            T::L(n) => {
                // %name = type ...
                p.i += 1;
                p.expp(b'=')?;
                p.word()?;
                let t = p.ty()?;
                m.types.insert(n, t);
            }
            T::G(name) => {
                p.i += 1;
                p.expp(b'=')?;
                let mut constant = false;
                let mut ext = false;
                let mut alias = false;
                loop {
                    match p.pk().clone() {
                        T::W(w) => {
                            if w == "alias" {
                                alias = true;
                                p.i += 1;
                                break;
                            }
                            if p.is_ty() {
                                break;
                            }
                            p.i += 1;
                            if w == "constant" {
                                constant = true;
                                break;
                            }
                            if w == "global" {
                                break;
                            }
                            if w == "external" || w == "extern_weak" {
                                ext = true;
                            }
                            if p.isp(b'(') {
                                p.skip_bal();
                            }
                        }
                        _ => return p.err("global"),
                    }
                }
                let ty = p.ty()?;
                if alias {
                    if p.isp(b'(') {
                        p.skip_bal();
                    }
                    p.expp(b',')?;
                    let (_, v) = p.tyval()?;
                    m.aliases.push((name, v));
                } else {
                    let init = if ext { None } else { Some(p.val(&ty)?) };
                    m.globals.push(Global { name, ty, init, constant, init_array: false });
                }
                // trailing: , section "..", comdat, align, metadata
                while p.isp(b',') {
                    p.i += 1;
                    match p.nx() {
                        T::W(w) if w == "align" || w == "section" || w == "partition" => {
                            let t = p.nx();
                            if w == "section" && !alias && matches!(&t, T::S(b) if b.starts_with(b".init_array")) {
                                if let Some(g) = m.globals.last_mut() {
                                    g.init_array = true;
                                }
                            }
                        }
                        T::W(_) => {
                            if p.isp(b'(') {
                                p.skip_bal();
                            }
                        }
                        T::M(_) => {
                            p.i += 1;
                            if p.isp(b'{') || p.isp(b'(') {
                                p.skip_bal();
                            }
                        }
                        _ => {}
                    }
                }
                while matches!(p.pk(), T::H) {
                    p.i += 1;
                }
            }
            T::W(w) if w == "define" => {
                p.i += 1;
                let f = p.func()?;
                m.funcs.push(f);
            }
            T::W(w) if w == "declare" => {
                // skip to '@name', then balanced params, then attrs
                p.i += 1;
                loop {
                    match p.nx() {
                        T::G(n) => {
                            m.decls.push(n);
                            break;
                        }
                        T::Eof => return p.err("declare"),
                        _ => {}
                    }
                }
                p.skip_bal();
                loop {
                    match p.pk() {
                        T::H => p.i += 1,
                        T::W(w) if w != "define" && w != "declare" => {
                            p.i += 1;
                            if p.isp(b'(') {
                                p.skip_bal();
                            }
                        }
                        T::M(_) => {
                            p.i += 2;
                        }
                        _ => break,
                    }
                }
            }
            _ => return p.err("top level"),
        }
    }
    Ok(m)
}
