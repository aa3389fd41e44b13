//! Lowering of parsed IR to the engine's flattened instruction form.
use crate::expr::*;
use crate::ir::{self, Ty, I, V};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    pub sym: u32,
    pub v: u64,
}
pub const fn cval(v: u64) -> Val {
    Val { sym: 0, v }
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Nop,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Debug, Clone, Copy)]
pub struct Slot {
    pub off: u32,
    pub w: u16,
    pub bytes: u16,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    Scmp,
    Ucmp,
    IsConstant,
    ThreadLocal,
    Trap,
    LoadRel,
    Expect,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    VecReduceMax,
    VecReduceMin,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Getrandom,
    Syscall,
    Errno,
    KeyCreate,
    Clock,
    Getenv,
    Write,
    Abort,
    SymRange,
    SymChoose,
    SymAssume,
    SymCheck,
    SymReach,
    SymNote,
    SymConc,
    SymConcBytes,
    SymSeed,
    SymParam,
    SymIsSym,
    SymInitFn,
    SymDone,
    Memchr,
    Memrchr,
    RustAlloc,
    RustAllocZeroed,
    RustRealloc,
    RustDealloc,
    Panic,
    Zero,
    Unknown,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Ind(Opnd),
    Intr(Intr, u16),
    /// lane-wise: operation, width of a lane, lanes
    VIntr(Intr, u16, u16),
    /// operation, width of the operands and of the result
    Math(FMath, u16, u16),
}

#[derive(Debug)]
pub enum Inst {
    Bin(Op, u16, u32, Opnd, Opnd),
    Cmp(Pred, u16, u32, Opnd, Opnd),
    Cast(CastOp, u16, u16, u32, Opnd),
    Select(u32, Opnd, Box<[(Opnd, Opnd, u16)]>),
    VSelect(u32, Box<[(Opnd, Opnd, Opnd, u16)]>),
    VBin(Op, u16, u32, Box<[(Opnd, Opnd)]>),
    VCmp(Pred, u16, u32, Box<[(Opnd, Opnd)]>),
    VCast(CastOp, u16, u16, u32, Box<[Opnd]>),
    /// bitcast between lane layouts: (dst, src lane width, dst lane width, dst lanes, src)
    Bits(u32, u16, u16, u16, Box<[Opnd]>),
    Load1(u32, Slot, Opnd),
    LoadN(u32, Box<[Slot]>, Opnd),
    Store1(Slot, Opnd, Opnd),
    StoreN(Box<[(Slot, Opnd)]>, Opnd),
    Alloca(u32, u32),
    Gep(u32, Opnd, i64, Box<[(Opnd, u16, i64)]>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, u16, Box<FxMap<u64, u32>>, Box<[Edge]>),
    Ret(Box<[Opnd]>),
    Unreachable,
    Call { dst: u32, n: u16, callee: Callee, args: Box<[Opnd]>, normal: Option<Edge> },
    Moves(u32, Box<[Opnd]>),
    Rmw(u32, u8, Slot, Opnd, Opnd),
    CmpXchg(u32, Slot, Opnd, Opnd, Opnd),
    /// floating point, on constants only: (op, operand width, result width, dst, a, b)
    Flt(FOp, u16, u16, u32, Opnd, Opnd),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    /// comparison: bits less, equal, greater, unordered
    Cmp(u8),
    FromU,
    FromS,
    ToU,
    ToS,
    Ext,
    Neg,
    Math(FMath),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FMath {
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Sqrt,
    Abs,
    Max,
    Min,
    CopySign,
    MulAdd,
    ToU,
    ToS,
}

fn fmath(name: &str) -> Option<FMath> {
    let n = name.strip_prefix("llvm.")?;
    let (k, _) = n.rsplit_once(".f")?;
    Some(match k {
        "floor" => FMath::Floor,
        "ceil" => FMath::Ceil,
        "trunc" => FMath::Trunc,
        "round" => FMath::Round,
        "rint" | "nearbyint" | "roundeven" => FMath::RoundEven,
        "sqrt" => FMath::Sqrt,
        "fabs" => FMath::Abs,
        "maxnum" | "maximumnum" => FMath::Max,
        "minnum" | "minimumnum" => FMath::Min,
        "copysign" => FMath::CopySign,
        "fmuladd" => FMath::MulAdd,
        _ if k.starts_with("fptoui.sat") => FMath::ToU,
        _ if k.starts_with("fptosi.sat") => FMath::ToS,
        _ => return None,
    })
}

fn is_float(t: &Ty) -> bool {
    matches!(t, Ty::F32 | Ty::F64)
}

#[derive(Debug)]
pub struct Function {
    pub name: String,
    pub short: String,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<Inst>,
    pub ext: Option<Ext>,
    pub id: u32,
}

pub struct GlobalObj {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
    pub init_array: bool,
    /// relative-pointer slots: byte offset -> target address
    pub rel: HashMap<u32, u64>,
}

pub struct Program {
    pub funcs: Vec<Function>,
    pub by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalObj>,
}

pub const FN_BASE: u64 = 0x4000_0000;

pub fn addr_of_obj(id: u32) -> u64 {
    (id as u64) << 32
}
pub fn addr_of_fn(id: u32) -> u64 {
    (FN_BASE + id as u64) << 32
}

pub struct Dec<'a> {
    m: &'a ir::Module,
    pub ar: &'a mut Arena,
    gaddr: HashMap<String, u64>,
    fid: HashMap<String, u32>,
    alias: HashMap<String, V>,
}

type R<X> = Result<X, String>;

/// Identifier segments of a v0-mangled (or other) symbol, for matching and display.
pub fn short_name(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut segs: Vec<&str> = vec![];
    while i < b.len() {
        // skip disambiguators: 's' base62 '_' and C 's...' hashes
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + n <= b.len() {
                segs.push(&s[j..j + n]);
                i = j + n;
                continue;
            }
        }
        if b[i] == b'B' {
            // backref
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    segs.join("::")
}

pub fn size_align(m: &ir::Module, t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Label | Ty::Metadata => (0, 1),
        Ty::Int(w) => {
            let b = ((*w as u64 + 7) / 8).next_power_of_two();
            (b, b.min(16))
        }
        Ty::Ptr | Ty::F64 => (8, 8),
        Ty::F32 => (4, 4),
        Ty::Arr(n, e) => {
            let (s, a) = size_align(m, e);
            (s * n, a)
        }
        Ty::Vec(n, e) => {
            let bits = match **e {
                Ty::Int(w) => w as u64,
                _ => size_align(m, e).0 * 8,
            };
            let s = ((bits * n + 7) / 8).next_power_of_two();
            (s, s)
        }
        Ty::Struct(fs, packed) => {
            let mut o = 0;
            let mut al = 1;
            for f in fs {
                let (s, a) = size_align(m, f);
                if !packed {
                    o = (o + a - 1) / a * a;
                    al = al.max(a);
                }
                o += s;
            }
            ((o + al - 1) / al * al, al)
        }
        Ty::Named(n) => size_align(m, &m.types[n]),
    }
}

pub fn field_off(m: &ir::Module, t: &Ty, k: u64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => (size_align(m, e).0 * k, (**e).clone()),
        Ty::Struct(fs, packed) => {
            let mut o = 0;
            for (i, f) in fs.iter().enumerate() {
                let (s, a) = size_align(m, f);
                if !packed {
                    o = (o + a - 1) / a * a;
                }
                if i as u64 == k {
                    return (o, f.clone());
                }
                o += s;
            }
            panic!("field index")
        }
        Ty::Named(n) => field_off(m, &m.types[n].clone(), k),
        _ => panic!("field_off"),
    }
}

fn slots_into(m: &ir::Module, t: &Ty, base: u64, out: &mut Vec<Slot>) {
    match t {
        Ty::Void | Ty::Label | Ty::Metadata => {}
        Ty::Int(w) => out.push(Slot { off: base as u32, w: *w as u16, bytes: ((*w + 7) / 8) as u16 }),
        Ty::Ptr | Ty::F64 => out.push(Slot { off: base as u32, w: 64, bytes: 8 }),
        Ty::F32 => out.push(Slot { off: base as u32, w: 32, bytes: 4 }),
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            let s = size_align(m, e).0;
            for i in 0..*n {
                slots_into(m, e, base + i * s, out);
            }
        }
        Ty::Struct(fs, packed) => {
            let mut o = 0;
            for f in fs {
                let (s, a) = size_align(m, f);
                if !packed {
                    o = (o + a - 1) / a * a;
                }
                slots_into(m, f, base + o, out);
                o += s;
            }
        }
        Ty::Named(n) => slots_into(m, &m.types[n], base, out),
    }
}
pub fn slots(m: &ir::Module, t: &Ty) -> Vec<Slot> {
    let mut v = vec![];
    slots_into(m, t, 0, &mut v);
    v
}

fn scalar_w(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w as u16,
        Ty::F32 => 32,
        _ => 64,
    }
}
fn lane(t: &Ty) -> Option<(u64, u16)> {
    match t {
        Ty::Vec(n, e) => Some((*n, scalar_w(e))),
        _ => None,
    }
}

fn intr(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("lifetime.") || p("experimental.noalias.scope") || p("dbg.") || p("invariant.") || p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("var.annotation") || p("sideeffect") {
        Intr::Nop
    } else if p("assume") {
        Intr::Assume
    } else if p("memcpy.") || p("memmove.") || p("memcpy.inline") {
        Intr::Memcpy
    } else if p("memset.") {
        Intr::Memset
    } else if p("umax.") {
        Intr::UMax
    } else if p("umin.") {
        Intr::UMin
    } else if p("smax.") {
        Intr::SMax
    } else if p("smin.") {
        Intr::SMin
    } else if p("abs.") {
        Intr::Abs
    } else if p("ctpop.") {
        Intr::Ctpop
    } else if p("ctlz.") {
        Intr::Ctlz
    } else if p("cttz.") {
        Intr::Cttz
    } else if p("bswap.") {
        Intr::Bswap
    } else if p("bitreverse.") {
        Intr::Bitreverse
    } else if p("fshl.") {
        Intr::Fshl
    } else if p("fshr.") {
        Intr::Fshr
    } else if p("uadd.with.overflow") {
        Intr::UAddO
    } else if p("usub.with.overflow") {
        Intr::USubO
    } else if p("umul.with.overflow") {
        Intr::UMulO
    } else if p("sadd.with.overflow") {
        Intr::SAddO
    } else if p("ssub.with.overflow") {
        Intr::SSubO
    } else if p("smul.with.overflow") {
        Intr::SMulO
    } else if p("usub.sat") {
        Intr::USubSat
    } else if p("uadd.sat") {
        Intr::UAddSat
    } else if p("scmp.") {
        Intr::Scmp
    } else if p("ucmp.") {
        Intr::Ucmp
    } else if p("is.constant") {
        Intr::IsConstant
    } else if p("threadlocal.address") {
        Intr::ThreadLocal
    } else if p("trap") || p("debugtrap") || p("ubsantrap") {
        Intr::Trap
    } else if p("load.relative") {
        Intr::LoadRel
    } else if p("expect.") {
        Intr::Expect
    } else if p("vector.reduce.or") {
        Intr::VecReduceOr
    } else if p("vector.reduce.and") {
        Intr::VecReduceAnd
    } else if p("vector.reduce.add") {
        Intr::VecReduceAdd
    } else if p("vector.reduce.umax") {
        Intr::VecReduceMax
    } else if p("vector.reduce.umin") {
        Intr::VecReduceMin
    } else {
        return None;
    })
}

fn ext_of(name: &str, short: &str) -> Option<Ext> {
    Some(match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "getrandom" => Ext::Getrandom,
        "syscall" => Ext::Syscall,
        "__errno_location" => Ext::Errno,
        "getenv" => Ext::Getenv,
        "write" => Ext::Write,
        "abort" => Ext::Abort,
        "__sym_range" => Ext::SymRange,
        "__sym_choose" => Ext::SymChoose,
        "__sym_assume" => Ext::SymAssume,
        "__sym_check" => Ext::SymCheck,
        "__sym_reach" => Ext::SymReach,
        "__sym_note" => Ext::SymNote,
        "__sym_concretize" => Ext::SymConc,
        "__sym_concretize_bytes" => Ext::SymConcBytes,
        "__sym_seed" => Ext::SymSeed,
        "__sym_param" => Ext::SymParam,
        "__sym_is_symbolic" => Ext::SymIsSym,
        "__sym_init_fn" => Ext::SymInitFn,
        "__sym_raw_write" => Ext::Write,
        "sym_rt_done" => Ext::SymDone,
        "__cxa_thread_atexit_impl" | "sysconf" | "pthread_self" | "gettid" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" => Ext::Zero,
        "pthread_key_create" => Ext::KeyCreate,
        "clock_gettime" => Ext::Clock,
        _ => {
            if short.contains("core::panicking::") || short.starts_with("core::panicking") || (short.contains("std::panicking::") && !short.contains("panic_count")) || short.contains("rust_begin_unwind") || short.contains("begin_panic_handler") {
                return Some(Ext::Panic);
            }
            if short.ends_with("slice::memchr::memchr_aligned") {
                return Some(Ext::Memchr);
            }
            if short.ends_with("slice::memchr::memrchr") {
                return Some(Ext::Memrchr);
            }
            if short.ends_with("__rust_alloc") || short.ends_with("__rdl_alloc") {
                return Some(Ext::RustAlloc);
            }
            if short.ends_with("__rust_alloc_zeroed") || short.ends_with("__rdl_alloc_zeroed") {
                return Some(Ext::RustAllocZeroed);
            }
            if short.ends_with("__rust_realloc") || short.ends_with("__rdl_realloc") {
                return Some(Ext::RustRealloc);
            }
            if short.ends_with("__rust_dealloc") || short.ends_with("__rdl_dealloc") {
                return Some(Ext::RustDealloc);
            }
            return None;
        }
    })
}

struct FnCx {
    regs: HashMap<String, (u32, u32)>,
    nregs: u32,
}

impl<'a> Dec<'a> {
    pub fn program(m: &'a ir::Module, ar: &'a mut Arena) -> R<Program> {
        let mut d = Dec { m, ar, gaddr: HashMap::new(), fid: HashMap::new(), alias: HashMap::new() };
        let mut names: Vec<String> = vec![];
        for f in &m.funcs {
            d.fid.insert(f.name.clone(), names.len() as u32);
            names.push(f.name.clone());
        }
        for n in &m.decls {
            if !d.fid.contains_key(n) {
                d.fid.insert(n.clone(), names.len() as u32);
                names.push(n.clone());
            }
        }
        for (a, v) in &m.aliases {
            d.alias.insert(a.clone(), v.clone());
            // a second name of a function
            if let V::Global(g) = v {
                if let Some(f) = d.fid.get(g).cloned() {
                    d.fid.insert(a.clone(), f);
                }
            }
        }
        for (i, g) in m.globals.iter().enumerate() {
            d.gaddr.insert(g.name.clone(), addr_of_obj(i as u32 + 1));
        }
        let mut globals = vec![];
        for g in &m.globals {
            let (sz, _) = size_align(m, &g.ty);
            let mut data = vec![0u8; sz as usize];
            let mut rel = HashMap::new();
            if let Some(v) = &g.init {
                d.write_init(&g.ty, v, 0, &mut data, &mut rel).map_err(|e| format!("global {}: {}", g.name, e))?;
            }
            globals.push(GlobalObj { name: g.name.clone(), data, constant: g.constant, init_array: g.init_array, rel });
        }
        let mut funcs = vec![];
        for (i, n) in names.iter().enumerate() {
            let short = short_name(n);
            // a harness may bring its own `write` (virtual files)
            let ext = if n == "write" && i < m.funcs.len() { None } else { ext_of(n, &short) };
            if i < m.funcs.len() {
                let f = &m.funcs[i];
                let mut fun = if ext.is_some() {
                    Function { name: n.clone(), short: short.clone(), nregs: 0, nparams: 0, code: vec![], ext, id: i as u32 }
                } else {
                    d.func(f, i as u32, short.clone()).map_err(|e| format!("fn {}: {}", n, e))?
                };
                fun.ext = ext;
                funcs.push(fun);
            } else {
                funcs.push(Function { name: n.clone(), short, nregs: 0, nparams: 0, code: vec![], ext: Some(ext.unwrap_or(Ext::Unknown)), id: i as u32 });
            }
        }
        let by_name = d.fid.clone();
        Ok(Program { funcs, by_name, globals })
    }

    fn global_addr(&mut self, n: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.fid.get(n) {
            // weak externals that are absent
            if matches!(n, "statx" | "gettid" | "__cxa_thread_atexit_impl" | "__dso_handle" | "__pthread_get_minstack") {
                return Ok(0);
            }
            return Ok(addr_of_fn(*f));
        }
        if let Some(v) = self.alias.get(n).cloned() {
            return Ok(self.cst(&Ty::Ptr, &v)?[0].v);
        }
        Err(format!("unknown global {}", n))
    }

    fn write_init(&mut self, t: &Ty, v: &V, off: u64, data: &mut [u8], rel: &mut HashMap<u32, u64>) -> R<()> {
        match v {
            V::Zero | V::Undef | V::Null => return Ok(()),
            V::Str(s) => {
                data[off as usize..off as usize + s.len()].copy_from_slice(s);
                return Ok(());
            }
            V::Agg(es) => {
                for (i, (et, ev)) in es.iter().enumerate() {
                    let (o, _) = field_off(self.m, t, i as u64);
                    self.write_init(et, ev, off + o, data, rel)?;
                }
                return Ok(());
            }
            V::Cast(op, inner, _) if op == "trunc" => {
                if let V::Bin(b, x, y) = &inner.1 {
                    if b == "sub" {
                        let xa = self.cst(&x.0, &x.1)?[0].v;
                        let _ = y;
                        rel.insert(off as u32, xa);
                        return Ok(());
                    }
                }
            }
            _ => {}
        }
        let sl = slots(self.m, t);
        let vs = self.cst(t, v)?;
        for (s, x) in sl.iter().zip(vs) {
            let val: u128 = if x.sym != 0 { self.ar.cv(x.sym).ok_or("non-const init")? } else { x.v as u128 };
            let p = (off + s.off as u64) as usize;
            for k in 0..s.bytes as usize {
                data[p + k] = (val >> (8 * k)) as u8;
            }
        }
        Ok(())
    }

    fn mk(&mut self, w: u16, v: u128) -> Val {
        if w > 64 {
            Val { sym: self.ar.konst(w as u32, v), v: 0 }
        } else {
            cval((v & mask(w as u32)) as u64)
        }
    }

    /// Constant value as flattened slots.
    fn cst(&mut self, t: &Ty, v: &V) -> R<Vec<Val>> {
        let sl = slots(self.m, t);
        Ok(match v {
            V::Null | V::Undef | V::Zero => sl.iter().map(|s| self.mk(s.w, 0)).collect(),
            V::Int(n) => vec![self.mk(scalar_w(t), *n as u128)],
            V::Float(n) => vec![cval(*n)],
            V::Str(s) => s.iter().map(|b| cval(*b as u64)).collect(),
            V::Global(n) => vec![cval(self.global_addr(n)?)],
            V::Agg(es) => {
                let mut o = vec![];
                for (et, ev) in es {
                    o.extend(self.cst(et, ev)?);
                }
                o
            }
            V::Splat(e) => {
                let x = self.cst(&e.0, &e.1)?;
                let mut o = vec![];
                for _ in 0..sl.len() {
                    o.extend(x.iter().copied());
                }
                o
            }
            V::Gep(bt, a) => {
                let base = self.cst(&a[0].0, &a[0].1)?[0].v;
                let mut off = 0i64;
                let mut cur = bt.clone();
                for (i, (it, iv)) in a[1..].iter().enumerate() {
                    let w = scalar_w(it) as u32;
                    let raw = self.cst(it, iv)?[0].v;
                    let k = sext(raw as u128, w) as i64;
                    if i == 0 {
                        off += k * size_align(self.m, &cur).0 as i64;
                    } else {
                        let (o, nt) = if matches!(cur, Ty::Struct(..) | Ty::Named(_)) {
                            field_off(self.m, &cur, k as u64)
                        } else {
                            let (s, nt) = field_off(self.m, &cur, 1);
                            ((s as i64 * k) as u64, nt)
                        };
                        off += o as i64;
                        cur = nt;
                    }
                }
                vec![cval(base.wrapping_add(off as u64))]
            }
            V::Cast(op, e, to) => {
                let x = self.cst(&e.0, &e.1)?;
                let fw = scalar_w(&e.0);
                let tw = scalar_w(to);
                let raw: u128 = if x[0].sym != 0 { self.ar.cv(x[0].sym).unwrap() } else { x[0].v as u128 };
                let r = match op.as_str() {
                    "sext" => sext(raw, fw as u32) as u128,
                    _ => raw,
                };
                vec![self.mk(tw, r)]
            }
            V::Bin(op, a, b) => {
                let x = self.cst(&a.0, &a.1)?[0].v;
                let y = self.cst(&b.0, &b.1)?[0].v;
                let w = scalar_w(&a.0);
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << (y & 63),
                    _ => return Err("const op".into()),
                };
                vec![self.mk(w, r as u128)]
            }
            V::Meta | V::Asm(_) => vec![],
            V::Reg(_) => return Err("register in constant".into()),
        })
    }

    fn ops(&mut self, cx: &FnCx, t: &Ty, v: &V) -> R<Vec<Opnd>> {
        if let V::Reg(n) = v {
            let (b, k) = *cx.regs.get(n).ok_or_else(|| format!("unknown register %{}", n))?;
            return Ok((0..k).map(|i| Opnd::R(b + i)).collect());
        }
        Ok(self.cst(t, v)?.into_iter().map(Opnd::C).collect())
    }
    fn op1(&mut self, cx: &FnCx, t: &Ty, v: &V) -> R<Opnd> {
        let o = self.ops(cx, t, v)?;
        if o.len() != 1 {
            return Err(format!("scalar expected, got {} slots for {:?}", o.len(), t));
        }
        Ok(o[0])
    }

    fn rty(&self, i: &I) -> Ty {
        match i {
            I::Bin(_, t, ..) => t.clone(),
            I::Cmp(_, t, ..) => match t {
                Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            },
            I::Cast(_, _, _, t) => t.clone(),
            I::Select(_, _, t, ..) => t.clone(),
            I::Load(t, _) => t.clone(),
            I::Alloca(..) | I::Gep(..) => match i {
                I::Gep(_, _, _) => Ty::Ptr,
                _ => Ty::Ptr,
            },
            I::Phi(t, _) => t.clone(),
            I::Call { ret, .. } => ret.clone(),
            I::ExtractValue(t, _, ix) => {
                let mut cur = t.clone();
                for k in ix {
                    cur = field_off(self.m, &cur, *k).1;
                }
                cur
            }
            I::InsertValue(t, ..) => t.clone(),
            I::ExtractElement(t, ..) => match t {
                Ty::Vec(_, e) => (**e).clone(),
                _ => t.clone(),
            },
            I::InsertElement(t, ..) => t.clone(),
            I::Shuffle(t, _, _, mt, _) => match (t, mt) {
                (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(*n, e.clone()),
                _ => t.clone(),
            },
            I::Freeze(t, _) => t.clone(),
            I::Rmw(_, _, t, _) => t.clone(),
            I::CmpXchg(_, t, ..) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
            I::Landingpad => Ty::Struct(vec![Ty::Ptr, Ty::Int(32)], false),
            _ => Ty::Void,
        }
    }

    fn flat_range(&self, t: &Ty, ix: &[u64]) -> (usize, usize) {
        // flattened start and length of the sub-aggregate
        let mut cur = t.clone();
        let mut st = 0;
        for &k in ix {
            let mut c2 = cur.clone();
            while let Ty::Named(n) = &c2 {
                c2 = self.m.types[n].clone();
            }
            match &c2 {
                Ty::Struct(fs, _) => {
                    for f in &fs[..k as usize] {
                        st += slots(self.m, f).len();
                    }
                    cur = fs[k as usize].clone();
                }
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    st += slots(self.m, e).len() * k as usize;
                    cur = (**e).clone();
                }
                _ => panic!("flat_range"),
            }
        }
        (st, slots(self.m, &cur).len())
    }

    fn func(&mut self, f: &ir::Func, id: u32, short: String) -> R<Function> {
        let mut cx = FnCx { regs: HashMap::new(), nregs: 0 };
        for (t, n) in &f.params {
            let k = slots(self.m, t).len() as u32;
            cx.regs.insert(n.clone(), (cx.nregs, k));
            cx.nregs += k;
        }
        let nparams = cx.nregs;
        for (_, is) in &f.blocks {
            for (d, i) in is {
                if let Some(d) = d {
                    let k = slots(self.m, &self.rty(i)).len() as u32;
                    cx.regs.insert(d.clone(), (cx.nregs, k));
                    cx.nregs += k;
                }
            }
        }
        // block start pcs
        let mut start: HashMap<&str, u32> = HashMap::new();
        let mut pc = 0u32;
        let mut phis: HashMap<&str, Vec<(&String, &Ty, &Vec<(V, String)>)>> = HashMap::new();
        for (l, is) in &f.blocks {
            start.insert(l, pc);
            for (d, i) in is {
                if let I::Phi(t, v) = i {
                    phis.entry(l).or_default().push((d.as_ref().unwrap(), t, v));
                } else {
                    pc += 1;
                }
            }
        }
        let mut code = Vec::with_capacity(pc as usize);
        for (l, is) in &f.blocks {
            for (d, i) in is {
                if matches!(i, I::Phi(..)) {
                    continue;
                }
                let dst = d.as_ref().map(|d| cx.regs[d].0).unwrap_or(u32::MAX);
                let inst = match self.inst(&cx, l, dst, i, &start, &phis) {
                    Ok(x) => x,
                    Err(e) => Inst::Bad(format!("{}: {:?}", e, i)),
                };
                code.push(inst);
            }
        }
        Ok(Function { name: f.name.clone(), short, nregs: cx.nregs, nparams, code, ext: None, id })
    }

    fn edge(&mut self, cx: &FnCx, from: &str, to: &str, start: &HashMap<&str, u32>, phis: &HashMap<&str, Vec<(&String, &Ty, &Vec<(V, String)>)>>) -> R<Edge> {
        let mut mv = vec![];
        if let Some(ps) = phis.get(to) {
            for (d, t, v) in ps {
                let (x, _) = v.iter().find(|(_, l)| l == from).ok_or("phi edge")?;
                let o = self.ops(cx, t, x)?;
                let (b, _) = cx.regs[*d];
                for (k, o) in o.into_iter().enumerate() {
                    mv.push((b + k as u32, o));
                }
            }
        }
        Ok(Edge { target: *start.get(to).ok_or("edge target")?, moves: mv.into_boxed_slice() })
    }

    fn inst(&mut self, cx: &FnCx, blk: &str, dst: u32, i: &I, start: &HashMap<&str, u32>, phis: &HashMap<&str, Vec<(&String, &Ty, &Vec<(V, String)>)>>) -> R<Inst> {
        Ok(match i {
            I::Bin(op, t, a, b) if is_float(t) => {
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    "frem" => FOp::Rem,
                    "fneg" => FOp::Neg,
                    _ => return Err("float".into()),
                };
                let x = self.ops(cx, t, a)?;
                let y = self.ops(cx, t, b)?;
                let w = scalar_w(t);
                Inst::Flt(o, w, w, dst, x[0], y[0])
            }
            I::Cmp(p, t, a, b) if is_float(t) => {
                let m = match &p[1..] {
                    "eq" => 2,
                    "lt" => 1,
                    "gt" => 4,
                    "le" => 3,
                    "ge" => 6,
                    "ne" => 5,
                    "rd" => 7,
                    "no" => 0,
                    _ => return Err("fcmp".into()),
                };
                let m = if p.starts_with('u') { m | 8 } else { m };
                let x = self.ops(cx, t, a)?;
                let y = self.ops(cx, t, b)?;
                Inst::Flt(FOp::Cmp(m), scalar_w(t), 1, dst, x[0], y[0])
            }
            I::Bin(op, t, a, b) => {
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    _ => return Err("float".into()),
                };
                let x = self.ops(cx, t, a)?;
                let y = self.ops(cx, t, b)?;
                if let Some((_, w)) = lane(t) {
                    Inst::VBin(o, w, dst, x.into_iter().zip(y).collect())
                } else {
                    Inst::Bin(o, scalar_w(t), dst, x[0], y[0])
                }
            }
            I::Cmp(p, t, a, b) => {
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err("fcmp".into()),
                };
                let x = self.ops(cx, t, a)?;
                let y = self.ops(cx, t, b)?;
                if let Some((_, w)) = lane(t) {
                    Inst::VCmp(p, w, dst, x.into_iter().zip(y).collect())
                } else {
                    Inst::Cmp(p, scalar_w(t), dst, x[0], y[0])
                }
            }
            I::Cast(op, t, v, to) => {
                let x = self.ops(cx, t, v)?;
                let f = match op.as_str() {
                    "uitofp" => Some(FOp::FromU),
                    "sitofp" => Some(FOp::FromS),
                    "fptoui" => Some(FOp::ToU),
                    "fptosi" => Some(FOp::ToS),
                    "fpext" | "fptrunc" => Some(FOp::Ext),
                    _ => None,
                };
                if let (Some(f), None) = (f, lane(t)) {
                    return Ok(Inst::Flt(f, scalar_w(t), scalar_w(to), dst, x[0], x[0]));
                }
                let c = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (fw, tw) = (scalar_w(t), scalar_w(to));
                        if fw == tw {
                            CastOp::Nop
                        } else if fw > tw {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                    "bitcast" => {
                        let (_, fw) = lane(t).unwrap_or((1, scalar_w(t)));
                        let (n, tw) = lane(to).unwrap_or((1, scalar_w(to)));
                        if fw == tw {
                            return Ok(Inst::Moves(dst, x.into_boxed_slice()));
                        }
                        return Ok(Inst::Bits(dst, fw, tw, n as u16, x.into_boxed_slice()));
                    }
                    _ => return Err("cast".into()),
                };
                let (_, fw) = lane(t).unwrap_or((1, scalar_w(t)));
                let (_, tw) = lane(to).unwrap_or((1, scalar_w(to)));
                if lane(t).is_some() {
                    Inst::VCast(c, fw, tw, dst, x.into_boxed_slice())
                } else {
                    Inst::Cast(c, fw, tw, dst, x[0])
                }
            }
            I::Select(ct, c, t, a, b) => {
                let x = self.ops(cx, t, a)?;
                let y = self.ops(cx, t, b)?;
                let sl = slots(self.m, t);
                if lane(ct).is_some() {
                    let cs = self.ops(cx, ct, c)?;
                    Inst::VSelect(dst, cs.into_iter().zip(x).zip(y).zip(sl).map(|(((c, a), b), s)| (c, a, b, s.w)).collect())
                } else {
                    let c = self.op1(cx, ct, c)?;
                    Inst::Select(dst, c, x.into_iter().zip(y).zip(sl).map(|((a, b), s)| (a, b, s.w)).collect())
                }
            }
            I::Load(t, p) => {
                let p = self.op1(cx, &Ty::Ptr, p)?;
                let sl = slots(self.m, t);
                if sl.len() == 1 {
                    Inst::Load1(dst, sl[0], p)
                } else {
                    Inst::LoadN(dst, sl.into_boxed_slice(), p)
                }
            }
            I::Store(t, v, p) => {
                let p = self.op1(cx, &Ty::Ptr, p)?;
                let sl = slots(self.m, t);
                let x = self.ops(cx, t, v)?;
                if sl.len() == 1 {
                    Inst::Store1(sl[0], x[0], p)
                } else {
                    Inst::StoreN(sl.into_iter().zip(x).collect(), p)
                }
            }
            I::Alloca(t, n) => Inst::Alloca(dst, (size_align(self.m, t).0 * n) as u32),
            I::Gep(t, b, ix) => {
                let b = self.op1(cx, &Ty::Ptr, b)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t.clone();
                for (k, (it, iv)) in ix.iter().enumerate() {
                    let w = scalar_w(it);
                    let o = self.op1(cx, it, iv)?;
                    let is_struct = k > 0 && matches!(cur, Ty::Struct(..) | Ty::Named(_));
                    if is_struct {
                        if let Opnd::C(c) = o {
                            let (fo, nt) = field_off(self.m, &cur, c.v);
                            off += fo as i64;
                            cur = nt;
                        } else {
                            return Err("gep struct idx".into());
                        }
                        continue;
                    }
                    let scale = if k == 0 {
                        size_align(self.m, &cur).0 as i64
                    } else {
                        let (s, nt) = field_off(self.m, &cur, 1);
                        cur = nt;
                        s as i64
                    };
                    match o {
                        Opnd::C(c) => off += sext(c.v as u128, w as u32) as i64 * scale,
                        o => terms.push((o, w, scale)),
                    }
                }
                Inst::Gep(dst, b, off, terms.into_boxed_slice())
            }
            I::Phi(..) => unreachable!(),
            I::Br(l) => Inst::Br(self.edge(cx, blk, l, start, phis)?),
            I::CondBr(c, a, b) => {
                let c = self.op1(cx, &Ty::Int(1), c)?;
                Inst::CondBr(c, self.edge(cx, blk, a, start, phis)?, self.edge(cx, blk, b, start, phis)?)
            }
            I::Switch(t, v, d, cs) => {
                let v = self.op1(cx, t, v)?;
                let w = scalar_w(t);
                let mut edges = vec![self.edge(cx, blk, d, start, phis)?];
                let mut labs: Vec<&String> = vec![d];
                let mut map = FxMap::default();
                for (c, l) in cs {
                    let k = self.cst(t, c)?[0].v;
                    let e = match labs.iter().position(|x| *x == l) {
                        Some(p) => p,
                        None => {
                            labs.push(l);
                            edges.push(self.edge(cx, blk, l, start, phis)?);
                            edges.len() - 1
                        }
                    };
                    map.insert(k, e as u32);
                }
                Inst::Switch(v, w, Box::new(map), edges.into_boxed_slice())
            }
            I::Ret(t, v) => Inst::Ret(match v {
                Some(v) => self.ops(cx, t, v)?.into_boxed_slice(),
                None => Box::new([]),
            }),
            I::Unreachable => Inst::Unreachable,
            I::Resume | I::Landingpad => Inst::Bad("unwind".into()),
            I::Call { ret, callee, args, normal } => {
                let mut av = vec![];
                let mut w0 = 64;
                for (k, (t, v)) in args.iter().enumerate() {
                    if k == 0 {
                        w0 = lane(t).map(|x| x.1).unwrap_or(scalar_w(t));
                    }
                    if *t == Ty::Metadata {
                        continue;
                    }
                    av.extend(self.ops(cx, t, v)?);
                }
                let n = slots(self.m, ret).len() as u16;
                let nrm = match normal {
                    Some(l) => Some(self.edge(cx, blk, l, start, phis)?),
                    None => None,
                };
                let cal = match callee {
                    V::Global(g) => {
                        if g.starts_with("llvm.") {
                            let vec = args.first().and_then(|(t, _)| lane(t));
                            if let (Some(m), None) = (fmath(g), vec) {
                                Callee::Math(m, w0, scalar_w(ret))
                            } else {
                                let k = intr(g).ok_or_else(|| format!("intrinsic {}", g))?;
                                match (vec, k) {
                                    (_, Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd | Intr::VecReduceMax | Intr::VecReduceMin) | (None, _) => Callee::Intr(k, w0),
                                    (
                                        Some((lanes, w)),
                                        Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::USubSat | Intr::UAddSat | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse | Intr::Fshl | Intr::Fshr,
                                    ) => Callee::VIntr(k, w as u16, lanes as u16),
                                    _ => return Err(format!("vector intrinsic {}", g)),
                                }
                            }
                        } else if let Some(f) = self.fid.get(g) {
                            Callee::Direct(*f)
                        } else {
                            Callee::Ind(Opnd::C(cval(self.global_addr(g)?)))
                        }
                    }
                    V::Reg(_) => Callee::Ind(self.op1(cx, &Ty::Ptr, callee)?),
                    V::Asm(s) if s.is_empty() => Callee::Intr(Intr::Nop, 0),
                    _ => return Err("callee".into()),
                };
                Inst::Call { dst, n, callee: cal, args: av.into_boxed_slice(), normal: nrm }
            }
            I::ExtractValue(t, v, ix) => {
                let x = self.ops(cx, t, v)?;
                let (s, n) = self.flat_range(t, ix);
                Inst::Moves(dst, x[s..s + n].to_vec().into_boxed_slice())
            }
            I::InsertValue(t, v, t2, v2, ix) => {
                let mut x = self.ops(cx, t, v)?;
                let y = self.ops(cx, t2, v2)?;
                let (s, n) = self.flat_range(t, ix);
                x[s..s + n].copy_from_slice(&y);
                Inst::Moves(dst, x.into_boxed_slice())
            }
            I::ExtractElement(t, v, ix) => {
                let x = self.ops(cx, t, v)?;
                match ix {
                    V::Int(k) => Inst::Moves(dst, Box::new([x[*k as usize]])),
                    _ => return Err("extractelement".into()),
                }
            }
            I::InsertElement(t, v, e, ix) => {
                let mut x = self.ops(cx, t, v)?;
                let et = match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => return Err("insertelement".into()),
                };
                let y = self.op1(cx, &et, e)?;
                match ix {
                    V::Int(k) => x[*k as usize] = y,
                    _ => return Err("insertelement".into()),
                }
                Inst::Moves(dst, x.into_boxed_slice())
            }
            I::Shuffle(t, a, b, mt, mv) => {
                let mut x = self.ops(cx, t, a)?;
                x.extend(self.ops(cx, t, b)?);
                let ms = self.cst(mt, mv)?;
                let r: Vec<Opnd> = ms.iter().map(|k| x[k.v as usize]).collect();
                Inst::Moves(dst, r.into_boxed_slice())
            }
            I::Freeze(t, v) => Inst::Moves(dst, self.ops(cx, t, v)?.into_boxed_slice()),
            I::Rmw(o, p, t, v) => {
                let k = match o.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => return Err("rmw".into()),
                };
                let p = self.op1(cx, &Ty::Ptr, p)?;
                let v = self.op1(cx, t, v)?;
                Inst::Rmw(dst, k, slots(self.m, t)[0], p, v)
            }
            I::CmpXchg(p, t, a, b) => {
                let p = self.op1(cx, &Ty::Ptr, p)?;
                let a = self.op1(cx, t, a)?;
                let b = self.op1(cx, t, b)?;
                Inst::CmpXchg(dst, slots(self.m, t)[0], p, a, b)
            }
            I::Fence => Inst::Moves(u32::MAX, Box::new([])),
        })
    }
}
