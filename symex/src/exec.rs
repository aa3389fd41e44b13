//! The symbolic executor: states, memory, forking, solver interface.
use crate::decode::*;
use crate::expr::*;
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct SB {
    e: E,
    k: u8,
}
#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Vec<SB>, // empty or same length as data
    nsym: u32,
}
const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Frame {
    f: &'static Function,
    pc: usize,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret_dst: u32,
    ret_edge: Option<&'static Edge>,
}

#[derive(Clone, Copy, Debug)]
pub struct Input {
    pub lo: u64,
    pub var: E, // 0: constant
}

#[derive(Clone)]
pub struct Note {
    pub kind: u32,
    pub bytes: Vec<Val>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Rc<Chunk>>,
    next_id: u32,
    free_ids: Vec<u32>,
    pc: Vec<E>,
    multi: Vec<E>,
    vars: Vec<E>,
    doms: Vec<[u64; 4]>,
    model: Vec<u64>,
    pinned: u128,
    multi_vars: u128,
    inputs: Rc<Vec<Input>>,
    notes: Rc<Vec<Note>>,
    reached: Rc<Vec<u32>>,
    seed: u64,
    icount: u64,
    forks: u32,
    nchecks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<u64>,
    pub notes: Vec<(u32, Vec<u8>)>,
}

#[derive(Clone, Debug)]
pub struct PathSample {
    pub inputs: Vec<u64>,
    pub notes: Vec<(u32, Vec<u8>)>,
    pub checks: u32,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub checks_path: u64,
    pub dom_unsat: u64,
    pub dom_sat: u64,
    pub cache_hits: u64,
    pub cross: u64,
    pub joint: u64,
    pub max_depth: u32,
    pub concretizations: u64,
    pub max_icount: u64,
}

pub struct Opts {
    pub time: f64,
    pub max_icount: u64,
    pub max_viol: usize,
    pub params: Vec<u64>,
    pub samples: usize,
    pub trace: bool,
    pub mem_limit_states: usize,
}

enum Stop {
    Panic(String),
    Check(String),
    Assume,
    Err(String),
    Done,
    Budget,
}
type X<T> = Result<T, Stop>;

fn er<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

pub struct Engine {
    pub prog: &'static Program,
    pub ar: Arena,
    pub z3: Z3,
    force_smt: bool,
    pub stack: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<PathSample>,
    pub reach: FxMap<u32, u64>,
    pub check_ids: std::collections::BTreeMap<String, (u64, u64, u64)>,
    pub covered: Vec<bool>,
    pub opts: Opts,
    pub fork_sites: FxMap<(u32, u32), u64>,
    cache: FxMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    scratch: Vec<Val>,
    t0: Instant,
    pub timed_out: bool,
    errno_obj: u32,
}

const COMPLEX: u32 = 4000;
const COMPLEX1: u32 = 60000;

impl Engine {
    pub fn new(prog: &'static Program, ar: Arena, opts: Opts) -> Engine {
        let nf = prog.funcs.len();
        Engine {
            prog,
            ar,
            z3: Z3::new(60_000),
            force_smt: false,
            stack: vec![],
            st: Stats::default(),
            viol: vec![],
            errors: vec![],
            samples: vec![],
            reach: FxMap::default(),
            check_ids: Default::default(),
            covered: vec![false; nf],
            opts,
            fork_sites: FxMap::default(),
            cache: FxMap::default(),
            scratch: vec![],
            t0: Instant::now(),
            timed_out: false,
            errno_obj: 0,
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fid = *self.prog.by_name.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut st = State {
            frames: vec![],
            mem: vec![],
            next_id: 1,
            free_ids: vec![],
            pc: vec![],
            multi: vec![],
            vars: vec![],
            doms: vec![],
            model: vec![],
            pinned: 0,
            multi_vars: 0,
            inputs: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            reached: Rc::new(vec![]),
            seed: 0,
            icount: 0,
            forks: 0,
            nchecks: 0,
        };
        for g in &self.prog.globals {
            let id = self.alloc(&mut st, 0);
            let o = Obj { data: g.data.clone(), sym: vec![], nsym: 0 };
            self.set_obj(&mut st, id, Some(Rc::new(o)));
        }
        self.errno_obj = self.alloc(&mut st, 8);
        let f = &self.prog.funcs[fid as usize];
        self.covered[fid as usize] = true;
        st.frames.push(Frame { f, pc: 0, regs: vec![cval(0); f.nregs as usize], allocas: vec![], ret_dst: u32::MAX, ret_edge: None });
        self.stack.push(st);
        let mut n = 0u64;
        while let Some(s) = self.stack.pop() {
            self.path(s);
            n += 1;
            if !self.errors.is_empty() {
                break;
            }
            if self.viol.len() >= self.opts.max_viol {
                break;
            }
            if n % 16 == 0 && self.t0.elapsed().as_secs_f64() > self.opts.time {
                self.timed_out = true;
                break;
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, st: &mut State, size: u64) -> u32 {
        let id = match st.free_ids.pop() {
            Some(i) => i,
            None => {
                let i = st.next_id;
                st.next_id += 1;
                i
            }
        };
        let o = Obj { data: vec![0; size as usize], sym: vec![], nsym: 0 };
        self.set_obj(st, id, Some(Rc::new(o)));
        id
    }
    fn set_obj(&mut self, st: &mut State, id: u32, o: Option<Rc<Obj>>) {
        let c = id as usize / CH;
        while st.mem.len() <= c {
            st.mem.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(&mut st.mem[c])[id as usize % CH] = o;
    }
    fn obj<'b>(&self, st: &'b State, id: u64) -> X<&'b Obj> {
        let c = id as usize / CH;
        match st.mem.get(c).and_then(|c| c[id as usize % CH].as_ref()) {
            Some(o) => Ok(o),
            None => er(format!("access to invalid object {:#x}", id)),
        }
    }
    fn obj_mut<'b>(&self, st: &'b mut State, id: u64) -> X<&'b mut Obj> {
        let c = id as usize / CH;
        if c >= st.mem.len() || st.mem[c][id as usize % CH].is_none() {
            return er(format!("write to invalid object {:#x}", id));
        }
        let ch = Rc::make_mut(&mut st.mem[c]);
        Ok(Rc::make_mut(ch[id as usize % CH].as_mut().unwrap()))
    }
    fn free(&mut self, st: &mut State, addr: u64) -> X<()> {
        if addr == 0 {
            return Ok(());
        }
        if addr & 0xffff_ffff != 0 {
            return er("free of interior pointer");
        }
        let id = addr >> 32;
        self.obj(st, id)?;
        self.set_obj(st, id as u32, None);
        st.free_ids.push(id as u32);
        Ok(())
    }
    fn read(&mut self, st: &State, addr: u64, s: Slot) -> X<Val> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = s.bytes as usize;
        let o = self.obj(st, addr >> 32)?;
        if off + n > o.data.len() {
            return er(format!("read out of bounds: offset {} size {} of {}", off, n, o.data.len()));
        }
        if o.nsym == 0 || o.sym[off..off + n].iter().all(|b| b.e == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let mut v = u64::from_le_bytes(b);
                if s.w < 64 {
                    v &= (1u64 << s.w) - 1;
                }
                return Ok(cval(v));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let e = self.ar.konst(s.w as u32, u128::from_le_bytes(b));
            return Ok(Val { sym: e, v: 0 });
        }
        let b0 = o.sym[off];
        if b0.e != 0 && b0.k == 0 && self.ar.w(b0.e) == n as u32 * 8 && (0..n).all(|i| o.sym[off + i].e == b0.e && o.sym[off + i].k == i as u8) {
            let e = self.ar.extract(b0.e, 0, s.w as u32);
            return Ok(self.val(e));
        }
        let parts: Vec<(SB, u8)> = (0..n).map(|i| (o.sym[off + i], o.data[off + i])).collect();
        let mut acc = 0;
        for (i, (sb, d)) in parts.into_iter().enumerate() {
            let b = if sb.e == 0 { self.ar.konst(8, d as u128) } else { self.ar.extract(sb.e, sb.k as u32 * 8, 8) };
            acc = if i == 0 { b } else { self.ar.concat(b, acc) };
        }
        let e = self.ar.extract(acc, 0, s.w as u32);
        Ok(self.val(e))
    }
    fn write(&mut self, st: &mut State, addr: u64, s: Slot, v: Val) -> X<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = s.bytes as usize;
        let id = addr >> 32;
        if id as usize <= self.prog.globals.len() && id > 0 && self.prog.globals[id as usize - 1].constant {
            return er("write to constant");
        }
        let mut e = 0;
        let mut cv = v.v as u128;
        if v.sym != 0 {
            match self.ar.cv(v.sym) {
                Some(c) => cv = c,
                None => e = self.ar.zext(v.sym, n as u32 * 8),
            }
        }
        let o = self.obj_mut(st, id)?;
        if off + n > o.data.len() {
            return er(format!("write out of bounds: offset {} size {} of {}", off, n, o.data.len()));
        }
        if e == 0 {
            if n <= 8 {
                o.data[off..off + n].copy_from_slice(&(cv as u64).to_le_bytes()[..n]);
            } else {
                o.data[off..off + n].copy_from_slice(&cv.to_le_bytes()[..n]);
            }
            if o.nsym > 0 {
                for b in &mut o.sym[off..off + n] {
                    if b.e != 0 {
                        b.e = 0;
                        o.nsym -= 1;
                    }
                }
            }
        } else {
            if o.sym.is_empty() {
                o.sym = vec![SB { e: 0, k: 0 }; o.data.len()];
            }
            for i in 0..n {
                if o.sym[off + i].e == 0 {
                    o.nsym += 1;
                }
                o.sym[off + i] = SB { e, k: i as u8 };
            }
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let so = (s & 0xffff_ffff) as usize;
        let dof = (d & 0xffff_ffff) as usize;
        let src = self.obj(st, s >> 32)?;
        if so + n > src.data.len() {
            return er(format!("memcpy source out of bounds: offset {} size {} of {}", so, n, src.data.len()));
        }
        let data = src.data[so..so + n].to_vec();
        let sym: Option<Vec<SB>> = if src.nsym > 0 && src.sym[so..so + n].iter().any(|b| b.e != 0) { Some(src.sym[so..so + n].to_vec()) } else { None };
        let dst = self.obj_mut(st, d >> 32)?;
        if dof + n > dst.data.len() {
            return er(format!("memcpy destination out of bounds: offset {} size {} of {}", dof, n, dst.data.len()));
        }
        dst.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            None => {
                if dst.nsym > 0 {
                    for b in &mut dst.sym[dof..dof + n] {
                        if b.e != 0 {
                            b.e = 0;
                            dst.nsym -= 1;
                        }
                    }
                }
            }
            Some(sy) => {
                if dst.sym.is_empty() {
                    dst.sym = vec![SB { e: 0, k: 0 }; dst.data.len()];
                }
                for (i, b) in sy.into_iter().enumerate() {
                    let old = &mut dst.sym[dof + i];
                    if old.e != 0 {
                        dst.nsym -= 1;
                    }
                    if b.e != 0 {
                        dst.nsym += 1;
                    }
                    *old = b;
                }
            }
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, addr: u64) -> X<Val> {
        self.read(st, addr, Slot { off: 0, w: 8, bytes: 1 })
    }

    // ------------------------------------------------------------ values

    fn val(&self, e: E) -> Val {
        let n = &self.ar.n[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            cval(n.val as u64)
        } else {
            Val { sym: e, v: 0 }
        }
    }
    fn ex(&mut self, v: Val, w: u32) -> E {
        if v.sym != 0 {
            v.sym
        } else {
            self.ar.konst(w, v.v as u128)
        }
    }
    /// Resolve expressions whose variables are all pinned on this path.
    fn norm(&mut self, st: &State, v: Val) -> Val {
        if v.sym == 0 {
            return v;
        }
        let e = v.sym as usize;
        if self.ar.supp[e] & !st.pinned == 0 {
            let w = self.ar.n[e].w;
            if w <= 64 {
                let x = self.ar.eval(v.sym, &st.model);
                return cval(x as u64);
            } else if self.ar.supp[e] != 0 {
                let x = self.ar.eval(v.sym, &st.model);
                let k = self.ar.konst(w as u32, x);
                return Val { sym: k, v: 0 };
            }
        }
        v
    }

    // ------------------------------------------------------------ constraints

    fn var_hi(&self, v: E) -> u64 {
        (self.ar.n[v as usize].val >> 32) as u64
    }

    fn single_var(&self, e: E) -> Option<u32> {
        let s = self.ar.supp[e as usize];
        if s.count_ones() == 1 {
            let i = s.trailing_zeros();
            if i < SAT_BIT {
                return Some(i);
            }
        }
        None
    }

    /// Add a constraint that holds under the state's model.
    fn add(&mut self, st: &mut State, c: E) {
        if self.ar.cv(c).is_some() {
            return;
        }
        let n = self.ar.n[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if self.ar.supp[c as usize] & !st.pinned == 0 {
            return; // implied by pins (true under model)
        }
        st.pc.push(c);
        if let Some(i) = self.single_var(c) {
            let v = st.vars[i as usize];
            let hi = self.var_hi(v);
            if hi <= 255 {
                let t = self.ar.table(c, i, hi);
                let d = &mut st.doms[i as usize];
                for k in 0..4 {
                    d[k] &= t[k];
                }
                if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    st.pinned |= vbit(i);
                }
                return;
            }
            if n.op == Op::Eq && n.a == v && self.ar.cv(n.b).is_some() {
                st.pinned |= vbit(i);
            }
        }
        st.multi.push(c);
        st.multi_vars |= self.ar.supp[c as usize];
    }

    /// Is PC /\ c satisfiable?  Returns model updates if so.
    fn solve(&mut self, st: &State, c: E) -> X<Option<Vec<(u32, u64)>>> {
        if let Some(k) = self.ar.cv(c) {
            return Ok(if k == 1 { Some(vec![]) } else { None });
        }
        if let Some(i) = self.single_var(c) {
            let v = st.vars[i as usize];
            let hi = self.var_hi(v);
            if hi <= 255 {
                let mut t = self.ar.table(c, i, hi);
                for k in 0..4 {
                    t[k] &= st.doms[i as usize][k];
                }
                let cnt: u32 = t.iter().map(|x| x.count_ones()).sum();
                if cnt == 0 {
                    self.st.dom_unsat += 1;
                    if self.st.dom_unsat % 64 == 1 {
                        self.crosscheck(st, c, false)?;
                    }
                    return Ok(None);
                }
                if st.multi_vars & vbit(i) == 0 {
                    self.st.dom_sat += 1;
                    if self.st.dom_sat % 64 == 1 {
                        self.crosscheck(st, c, true)?;
                    }
                    for k in 0..4 {
                        if t[k] != 0 {
                            return Ok(Some(vec![(i, k as u64 * 64 + t[k].trailing_zeros() as u64)]));
                        }
                    }
                }
            }
        }
        // slice
        let mut s = self.ar.supp[c as usize];
        let sat = vbit(SAT_BIT);
        let mut used = vec![false; st.multi.len()];
        let mut cs: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (k, &m) in st.multi.iter().enumerate() {
                if !used[k] {
                    let ms = self.ar.supp[m as usize];
                    if ms & s & !st.pinned != 0 || (ms & s & sat != 0) {
                        used[k] = true;
                        cs.push(m);
                        s |= ms;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut vars: Vec<E> = vec![];
        let mut vi: Vec<u32> = vec![];
        for (i, &v) in st.vars.iter().enumerate() {
            if s & vbit(i as u32) != 0 {
                vars.push(v);
                vi.push(i as u32);
            }
        }
        for (k, &i) in vi.iter().enumerate() {
            if st.pinned & vbit(i) != 0 && i < SAT_BIT {
                let w = self.ar.w(vars[k]);
                let kk = self.ar.konst(w, st.model[i as usize] as u128);
                let q = self.ar.bin(Op::Eq, vars[k], kk);
                cs.push(q);
            }
        }
        for &p in &st.pc {
            let ps = self.ar.supp[p as usize];
            if ps & s != 0 && ps.count_ones() == 1 && ps & st.pinned == 0 {
                cs.push(p);
            }
        }
        cs.push(c);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        if !self.force_smt {
            if let Some(out) = self.joint(st, &cs, &vars, &vi)? {
                self.cache.insert(cs, out.clone());
                return Ok(out);
            }
        }
        let (r, vals) = self.z3.check(&mut self.ar, &cs, &vars);
        let out = match r {
            Res::Sat => Some(vi.iter().copied().zip(vals).collect::<Vec<_>>()),
            Res::Unsat => None,
            Res::Unknown => return er("solver returned unknown"),
        };
        if let Some(m) = &out {
            // sanity: the model satisfies the query in our own semantics
            let mut md = st.model.clone();
            for &(i, v) in m {
                md[i as usize] = v;
            }
            for &q in &cs {
                if self.ar.eval(q, &md) != 1 {
                    return er("solver model does not satisfy the query (encoding error)");
                }
            }
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(cs, out.clone());
        Ok(out)
    }

    /// Finite-domain evaluation of a small joint domain, for queries with multiplications or
    /// divisions (decimal conversion) that are slow to bit-blast.  `None`: not applicable.
    fn joint(&mut self, st: &State, cs: &[E], vars: &[E], vi: &[u32]) -> X<Option<Option<Vec<(u32, u64)>>>> {
        if !cs.iter().any(|&c| self.ar.is_hard(c)) {
            return Ok(None);
        }
        let mut doms: Vec<Vec<u64>> = vec![];
        let mut prod = 1usize;
        for (k, &i) in vi.iter().enumerate() {
            if i >= SAT_BIT || self.var_hi(vars[k]) > 255 {
                return Ok(None);
            }
            let d: Vec<u64> = if st.pinned & vbit(i) != 0 {
                vec![st.model[i as usize]]
            } else {
                (0..=self.var_hi(vars[k])).filter(|x| st.doms[i as usize][(x >> 6) as usize] >> (x & 63) & 1 == 1).collect()
            };
            prod = prod.saturating_mul(d.len());
            doms.push(d);
        }
        if prod == 0 || prod > 4096 {
            return Ok(None);
        }
        let mut md = st.model.clone();
        let mut ix = vec![0usize; vi.len()];
        let mut found = None;
        'all: loop {
            for (k, &i) in vi.iter().enumerate() {
                md[i as usize] = doms[k][ix[k]];
            }
            let mut ok = true;
            for &q in cs.iter().rev() {
                if self.ar.eval(q, &md) != 1 {
                    ok = false;
                    break;
                }
            }
            if ok {
                found = Some(vi.iter().map(|&i| (i, md[i as usize])).collect::<Vec<_>>());
                break;
            }
            let mut k = 0;
            loop {
                if k == ix.len() {
                    break 'all;
                }
                ix[k] += 1;
                if ix[k] < doms[k].len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
        }
        if found.is_some() {
            self.st.dom_sat += 1;
        } else {
            self.st.dom_unsat += 1;
        }
        self.st.joint += 1;
        if self.st.joint % 64 == 1 {
            let (r, _) = self.z3.check(&mut self.ar, cs, vars);
            self.st.cross += 1;
            if (r == Res::Sat) != found.is_some() {
                return er("finite-domain fast path disagrees with the SMT solver");
            }
        }
        Ok(Some(found))
    }

    /// Confirm a verdict of the finite-domain fast path with the SMT solver.
    fn crosscheck(&mut self, st: &State, c: E, expect: bool) -> X<()> {
        let i = self.single_var(c).unwrap();
        let mut cs: Vec<E> = st.pc.iter().copied().filter(|&p| self.ar.supp[p as usize] == vbit(i)).collect();
        cs.push(c);
        let v = [st.vars[i as usize]];
        let (r, _) = self.z3.check(&mut self.ar, &cs, &v);
        self.st.cross += 1;
        if (r == Res::Sat) != expect {
            return er("finite-domain fast path disagrees with the SMT solver");
        }
        Ok(())
    }

    fn apply(&self, st: &mut State, upd: &[(u32, u64)]) {
        for &(i, v) in upd {
            st.model[i as usize] = v;
        }
    }

    /// Case split on `conds` (exclusive and exhaustive).  Returns the case of the current
    /// state and the forked states.
    fn split(&mut self, st: &mut State, conds: &[E]) -> X<(usize, Vec<(usize, State)>)> {
        let mut cur = usize::MAX;
        let mut others = vec![];
        for (k, &c) in conds.iter().enumerate() {
            if cur == usize::MAX && self.ar.eval(c, &st.model) == 1 {
                cur = k;
                continue;
            }
            if let Some(u) = self.solve(st, c)? {
                let mut o = st.clone();
                self.apply(&mut o, &u);
                self.add(&mut o, c);
                o.forks += 1;
                others.push((k, o));
            }
        }
        if cur == usize::MAX {
            return er("no case holds under the model");
        }
        if !others.is_empty() {
            st.forks += 1;
            self.st.forks += others.len() as u64;
            let fr = st.frames.last().unwrap();
            *self.fork_sites.entry((fr.f.id, fr.pc as u32)).or_default() += others.len() as u64;
        }
        self.st.max_depth = self.st.max_depth.max(st.forks);
        self.add(st, conds[cur]);
        Ok((cur, others))
    }

    /// Distinct feasible values of `e` (None if more than `limit`).
    fn values(&mut self, st: &State, e: E, limit: usize) -> X<Option<Vec<u64>>> {
        let w = self.ar.w(e);
        let first = self.ar.eval(e, &st.model) as u64;
        let mut out = vec![first];
        if let Some(i) = self.single_var(e) {
            let hi = self.var_hi(st.vars[i as usize]);
            if hi <= 255 {
                let mut md = st.model.clone();
                for x in 0..=hi {
                    if st.doms[i as usize][(x >> 6) as usize] >> (x & 63) & 1 == 0 {
                        continue;
                    }
                    md[i as usize] = x;
                    let v = self.ar.eval(e, &md) as u64;
                    if out.contains(&v) {
                        continue;
                    }
                    if st.multi_vars & vbit(i) != 0 {
                        let k = self.ar.konst(w, v as u128);
                        let q = self.ar.bin(Op::Eq, e, k);
                        if self.solve(st, q)?.is_none() {
                            continue;
                        }
                    }
                    out.push(v);
                    if out.len() > limit {
                        return Ok(None);
                    }
                }
                return Ok(Some(out));
            }
        }
        loop {
            let mut q = self.ar.konst(1, 1);
            for &v in &out {
                let k = self.ar.konst(w, v as u128);
                let x = self.ar.bin(Op::Eq, e, k);
                let x = self.ar.not(x);
                q = self.ar.bin(Op::And, q, x);
            }
            match self.solve(st, q)? {
                None => return Ok(Some(out)),
                Some(u) => {
                    let mut md = st.model.clone();
                    for (i, v) in u {
                        md[i as usize] = v;
                    }
                    let v = self.ar.eval(e, &md) as u64;
                    if out.contains(&v) {
                        return er("value enumeration stuck");
                    }
                    out.push(v);
                    if out.len() > limit {
                        return Ok(None);
                    }
                }
            }
        }
    }

    /// Fork so that `v` has a single value; forks re-execute the current instruction.
    fn conc(&mut self, st: &mut State, v: Val, w: u32) -> X<u64> {
        let v = self.norm(st, v);
        if v.sym == 0 {
            return Ok(v.v);
        }
        self.st.concretizations += 1;
        let vals = match self.values(st, v.sym, 512)? {
            Some(v) => v,
            None => return er("too many values to concretise"),
        };
        let mut conds = vec![];
        for x in &vals {
            let k = self.ar.konst(w, *x as u128);
            conds.push(self.ar.bin(Op::Eq, v.sym, k));
        }
        let (k, others) = self.split(st, &conds)?;
        for (_, o) in others {
            self.stack.push(o);
        }
        Ok(vals[k])
    }

    /// Concretise variables of an over-complex expression, one at a time.
    fn simplify_by_case(&mut self, st: &mut State, e: E) -> X<Val> {
        let mut e = e;
        loop {
            let s = self.ar.supp[e as usize] & !st.pinned;
            if s == 0 {
                let v = Val { sym: e, v: 0 };
                return Ok(self.norm(st, v));
            }
            let i = s.trailing_zeros();
            if i >= SAT_BIT {
                return er("too complex expression over too many variables");
            }
            let v = st.vars[i as usize];
            let w = self.ar.w(v);
            self.conc(st, Val { sym: v, v: 0 }, w)?;
            e = e;
        }
    }

    fn limit(&mut self, st: &mut State, e: E) -> X<Val> {
        let z = self.ar.size[e as usize];
        let w = self.ar.w(e);
        if z > COMPLEX && (w > 1 || z > COMPLEX1) {
            return self.simplify_by_case(st, e);
        }
        Ok(self.val(e))
    }

    // ------------------------------------------------------------ reporting

    fn input_values(&mut self, st: &State) -> Vec<u64> {
        st.inputs.iter().map(|i| if i.var == 0 { i.lo } else { i.lo + st.model[self.ar.var_idx(i.var) as usize] }).collect()
    }
    fn note_values(&mut self, st: &State) -> Vec<(u32, Vec<u8>)> {
        let mut out = vec![];
        for n in st.notes.iter() {
            let mut b = vec![];
            for v in &n.bytes {
                b.push(if v.sym == 0 { v.v as u8 } else { self.ar.eval(v.sym, &st.model) as u8 });
            }
            out.push((n.kind, b));
        }
        out
    }
    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{}@{}", f.f.short, f.pc)).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let v = Violation { kind: kind.into(), msg, trace: self.trace(st), inputs: self.input_values(st), notes: self.note_values(st) };
        self.viol.push(v);
    }

    fn path(&mut self, mut st: State) {
        let start = st.icount;
        let r = self.exec(&mut st);
        self.st.instrs += st.icount - start;
        self.st.max_icount = self.st.max_icount.max(st.icount);
        match r {
            Ok(()) => unreachable!(),
            Err(Stop::Done) => {
                self.st.paths += 1;
                for r in st.reached.iter() {
                    *self.reach.entry(*r).or_default() += 1;
                }
                // reservoir of completed paths for native replay
                let n = self.st.paths;
                if self.opts.samples > 0 {
                    let keep = n <= 4 || n.is_power_of_two() || n % 997 == 0;
                    if keep {
                        let s = PathSample { inputs: self.input_values(&st), notes: self.note_values(&st), checks: st.nchecks };
                        if self.samples.len() < self.opts.samples {
                            self.samples.push(s);
                        } else {
                            let k = (n as usize * 7919) % self.opts.samples;
                            self.samples[k] = s;
                        }
                    }
                }
            }
            Err(Stop::Assume) => self.st.assumed += 1,
            Err(Stop::Panic(m)) => self.violation(&st, "panic", m),
            Err(Stop::Check(m)) => self.violation(&st, "check", m),
            Err(Stop::Budget) => {
                let m = format!("path exceeded {} instructions (suspected non-termination)", self.opts.max_icount);
                self.violation(&st, "hang", m)
            }
            Err(Stop::Err(m)) => {
                let t = self.trace(&st).join(" < ");
                let iv = self.input_values(&st);
                self.errors.push(format!("{} [{}] inputs {:?}", m, t, iv));
            }
        }
    }

    fn take_edge(&mut self, st: &mut State, e: &'static Edge) {
        let fr = st.frames.last_mut().unwrap();
        fr.pc = e.target as usize;
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, o) = &e.moves[0];
                let v = get(&fr.regs, o);
                fr.regs[*d as usize] = v;
            }
            _ => {
                self.scratch.clear();
                for (_, o) in e.moves.iter() {
                    self.scratch.push(get(&fr.regs, o));
                }
                for (k, (d, _)) in e.moves.iter().enumerate() {
                    fr.regs[*d as usize] = self.scratch[k];
                }
            }
        }
    }

    // ------------------------------------------------------------ instructions

    fn binop(&mut self, st: &mut State, op: Op, w: u32, a: Val, b: Val) -> X<Val> {
        if a.sym == 0 && b.sym == 0 && w <= 64 {
            let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
            let (x, y) = (a.v, b.v);
            let r = match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => return er("division by zero"),
                _ => fold(op, w, x as u128, y as u128, 0, 0, w, w) as u64,
            };
            return Ok(cval(r));
        }
        let a = self.norm(st, a);
        let b = self.norm(st, b);
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.bin(op, x, y);
        self.limit(st, e)
    }
    fn cmp(&mut self, st: &mut State, p: Pred, w: u32, a: Val, b: Val) -> X<Val> {
        if a.sym == 0 && b.sym == 0 && w <= 64 {
            let (x, y) = (a.v, b.v);
            let sx = || ((x << (64 - w)) as i64) >> (64 - w);
            let sy = || ((y << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx() < sy(),
                Pred::Sle => sx() <= sy(),
                Pred::Sgt => sx() > sy(),
                Pred::Sge => sx() >= sy(),
            };
            return Ok(cval(r as u64));
        }
        let a = self.norm(st, a);
        let b = self.norm(st, b);
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.limit(st, e)
    }
    fn cast(&mut self, st: &mut State, c: CastOp, fw: u32, tw: u32, v: Val) -> Val {
        if v.sym == 0 && tw <= 64 {
            return match c {
                CastOp::ZExt | CastOp::Nop => v,
                CastOp::Trunc => cval(v.v & (mask(tw) as u64)),
                CastOp::SExt => cval((sext(v.v as u128, fw) as u128 & mask(tw)) as u64),
            };
        }
        let v = self.norm(st, v);
        let e = self.ex(v, fw);
        let r = match c {
            CastOp::Nop => e,
            CastOp::ZExt => self.ar.zext(e, tw),
            CastOp::SExt => self.ar.sext(e, tw),
            CastOp::Trunc => self.ar.extract(e, 0, tw),
        };
        self.val(r)
    }
    fn select(&mut self, st: &mut State, c: Val, a: Val, b: Val, w: u32) -> X<Val> {
        let c = self.norm(st, c);
        if c.sym == 0 {
            return Ok(if c.v & 1 != 0 { a } else { b });
        }
        if a == b {
            return Ok(a);
        }
        let a = self.norm(st, a);
        let b = self.norm(st, b);
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.ite(c.sym, x, y);
        self.limit(st, e)
    }

    fn load(&mut self, st: &mut State, p: Val, s: Slot) -> X<Val> {
        let p = self.norm(st, p);
        if p.sym == 0 {
            return self.read(st, p.v + s.off as u64, s);
        }
        if let Some(vals) = self.values(st, p.sym, 300)? {
            // same-object symbolic index: build an if-then-else over the feasible addresses
            let mut acc: Option<E> = None;
            let mut groups: Vec<(Val, Vec<u64>)> = vec![];
            for a in vals {
                let v = self.read(st, a + s.off as u64, s)?;
                let v = self.norm(st, v);
                match groups.iter_mut().find(|(x, _)| *x == v) {
                    Some((_, l)) => l.push(a),
                    None => groups.push((v, vec![a])),
                }
            }
            // largest group last (as the default)
            groups.sort_by_key(|(_, l)| std::cmp::Reverse(l.len()));
            for (v, l) in groups {
                let x = self.ex(v, s.w as u32);
                acc = Some(match acc {
                    None => x,
                    Some(prev) => {
                        let mut c = self.ar.konst(1, 0);
                        for a in l {
                            let k = self.ar.konst(64, a as u128);
                            let q = self.ar.bin(Op::Eq, p.sym, k);
                            c = self.ar.bin(Op::Or, c, q);
                        }
                        self.ar.ite(c, x, prev)
                    }
                });
            }
            let e = acc.unwrap();
            return self.limit(st, e);
        }
        let a = self.conc(st, p, 64)?;
        self.read(st, a + s.off as u64, s)
    }

    fn cond_br(&mut self, st: &mut State, c: E) -> X<(bool, Option<State>)> {
        let nc = self.ar.not(c);
        let (k, mut o) = self.split(st, &[c, nc])?;
        Ok((k == 0, o.pop().map(|x| x.1)))
    }

    fn exec(&mut self, st: &mut State) -> X<()> {
        let prog: &'static Program = self.prog;
        loop {
            let fi = st.frames.len() - 1;
            let fr = &mut st.frames[fi];
            let f: &'static Function = fr.f;
            let inst: &'static Inst = &f.code[fr.pc];
            st.icount += 1;
            if st.icount > self.opts.max_icount {
                return Err(Stop::Budget);
            }
            if st.icount & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.opts.time {
                self.timed_out = true;
                return Err(Stop::Assume);
            }
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    let x = get(&fr.regs, a);
                    let y = get(&fr.regs, b);
                    let r = self.binop(st, *op, *w as u32, x, y)?;
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Flt(o, w, tw, d, a, b) => {
                    let x = get(&fr.regs, a);
                    let y = get(&fr.regs, b);
                    let x = self.conc(st, x, *w as u32)?;
                    let y = self.conc(st, y, *w as u32)?;
                    let r = float_op(*o, *w, *tw, x, y);
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = cval(r);
                    fr.pc += 1;
                }
                Inst::Cmp(p, w, d, a, b) => {
                    let x = get(&fr.regs, a);
                    let y = get(&fr.regs, b);
                    let r = self.cmp(st, *p, *w as u32, x, y)?;
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Cast(c, fw, tw, d, a) => {
                    let x = get(&fr.regs, a);
                    let r = self.cast(st, *c, *fw as u32, *tw as u32, x);
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Select(d, c, l) => {
                    let cv = get(&fr.regs, c);
                    let mut k = *d as usize;
                    for (a, b, w) in l.iter() {
                        let (x, y) = {
                            let r = &st.frames[fi].regs;
                            (get(r, a), get(r, b))
                        };
                        let v = self.select(st, cv, x, y, *w as u32)?;
                        st.frames[fi].regs[k] = v;
                        k += 1;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::VSelect(d, l) => {
                    let mut k = *d as usize;
                    for (c, a, b, w) in l.iter() {
                        let (c, x, y) = {
                            let r = &st.frames[fi].regs;
                            (get(r, c), get(r, a), get(r, b))
                        };
                        let v = self.select(st, c, x, y, *w as u32)?;
                        st.frames[fi].regs[k] = v;
                        k += 1;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::VBin(op, w, d, l) => {
                    let mut k = *d as usize;
                    for (a, b) in l.iter() {
                        let (x, y) = {
                            let r = &st.frames[fi].regs;
                            (get(r, a), get(r, b))
                        };
                        let v = self.binop(st, *op, *w as u32, x, y)?;
                        st.frames[fi].regs[k] = v;
                        k += 1;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::VCmp(p, w, d, l) => {
                    let mut k = *d as usize;
                    for (a, b) in l.iter() {
                        let (x, y) = {
                            let r = &st.frames[fi].regs;
                            (get(r, a), get(r, b))
                        };
                        let v = self.cmp(st, *p, *w as u32, x, y)?;
                        st.frames[fi].regs[k] = v;
                        k += 1;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::VCast(c, fw, tw, d, l) => {
                    let mut k = *d as usize;
                    for a in l.iter() {
                        let x = get(&st.frames[fi].regs, a);
                        let v = self.cast(st, *c, *fw as u32, *tw as u32, x);
                        st.frames[fi].regs[k] = v;
                        k += 1;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::Bits(d, fw, tw, n, l) => {
                    let (fw, tw) = (*fw as u32, *tw as u32);
                    let vals: Vec<Val> = l.iter().map(|a| get(&fr.regs, a)).collect();
                    if vals.iter().all(|v| v.sym == 0) && fw as usize * vals.len() <= 64 && tw <= 64 {
                        let mut acc = 0u64;
                        for (i, v) in vals.iter().enumerate() {
                            acc |= v.v << (i as u32 * fw);
                        }
                        for k in 0..*n as u32 {
                            fr.regs[(*d + k) as usize] = cval((acc >> (k * tw)) & mask(tw) as u64);
                        }
                        fr.pc += 1;
                        continue;
                    }
                    let mut acc = 0;
                    for (i, v) in vals.into_iter().enumerate() {
                        let v = self.norm(st, v);
                        let e = self.ex(v, fw);
                        acc = if i == 0 { e } else { self.ar.concat(e, acc) };
                    }
                    for k in 0..*n as u32 {
                        let e = self.ar.extract(acc, k * tw, tw);
                        let v = self.val(e);
                        st.frames[fi].regs[(*d + k) as usize] = v;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::Load1(d, s, p) => {
                    let a = get(&fr.regs, p);
                    let v = if a.sym == 0 { self.read(st, a.v, *s)? } else { self.load(st, a, *s)? };
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                Inst::LoadN(d, ss, p) => {
                    let a = get(&fr.regs, p);
                    for (k, s) in ss.iter().enumerate() {
                        let v = self.load(st, a, *s)?;
                        st.frames[fi].regs[*d as usize + k] = v;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::Store1(s, v, p) => {
                    let mut a = get(&fr.regs, p);
                    let v = get(&fr.regs, v);
                    if a.sym != 0 {
                        a = cval(self.conc(st, a, 64)?);
                    }
                    let v = self.norm(st, v);
                    self.write(st, a.v + s.off as u64, *s, v)?;
                    st.frames[fi].pc += 1;
                }
                Inst::StoreN(ss, p) => {
                    let a = get(&fr.regs, p);
                    let a = self.conc(st, a, 64)?;
                    for (s, v) in ss.iter() {
                        let v = get(&st.frames[fi].regs, v);
                        let v = self.norm(st, v);
                        self.write(st, a + s.off as u64, *s, v)?;
                    }
                    st.frames[fi].pc += 1;
                }
                Inst::Alloca(d, n) => {
                    let id = self.alloc(st, *n as u64);
                    let fr = &mut st.frames[fi];
                    fr.allocas.push(id);
                    fr.regs[*d as usize] = cval(addr_of_obj(id));
                    fr.pc += 1;
                }
                Inst::Gep(d, b, off, terms) => {
                    let mut v = get(&fr.regs, b);
                    if v.sym == 0 {
                        v.v = v.v.wrapping_add(*off as u64);
                    } else if *off != 0 {
                        v = self.binop(st, Op::Add, 64, v, cval(*off as u64))?;
                    }
                    for (o, w, sc) in terms.iter() {
                        let x = get(&st.frames[fi].regs, o);
                        if x.sym == 0 && v.sym == 0 {
                            let k = sext(x.v as u128, *w as u32) as i64;
                            v.v = v.v.wrapping_add((k.wrapping_mul(*sc)) as u64);
                        } else {
                            let x = self.cast(st, CastOp::SExt, *w as u32, 64, x);
                            let y = self.binop(st, Op::Mul, 64, x, cval(*sc as u64))?;
                            v = self.binop(st, Op::Add, 64, v, y)?;
                        }
                    }
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                Inst::Br(e) => self.take_edge(st, e),
                Inst::CondBr(c, a, b) => {
                    let v = get(&fr.regs, c);
                    let v = self.norm(st, v);
                    if v.sym == 0 {
                        self.take_edge(st, if v.v & 1 != 0 { a } else { b });
                    } else {
                        let (t, o) = self.cond_br(st, v.sym)?;
                        if let Some(mut o) = o {
                            self.take_edge(&mut o, if t { b } else { a });
                            self.stack.push(o);
                        }
                        self.take_edge(st, if t { a } else { b });
                    }
                }
                Inst::Switch(c, w, map, edges) => {
                    let v = get(&fr.regs, c);
                    let v = self.norm(st, v);
                    if v.sym == 0 {
                        let k = map.get(&v.v).copied().unwrap_or(0);
                        self.take_edge(st, &edges[k as usize]);
                    } else {
                        let mut conds = vec![0; edges.len()];
                        for c in conds.iter_mut() {
                            *c = self.ar.konst(1, 0);
                        }
                        let mut keys: Vec<(u64, u32)> = map.iter().map(|(a, b)| (*a, *b)).collect();
                        keys.sort_unstable();
                        let mut any = self.ar.konst(1, 0);
                        for (k, e) in keys {
                            let kk = self.ar.konst(*w as u32, k as u128);
                            let q = self.ar.bin(Op::Eq, v.sym, kk);
                            conds[e as usize] = self.ar.bin(Op::Or, conds[e as usize], q);
                            any = self.ar.bin(Op::Or, any, q);
                        }
                        let none = self.ar.not(any);
                        conds[0] = self.ar.bin(Op::Or, conds[0], none);
                        let (k, others) = self.split(st, &conds)?;
                        for (j, mut o) in others {
                            self.take_edge(&mut o, &edges[j]);
                            self.stack.push(o);
                        }
                        self.take_edge(st, &edges[k]);
                    }
                }
                Inst::Ret(l) => {
                    let vals: Vec<Val> = l.iter().map(|o| get(&fr.regs, o)).collect();
                    let fr = st.frames.pop().unwrap();
                    for id in fr.allocas {
                        self.set_obj(st, id, None);
                        st.free_ids.push(id);
                    }
                    if st.frames.is_empty() {
                        return Err(Stop::Done);
                    }
                    let c = st.frames.last_mut().unwrap();
                    if fr.ret_dst != u32::MAX {
                        for (k, v) in vals.into_iter().enumerate() {
                            c.regs[fr.ret_dst as usize + k] = v;
                        }
                    }
                    match fr.ret_edge {
                        Some(e) => self.take_edge(st, e),
                        None => c.pc += 1,
                    }
                }
                Inst::Unreachable => return er("unreachable executed"),
                Inst::Moves(d, l) => {
                    for (k, o) in l.iter().enumerate() {
                        let v = get(&fr.regs, o);
                        fr.regs[*d as usize + k] = v;
                    }
                    fr.pc += 1;
                }
                Inst::Rmw(d, k, s, p, v) => {
                    let a = get(&fr.regs, p);
                    let v = get(&fr.regs, v);
                    let a = self.conc(st, a, 64)?;
                    let old = self.read(st, a, *s)?;
                    let w = s.w as u32;
                    let n = match k {
                        0 => v,
                        1 => self.binop(st, Op::Add, w, old, v)?,
                        2 => self.binop(st, Op::Sub, w, old, v)?,
                        3 => self.binop(st, Op::And, w, old, v)?,
                        4 => self.binop(st, Op::Or, w, old, v)?,
                        5 => self.binop(st, Op::Xor, w, old, v)?,
                        _ => {
                            if old.sym != 0 || v.sym != 0 {
                                return er("symbolic atomic max");
                            }
                            cval(if *k == 6 { old.v.max(v.v) } else { old.v.min(v.v) })
                        }
                    };
                    self.write(st, a, *s, n)?;
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = old;
                    fr.pc += 1;
                }
                Inst::CmpXchg(d, s, p, x, y) => {
                    let (a, x, y) = (get(&fr.regs, p), get(&fr.regs, x), get(&fr.regs, y));
                    let a = self.conc(st, a, 64)?;
                    let old = self.read(st, a, *s)?;
                    let old = cval(self.conc(st, old, s.w as u32)?);
                    let x = self.conc(st, x, s.w as u32)?;
                    let ok = old.v == x;
                    if ok {
                        self.write(st, a, *s, y)?;
                    }
                    let fr = &mut st.frames[fi];
                    fr.regs[*d as usize] = old;
                    fr.regs[*d as usize + 1] = cval(ok as u64);
                    fr.pc += 1;
                }
                Inst::Bad(s) => return er(format!("unsupported instruction: {}", s)),
                Inst::Call { dst, n, callee, args, normal } => {
                    let av: Vec<Val> = args.iter().map(|o| get(&fr.regs, o)).collect();
                    let fid = match callee {
                        Callee::Intr(..) | Callee::VIntr(..) | Callee::Math(..) => {
                            let r = match callee {
                                Callee::Intr(k, w) => self.intrinsic(st, *k, *w as u32, av)?,
                                Callee::VIntr(k, w, lanes) => {
                                    let n = *lanes as usize;
                                    let mut r = vec![];
                                    for i in 0..n {
                                        let a = (0..av.len() / n).map(|k| av[k * n + i]).collect();
                                        r.extend(self.intrinsic(st, *k, *w as u32, a)?);
                                    }
                                    r
                                }
                                Callee::Math(m, w, tw) => {
                                    let mut x = vec![];
                                    for v in av {
                                        x.push(self.conc(st, v, *w as u32)?);
                                    }
                                    vec![cval(float_math(*m, *w, *tw, &x))]
                                }
                                _ => unreachable!(),
                            };
                            let fr = &mut st.frames[fi];
                            if *dst != u32::MAX {
                                for (j, v) in r.into_iter().take(*n as usize).enumerate() {
                                    fr.regs[*dst as usize + j] = v;
                                }
                            }
                            match normal {
                                Some(e) => self.take_edge(st, e),
                                None => fr.pc += 1,
                            }
                            continue;
                        }
                        Callee::Direct(f) => *f,
                        Callee::Ind(o) => {
                            let v = get(&fr.regs, o);
                            let a = self.conc(st, v, 64)?;
                            let id = a >> 32;
                            if id < FN_BASE || id >= FN_BASE + prog.funcs.len() as u64 {
                                return er(format!("indirect call to {:#x}", a));
                            }
                            (id - FN_BASE) as u32
                        }
                    };
                    let g: &'static Function = &prog.funcs[fid as usize];
                    self.covered[fid as usize] = true;
                    if let Some(x) = g.ext {
                        let r = self.external(st, g, x, av)?;
                        let fr = &mut st.frames[fi];
                        if *dst != u32::MAX {
                            for (j, v) in r.into_iter().take(*n as usize).enumerate() {
                                fr.regs[*dst as usize + j] = v;
                            }
                        }
                        match normal {
                            Some(e) => self.take_edge(st, e),
                            None => fr.pc += 1,
                        }
                        continue;
                    }
                    if st.frames.len() > 4000 {
                        return Err(Stop::Panic("stack overflow (call depth 4000)".into()));
                    }
                    if self.opts.trace {
                        eprintln!("{}{}", " ".repeat(st.frames.len()), g.short);
                    }
                    let mut regs = vec![cval(0); g.nregs as usize];
                    let k = (g.nparams as usize).min(av.len());
                    regs[..k].copy_from_slice(&av[..k]);
                    st.frames.push(Frame { f: g, pc: 0, regs, allocas: vec![], ret_dst: *dst, ret_edge: normal.as_ref() });
                }
            }
        }
    }

    fn conc_bits(&mut self, e: E) -> Vec<E> {
        (0..self.ar.w(e)).map(|i| self.ar.extract(e, i, 1)).collect()
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, w: u32, a: Vec<Val>) -> X<Vec<Val>> {
        let r1 = |v: Val| Ok(vec![v]);
        let a: Vec<Val> = a.into_iter().map(|v| self.norm(st, v)).collect();
        let m = mask(w) as u64;
        match k {
            Intr::Nop | Intr::Assume => Ok(vec![]),
            Intr::Memcpy => {
                let n = self.conc(st, a[2], 64)?;
                let d = self.conc(st, a[0], 64)?;
                let s = self.conc(st, a[1], 64)?;
                self.memcpy(st, d, s, n)?;
                Ok(vec![])
            }
            Intr::Memset => {
                let n = self.conc(st, a[2], 64)?;
                let d = self.conc(st, a[0], 64)?;
                for i in 0..n {
                    self.write(st, d + i, Slot { off: 0, w: 8, bytes: 1 }, a[1])?;
                }
                Ok(vec![])
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match k {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp(st, p, w, a[0], a[1])?;
                r1(self.select(st, c, a[0], a[1], w)?)
            }
            Intr::Abs => {
                let c = self.cmp(st, Pred::Slt, w, a[0], cval(0))?;
                let n = self.binop(st, Op::Sub, w, cval(0), a[0])?;
                r1(self.select(st, c, n, a[0], w)?)
            }
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bswap | Intr::Bitreverse => {
                let v = a[0];
                if v.sym == 0 && w <= 64 {
                    let x = v.v & m;
                    return r1(cval(match k {
                        Intr::Ctpop => x.count_ones() as u64,
                        Intr::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        Intr::Cttz => x.trailing_zeros().min(w) as u64,
                        Intr::Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    }));
                }
                let e = self.ex(v, w);
                match k {
                    Intr::Bswap => {
                        let mut acc = 0;
                        for i in 0..w / 8 {
                            let b = self.ar.extract(e, w - 8 - i * 8, 8);
                            acc = if i == 0 { b } else { self.ar.concat(b, acc) };
                        }
                        r1(self.val(acc))
                    }
                    Intr::Bitreverse => {
                        let bits = self.conc_bits(e);
                        let mut acc = 0;
                        for (i, b) in bits.iter().rev().enumerate() {
                            acc = if i == 0 { *b } else { self.ar.concat(*b, acc) };
                        }
                        r1(self.val(acc))
                    }
                    Intr::Ctpop => {
                        let bits = self.conc_bits(e);
                        let mut acc = self.ar.konst(w, 0);
                        for b in bits {
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(Op::Add, acc, z);
                        }
                        r1(self.val(acc))
                    }
                    _ => {
                        let bits = self.conc_bits(e);
                        let mut acc = self.ar.konst(w, w as u128);
                        let n = bits.len();
                        for i in 0..n {
                            // last assignment wins: lowest bit for cttz, highest for ctlz
                            let j = if k == Intr::Cttz { n - 1 - i } else { i };
                            let val = if k == Intr::Cttz { j as u128 } else { (n - 1 - j) as u128 };
                            let kk = self.ar.konst(w, val);
                            acc = self.ar.ite(bits[j], kk, acc);
                        }
                        let v = self.limit(st, acc)?;
                        r1(v)
                    }
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(st, a[2], w)? % w as u64;
                if s == 0 {
                    return r1(if k == Intr::Fshl { a[0] } else { a[1] });
                }
                let (l, r) = if k == Intr::Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let x = self.binop(st, Op::Shl, w, a[0], cval(l))?;
                let y = self.binop(st, Op::LShr, w, a[1], cval(r))?;
                r1(self.binop(st, Op::Or, w, x, y)?)
            }
            Intr::UAddO => {
                let r = self.binop(st, Op::Add, w, a[0], a[1])?;
                let o = self.cmp(st, Pred::Ult, w, r, a[0])?;
                Ok(vec![r, o])
            }
            Intr::USubO => {
                let r = self.binop(st, Op::Sub, w, a[0], a[1])?;
                let o = self.cmp(st, Pred::Ult, w, a[0], a[1])?;
                Ok(vec![r, o])
            }
            Intr::UMulO => {
                if w > 64 {
                    return er("umulo width");
                }
                if a[0].sym == 0 && a[1].sym == 0 {
                    let p = a[0].v as u128 * a[1].v as u128;
                    return Ok(vec![cval(p as u64 & m), cval((p > mask(w)) as u64)]);
                }
                let x = self.ex(a[0], w);
                let y = self.ex(a[1], w);
                if self.ar.hi[x as usize] as u128 * self.ar.hi[y as usize] as u128 <= mask(w) {
                    let r = self.ar.bin(Op::Mul, x, y);
                    return Ok(vec![self.val(r), cval(0)]);
                }
                let x = self.ar.zext(x, 2 * w);
                let y = self.ar.zext(y, 2 * w);
                let p = self.ar.bin(Op::Mul, x, y);
                let h = self.ar.extract(p, w, w);
                let l = self.ar.extract(p, 0, w);
                let z = self.ar.konst(w, 0);
                let q = self.ar.bin(Op::Eq, h, z);
                let q = self.ar.not(q);
                Ok(vec![self.val(l), self.val(q)])
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return er("saddo width");
                }
                let x = self.ex(a[0], w);
                let y = self.ex(a[1], w);
                let (p, q) = (self.ar.srange(x), self.ar.srange(y));
                let (half, l, h) = (1i128 << (w - 1), p.0.max(q.0), p.1.min(q.1));
                let (l, h) = match k {
                    Intr::SAddO => (p.0 + q.0, p.1 + q.1),
                    Intr::SSubO => (p.0 - q.1, p.1 - q.0),
                    _ if p.0 >= -(1 << 31) && q.0 >= -(1 << 31) && p.1 < 1 << 31 && q.1 < 1 << 31 && w == 64 => (0, 0),
                    _ => (l.min(i128::MIN / 4), h),
                };
                if l >= -half && h < half {
                    let o = match k {
                        Intr::SAddO => Op::Add,
                        Intr::SSubO => Op::Sub,
                        _ => Op::Mul,
                    };
                    let r = self.ar.bin(o, x, y);
                    return Ok(vec![self.val(r), cval(0)]);
                }
                let x = self.ar.sext(x, 2 * w);
                let y = self.ar.sext(y, 2 * w);
                let o = match k {
                    Intr::SAddO => Op::Add,
                    Intr::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let p = self.ar.bin(o, x, y);
                let l = self.ar.extract(p, 0, w);
                let s = self.ar.sext(l, 2 * w);
                let q = self.ar.bin(Op::Eq, p, s);
                let q = self.ar.not(q);
                Ok(vec![self.val(l), self.val(q)])
            }
            Intr::USubSat => {
                let c = self.cmp(st, Pred::Ult, w, a[0], a[1])?;
                let r = self.binop(st, Op::Sub, w, a[0], a[1])?;
                r1(self.select(st, c, cval(0), r, w)?)
            }
            Intr::UAddSat => {
                let r = self.binop(st, Op::Add, w, a[0], a[1])?;
                let c = self.cmp(st, Pred::Ult, w, r, a[0])?;
                r1(self.select(st, c, cval(m), r, w)?)
            }
            Intr::Scmp | Intr::Ucmp => {
                // result width is 8 in rustc output
                let (lt, gt) = if k == Intr::Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = self.cmp(st, lt, w, a[0], a[1])?;
                let g = self.cmp(st, gt, w, a[0], a[1])?;
                let x = self.select(st, g, cval(1), cval(0), 8)?;
                r1(self.select(st, l, cval(0xff), x, 8)?)
            }
            Intr::IsConstant => r1(cval(0)),
            Intr::ThreadLocal => r1(a[0]),
            Intr::Expect => r1(a[0]),
            Intr::Trap => Err(Stop::Panic("trap".into())),
            Intr::LoadRel => {
                let p = a[0];
                let off = self.conc(st, a[1], 64)?;
                let id = p.v >> 32;
                let o = (p.v & 0xffff_ffff) as u32 + off as u32;
                match self.prog.globals.get(id as usize - 1).and_then(|g| g.rel.get(&o)) {
                    Some(t) => r1(cval(*t)),
                    None => er("load.relative"),
                }
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd | Intr::VecReduceMax | Intr::VecReduceMin => {
                let mut acc = a[0];
                for &v in &a[1..] {
                    acc = match k {
                        Intr::VecReduceOr => self.binop(st, Op::Or, w, acc, v)?,
                        Intr::VecReduceAnd => self.binop(st, Op::And, w, acc, v)?,
                        Intr::VecReduceAdd => self.binop(st, Op::Add, w, acc, v)?,
                        _ => {
                            let p = if k == Intr::VecReduceMax { Pred::Ugt } else { Pred::Ult };
                            let c = self.cmp(st, p, w, acc, v)?;
                            self.select(st, c, acc, v, w)?
                        }
                    };
                }
                r1(acc)
            }
        }
    }

    fn cstr(&mut self, st: &State, a: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(400) {
            match self.byte(st, a + i) {
                Ok(v) if v.sym == 0 => s.push(v.v as u8),
                Ok(_) => s.push(b'?'),
                Err(_) => break,
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    fn new_input(&mut self, st: &mut State, lo: u64, hi: u64) -> E {
        let idx = st.vars.len() as u32;
        let span = hi - lo;
        let v = self.ar.var(idx, span);
        st.vars.push(v);
        let mut d = [0u64; 4];
        if span <= 255 {
            for x in 0..=span {
                d[(x >> 6) as usize] |= 1 << (x & 63);
            }
        }
        st.doms.push(d);
        st.model.push(0);
        Rc::make_mut(&mut st.inputs).push(Input { lo, var: v });
        v
    }

    fn external(&mut self, st: &mut State, g: &'static Function, x: Ext, a: Vec<Val>) -> X<Vec<Val>> {
        let r1 = |v: u64| Ok(vec![cval(v)]);
        match x {
            Ext::Malloc | Ext::RustAlloc | Ext::RustAllocZeroed => {
                let n = self.conc(st, a[0], 64)?;
                if n > 1 << 24 {
                    return er(format!("huge allocation {}", n));
                }
                let id = self.alloc(st, n);
                r1(addr_of_obj(id))
            }
            Ext::Calloc => {
                let n = self.conc(st, a[0], 64)?;
                let k = self.conc(st, a[1], 64)?;
                if n.saturating_mul(k) > 1 << 24 {
                    return er("huge allocation");
                }
                let id = self.alloc(st, n * k);
                r1(addr_of_obj(id))
            }
            Ext::Realloc | Ext::RustRealloc => {
                let p = self.conc(st, a[0], 64)?;
                let n = self.conc(st, a[if x == Ext::Realloc { 1 } else { 3 }], 64)?;
                if n > 1 << 24 {
                    return er("huge allocation");
                }
                let id = self.alloc(st, n);
                if p != 0 {
                    let old = self.obj(st, p >> 32)?.data.len() as u64;
                    self.memcpy(st, addr_of_obj(id), p, old.min(n))?;
                    self.free(st, p)?;
                }
                r1(addr_of_obj(id))
            }
            Ext::Free | Ext::RustDealloc => {
                let p = self.conc(st, a[0], 64)?;
                self.free(st, p)?;
                Ok(vec![])
            }
            Ext::PosixMemalign => {
                let p = self.conc(st, a[0], 64)?;
                let n = self.conc(st, a[2], 64)?;
                let id = self.alloc(st, n);
                self.write(st, p, Slot { off: 0, w: 64, bytes: 8 }, cval(addr_of_obj(id)))?;
                r1(0)
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, a[2], 64)?;
                let p = self.conc(st, a[0], 64)?;
                let q = self.conc(st, a[1], 64)?;
                let mut acc = self.ar.konst(32, 0);
                let one = self.ar.konst(32, 1);
                let mone = self.ar.konst(32, 0xffff_ffff);
                if x == Ext::Bcmp {
                    let mut all = self.ar.konst(1, 1);
                    for i in 0..n {
                        let u = self.byte(st, p + i)?;
                        let v = self.byte(st, q + i)?;
                        if u.sym == 0 && v.sym == 0 {
                            if u.v != v.v {
                                return r1(1);
                            }
                            continue;
                        }
                        let (u, v) = (self.norm(st, u), self.norm(st, v));
                        let (u, v) = (self.ex(u, 8), self.ex(v, 8));
                        let q = self.ar.bin(Op::Eq, u, v);
                        all = self.ar.bin(Op::And, all, q);
                    }
                    let z = self.ar.konst(32, 0);
                    let e = self.ar.ite(all, z, one);
                    return Ok(vec![self.val(e)]);
                }
                for i in (0..n).rev() {
                    let u = self.byte(st, p + i)?;
                    let v = self.byte(st, q + i)?;
                    let (u, v) = (self.norm(st, u), self.norm(st, v));
                    let (u, v) = (self.ex(u, 8), self.ex(v, 8));
                    let eq = self.ar.bin(Op::Eq, u, v);
                    let lt = self.ar.bin(Op::Ult, u, v);
                    let d = self.ar.ite(lt, mone, one);
                    acc = self.ar.ite(eq, acc, d);
                }
                let v = self.limit(st, acc)?;
                Ok(vec![v])
            }
            Ext::Strlen => {
                let p = self.conc(st, a[0], 64)?;
                let mut n = 0;
                loop {
                    let b = self.byte(st, p + n)?;
                    let b = self.conc(st, b, 8)?;
                    if b == 0 {
                        return r1(n);
                    }
                    n += 1;
                }
            }
            Ext::Memchr | Ext::Memrchr => {
                // (byte, ptr, len) -> Option<usize> as { i64, i64 }
                let n = self.conc(st, a[2], 64)?;
                let p = self.conc(st, a[1], 64)?;
                let c = self.norm(st, a[0]);
                let c = self.ex(c, 8);
                let mut idx = self.ar.konst(64, 0);
                let mut found = self.ar.konst(1, 0);
                for j in 0..n {
                    let i = if x == Ext::Memchr { n - 1 - j } else { j };
                    let b = self.byte(st, p + i)?;
                    let b = self.norm(st, b);
                    let b = self.ex(b, 8);
                    let q = self.ar.bin(Op::Eq, b, c);
                    let k = self.ar.konst(64, i as u128);
                    idx = self.ar.ite(q, k, idx);
                    found = self.ar.bin(Op::Or, found, q);
                }
                let f = self.ar.zext(found, 64);
                let f = self.limit(st, f)?;
                let i = self.limit(st, idx)?;
                Ok(vec![f, i])
            }
            Ext::Getrandom => {
                let p = self.conc(st, a[0], 64)?;
                let n = self.conc(st, a[1], 64)?;
                for i in 0..n {
                    let b = seed_byte(st.seed, i);
                    self.write(st, p + i, Slot { off: 0, w: 8, bytes: 1 }, cval(b as u64))?;
                }
                r1(n)
            }
            Ext::Syscall => {
                let k = self.conc(st, a[0], 64)?;
                if k == 318 {
                    return self.external(st, g, Ext::Getrandom, a[1..].to_vec());
                }
                if k == 186 {
                    return r1(1);
                }
                if k == 332 {
                    // statx: ENOSYS, so that std falls back to fstat64
                    self.write(st, addr_of_obj(self.errno_obj), Slot { off: 0, w: 32, bytes: 4 }, cval(38))?;
                    return r1(u64::MAX);
                }
                er(format!("syscall {}", k))
            }
            Ext::KeyCreate => {
                let p = self.conc(st, a[0], 64)?;
                self.write(st, p, Slot { off: 0, w: 32, bytes: 4 }, cval(1))?;
                r1(0)
            }
            Ext::Clock => {
                let p = self.conc(st, a[1], 64)?;
                for i in 0..2 {
                    self.write(st, p + 8 * i, Slot { off: 0, w: 64, bytes: 8 }, cval(1))?;
                }
                r1(0)
            }
            Ext::Errno => r1(addr_of_obj(self.errno_obj)),
            Ext::Getenv => r1(0),
            Ext::Write => {
                let n = self.conc(st, a[2], 64)?;
                r1(n)
            }
            Ext::Abort => Err(Stop::Panic("abort".into())),
            Ext::Zero => r1(0),
            Ext::SymRange => {
                let lo = self.conc(st, a[0], 64)?;
                let hi = self.conc(st, a[1], 64)?;
                if lo >= hi {
                    Rc::make_mut(&mut st.inputs).push(Input { lo, var: 0 });
                    return r1(lo);
                }
                let v = self.new_input(st, lo, hi);
                let e = self.ar.zext(v, 64);
                let k = self.ar.konst(64, lo as u128);
                let e = self.ar.bin(Op::Add, e, k);
                Ok(vec![self.val(e)])
            }
            Ext::SymChoose => {
                let n = self.conc(st, a[0], 64)?;
                if n == 0 {
                    return er("choose(0)");
                }
                if n == 1 {
                    Rc::make_mut(&mut st.inputs).push(Input { lo: 0, var: 0 });
                    return r1(0);
                }
                let v = self.new_input(st, 0, n - 1);
                let w = self.ar.w(v);
                // forks have the variable created already: they must not re-execute this call
                let vals: Vec<u64> = (0..n).collect();
                let mut conds = vec![];
                for x in &vals {
                    let k = self.ar.konst(w, *x as u128);
                    conds.push(self.ar.bin(Op::Eq, v, k));
                }
                let (k, others) = self.split(st, &conds)?;
                let fr = st.frames.last().unwrap();
                let inst: &'static Inst = &fr.f.code[fr.pc];
                if let Inst::Call { dst, normal, .. } = inst {
                    for (j, mut o) in others.into_iter().rev() {
                        let of = o.frames.last_mut().unwrap();
                        if *dst != u32::MAX {
                            of.regs[*dst as usize] = cval(vals[j]);
                        }
                        match normal {
                            Some(e) => self.take_edge(&mut o, e),
                            None => of.pc += 1,
                        }
                        self.stack.push(o);
                    }
                }
                r1(vals[k])
            }
            Ext::SymAssume => {
                let v = self.norm(st, a[0]);
                if v.sym == 0 {
                    return if v.v & 1 != 0 { Ok(vec![]) } else { Err(Stop::Assume) };
                }
                let c = self.ar.extract(v.sym, 0, 1);
                if self.ar.eval(c, &st.model) != 1 {
                    match self.solve(st, c)? {
                        None => return Err(Stop::Assume),
                        Some(u) => self.apply(st, &u),
                    }
                }
                self.add(st, c);
                Ok(vec![])
            }
            Ext::SymCheck => {
                // (cond, msg ptr, msg len)
                let p = self.conc(st, a[1], 64)?;
                let n = self.conc(st, a[2], 64)?;
                let msg = self.cstr(st, p, n);
                let v = self.norm(st, a[0]);
                self.st.checks += 1;
                st.nchecks += 1;
                let ent = self.check_ids.entry(msg.clone()).or_default();
                ent.0 += 1;
                if v.sym == 0 {
                    self.st.checks_path += 1;
                    ent.1 += 1;
                    return if v.v & 1 != 0 { Ok(vec![]) } else { Err(Stop::Check(msg)) };
                }
                ent.2 += 1;
                self.st.checks_solver += 1;
                let c = self.ar.extract(v.sym, 0, 1);
                let nc = self.ar.not(c);
                // the verdict on an assertion is always the SMT solver's
                let d0 = self.st.dom_unsat;
                self.force_smt = true;
                let r = self.solve(st, nc);
                self.force_smt = false;
                let r = r?;
                if r.is_none() && self.st.dom_unsat != d0 {
                    self.crosscheck(st, nc, false)?;
                }
                if let Some(u) = r {
                    self.apply(st, &u);
                    return Err(Stop::Check(msg));
                }
                Ok(vec![])
            }
            Ext::SymReach => {
                let k = self.conc(st, a[0], 32)?;
                Rc::make_mut(&mut st.reached).push(k as u32);
                Ok(vec![])
            }
            Ext::SymNote => {
                let kind = self.conc(st, a[0], 32)?;
                let p = self.conc(st, a[1], 64)?;
                let n = self.conc(st, a[2], 64)?;
                let mut b = vec![];
                for i in 0..n {
                    b.push(self.byte(st, p + i)?);
                }
                Rc::make_mut(&mut st.notes).push(Note { kind: kind as u32, bytes: b });
                Ok(vec![])
            }
            Ext::SymConc => {
                let v = self.conc(st, a[0], 64)?;
                r1(v)
            }
            Ext::SymConcBytes => {
                let p = self.conc(st, a[0], 64)?;
                let n = self.conc(st, a[1], 64)?;
                for i in 0..n {
                    let b = self.byte(st, p + i)?;
                    if b.sym != 0 {
                        let v = self.conc(st, b, 8)?;
                        self.write(st, p + i, Slot { off: 0, w: 8, bytes: 1 }, cval(v))?;
                    }
                }
                Ok(vec![])
            }
            Ext::SymSeed => {
                st.seed = self.conc(st, a[0], 64)?;
                Ok(vec![])
            }
            Ext::SymParam => {
                let k = self.conc(st, a[0], 64)?;
                r1(self.opts.params.get(k as usize).copied().unwrap_or(0))
            }
            Ext::SymIsSym => r1(1),
            Ext::SymDone => Err(Stop::Done),
            Ext::SymInitFn => {
                let k = self.conc(st, a[0], 64)? as usize;
                let d = self.prog.globals.iter().filter(|g| g.init_array).nth(k).map(|g| &g.data);
                r1(d.map(|d| (0..8).fold(0u64, |x, i| x | (d[i] as u64) << (8 * i))).unwrap_or(0))
            }
            Ext::Panic => Err(Stop::Panic(g.short.clone())),
            Ext::Unknown => er(format!("call to unmodelled external {}", g.name)),
        }
    }
}

/// Deterministic bytes handed to `getrandom` for a given seed (the native runtime uses the same).
pub fn seed_byte(seed: u64, i: u64) -> u8 {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((i + 1).wrapping_mul(0xBF58476D1CE4E5B9));
    x ^= x >> 31;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^= x >> 29;
    x as u8
}

#[inline(always)]
fn get(r: &[Val], o: &Opnd) -> Val {
    match o {
        Opnd::R(i) => r[*i as usize],
        Opnd::C(v) => *v,
    }
}

/// floating-point operation on constants of `w` bits
fn float_op(o: FOp, w: u16, tw: u16, x: u64, y: u64) -> u64 {
    let f = |v: u64| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let out = |v: f64| if tw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    // a single f32 operation done in f64 and rounded again gives the f32 result
    match o {
        FOp::Add => out(f(x) + f(y)),
        FOp::Sub => out(f(x) - f(y)),
        FOp::Mul => out(f(x) * f(y)),
        FOp::Div => out(f(x) / f(y)),
        FOp::Rem => out(f(x) % f(y)),
        FOp::Cmp(m) => {
            let b = match f(x).partial_cmp(&f(y)) {
                Some(std::cmp::Ordering::Less) => 1,
                Some(std::cmp::Ordering::Equal) => 2,
                Some(std::cmp::Ordering::Greater) => 4,
                None => 8,
            };
            (m & b != 0) as u64
        }
        FOp::FromU if tw == 32 => (x as f32).to_bits() as u64,
        FOp::FromU => (x as f64).to_bits(),
        FOp::FromS => {
            let i = ((x << (64 - w)) as i64) >> (64 - w);
            if tw == 32 {
                (i as f32).to_bits() as u64
            } else {
                (i as f64).to_bits()
            }
        }
        FOp::ToU => f(x) as u64 & (u64::MAX >> (64 - tw)),
        FOp::ToS => f(x) as i64 as u64 & (u64::MAX >> (64 - tw)),
        FOp::Ext => out(f(x)),
        FOp::Neg => x ^ 1 << (w - 1),
        FOp::Math(m) => float_math(m, w, tw, &[x, y]),
    }
}

fn float_math(m: FMath, w: u16, tw: u16, x: &[u64]) -> u64 {
    let f = |i: usize| if w == 32 { f32::from_bits(x[i] as u32) as f64 } else { f64::from_bits(x[i]) };
    let out = |v: f64| if tw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let top = u64::MAX >> (64 - tw);
    match m {
        FMath::Floor => out(f(0).floor()),
        FMath::Ceil => out(f(0).ceil()),
        FMath::Trunc => out(f(0).trunc()),
        FMath::Round => out(f(0).round()),
        FMath::RoundEven => out(f(0).round_ties_even()),
        FMath::Sqrt => out(f(0).sqrt()),
        FMath::Abs => x[0] & !(1 << (w - 1)),
        FMath::Max => out(f(0).max(f(1))),
        FMath::Min => out(f(0).min(f(1))),
        FMath::CopySign => x[0] & !(1 << (w - 1)) | x[1] & 1 << (w - 1),
        FMath::MulAdd => out(f(0) * f(1) + f(2)),
        FMath::ToU => (f(0) as u64).min(top),
        FMath::ToS => {
            let hi = (top >> 1) as i64;
            ((f(0) as i64).max(-hi - 1).min(hi)) as u64 & top
        }
    }
}
