//! Symbolic executor for the LLVM IR of the harness (flat address space, path merging at
//! immediate post-dominators, symbolic addresses resolved over small index domains).
use crate::ll::*;
use crate::smt::{Res, Smt};
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { N, T(T), Vec(Rc<[T]>), Agg(Rc<[V]>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell { pub t: T, pub b: u8 }
pub const UNINIT: Cell = Cell { t: u32::MAX, b: 0 };

#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub cells: Vec<Cell>, pub ro: bool, pub freed: bool, pub global: bool }
#[derive(Clone, Default)]
pub struct Mem { pub objs: BTreeMap<u64, Rc<Obj>> }
#[derive(Clone, Default)]
pub struct State { pub mem: Mem, pub pc: Vec<T> }

#[derive(Clone, Debug)]
pub struct Death { pub kind: &'static str, pub what: String, pub pc: Vec<T>, pub unsure: bool }

pub struct Frame { pub f: Rc<Func>, pub regs: Vec<V> }
impl Clone for Frame { fn clone(&self) -> Self { Frame { f: self.f.clone(), regs: self.regs.clone() } } }

pub enum Out { Stop, Ret(V) }
pub type R<X> = Result<X, String>;

#[derive(Clone)]
pub struct Branch { pub site: String, pub cond: T, pub val: bool }

pub const NS: usize = 6;
pub struct Cpu { pub l1c: u32, pub l1d: u32, pub l7b: u32, pub xcr0: u64, pub max: u32 }

pub struct Eng {
    pub m: Module,
    pub st: Store,
    pub smt: Smt,
    pub next_addr: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub deaths: Vec<Death>,
    pub sims: Vec<[u128; NS]>,
    pub rng: u64,
    pub cand: FxMap<T, Rc<Vec<(T, u64)>>>,
    pub branches: Vec<Branch>,
    pub scouting: bool,
    pub forks: u64,
    pub unknown_branches: u64,
    pub gwrites: HashSet<u64>,
    pub gread_mut: HashSet<u64>,
    pub env_calls: BTreeMap<String, u64>,
    /// global objects other threads may change at any time: loads give arbitrary values
    pub interfere: HashSet<u64>,
    /// memory at the last panics
    pub panic_mem: Vec<Mem>,
    pub called: HashSet<String>,
    pub cpu: Cpu,
    pub depth: u32,
    pub full_timeout: u64,
    pub max_cells: u64,
    pub dcache: HashMap<(Vec<T>, T), (bool, bool)>,
    pub sym_branches: Vec<T>,
}

fn ty_w(t: &Ty) -> u16 { match t { Ty::Int(w) => *w as u16, Ty::Ptr => 64, Ty::Other(b) => *b as u16, _ => 0 } }

impl Eng {
    pub fn new(m: Module, smt: Smt) -> Eng {
        Eng { m, st: Store::new(), smt, next_addr: 0x1_0000_0000, steps: 0, step_limit: 400_000_000, deaths: vec![], sims: vec![], rng: 0x9E37_79B9_7F4A_7C15, cand: Default::default(), branches: vec![], scouting: false, forks: 0, unknown_branches: 0, gwrites: Default::default(), gread_mut: Default::default(), env_calls: Default::default(), panic_mem: vec![], interfere: Default::default(), called: Default::default(), cpu: Cpu { l1c: 0, l1d: 0x0700_0000 | (1 << 25) | (1 << 26), l7b: 0, xcr0: 0, max: 7 }, depth: 0, full_timeout: 3000, max_cells: 0, dcache: HashMap::new(), sym_branches: vec![] }
    }
    pub fn show(&self, t: T, d: u32) -> String { if d == 0 { return format!("t{}", t); } let mut c = vec![]; self.st.children(t, &mut |x| c.push(x)); let o = format!("{:?}", self.st.op(t)); format!("{}[{}]", o.chars().take(40).collect::<String>(), c.iter().take(6).map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(",")) }
    pub fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng.wrapping_mul(0x2545_F491_4F6C_DD1D) }

    /// drop all terms and derived caches (between independent jobs)
    pub fn reset_store(&mut self) {
        STACK.with(|s| s.borrow_mut().clear()); self.depth = 0;
        self.st = Store::new(); self.sims.clear(); self.cand.clear(); self.branches.clear(); self.dcache.clear();
        self.deaths.clear(); self.sym_branches.clear(); self.next_addr = 0x1_0000_0000; self.steps = 0; self.forks = 0; self.unknown_branches = 0; self.gwrites.clear(); self.gread_mut.clear(); self.env_calls.clear(); self.panic_mem.clear(); self.interfere.clear();
    }

    // ---------- simulation ----------
    pub fn sim(&mut self, t: T) -> [u128; NS] {
        while self.sims.len() <= t as usize {
            let i = self.sims.len() as T;
            let mut r = [0u128; NS];
            if let Op::Var(v) = self.st.op(i) {
                let (w, p) = { let vi = &self.st.vars[*v as usize]; (vi.w, vi.pinned) };
                for k in 0..NS {
                    let x = (self.rnd() as u128) << 64 | self.rnd() as u128;
                    r[k] = match p { Some(p) => p, None => match k { 0 => 0, _ => x & mask(w) } };
                }
            } else {
                for k in 0..NS { let s = &self.sims; r[k] = self.st.eval_node(i, &|c| s[c as usize][k]); }
            }
            self.sims.push(r);
        }
        self.sims[t as usize]
    }

    // ---------- branch decisions ----------
    /// (may be true, may be false)
    pub fn decide(&mut self, c: T, pc: &[T]) -> (bool, bool) {
        if let Some(v) = self.st.is_const(c) { return (v != 0, v == 0); }
        let key = (pc.to_vec(), c);
        if let Some(r) = self.dcache.get(&key) { return *r; }
        let mut seen = [false, false];
        let pcs: Vec<[u128; NS]> = pc.iter().map(|p| self.sim(*p)).collect();
        let s = self.sim(c);
        for k in 0..NS { if pcs.iter().all(|p| p[k] != 0) { seen[(s[k] != 0) as usize] = true; } }
        let mut r = (true, true);
        if !seen[1] { let mut a = pc.to_vec(); a.push(c); r.0 = self.feasible(&a); }
        if !seen[0] && r.0 { let n = self.st.mk_not(c); let mut a = pc.to_vec(); a.push(n); r.1 = self.feasible(&a); }
        if !r.0 && !r.1 { r.1 = true; }
        self.dcache.insert(key, r);
        r
    }
    pub fn feasible(&mut self, a: &[T]) -> bool {
        for d in [3usize, 6, 12, 30] {
            let (r, exact) = self.smt.check_cut(&self.st, a, d, 2000);
            match r { Res::Unsat => return false, Res::Sat(_) if exact => return true, Res::Sat(_) => {}, Res::Unknown => {} }
        }
        let r = self.smt.check_full(&self.st, a, self.full_timeout, 60_000);
        match r { Res::Unsat => false, Res::Sat(_) => true, Res::Unknown => { self.unknown_branches += 1; true } }
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, fill: Option<u8>, ro: bool) -> u64 {
        let al = align.max(16);
        let base = (self.next_addr + al - 1) / al * al;
        self.next_addr = base + size + 64;
        let c = match fill { None => UNINIT, Some(b) => Cell { t: self.st.konst(b as u128, 8), b: 0 } };
        st.mem.objs.insert(base, Rc::new(Obj { base, size, cells: vec![c; size as usize], ro, freed: false, global: false }));
        base
    }
    pub fn init_globals(&mut self, st: &mut State) {
        let bytes: Vec<T> = (0..256).map(|b| self.st.konst(b, 8)).collect();
        for g in &self.m.globals {
            if st.mem.objs.contains_key(&g.addr) { continue; }
            let cells: Vec<Cell> = g.bytes.iter().map(|b| match b { None => UNINIT, Some(b) => Cell { t: bytes[*b as usize], b: 0 } }).collect();
            st.mem.objs.insert(g.addr, Rc::new(Obj { base: g.addr, size: cells.len() as u64, cells, ro: g.constant, freed: false, global: true }));
        }
    }
    fn find(mem: &Mem, a: u64, n: u64) -> Option<&Rc<Obj>> {
        let (_, o) = mem.objs.range(..=a).next_back()?;
        if !o.freed && a >= o.base && a - o.base + n <= o.size { Some(o) } else { None }
    }
    fn find_mut(mem: &mut Mem, a: u64, n: u64) -> Option<&mut Obj> {
        let (_, o) = mem.objs.range_mut(..=a).next_back()?;
        if !o.freed && a >= o.base && a - o.base + n <= o.size { Some(Rc::make_mut(o)) } else { None }
    }
    /// assemble n bytes (n <= 16) from cells
    fn assemble(&mut self, cells: &[Cell]) -> T {
        let c0 = cells[0];
        if c0.t != u32::MAX && c0.b == 0 && self.st.w(c0.t) as usize == cells.len() * 8 && cells.iter().enumerate().all(|(i, c)| c.t == c0.t && c.b as usize == i) { return c0.t; }
        let mut parts = Vec::with_capacity(cells.len());
        let mut i = cells.len();
        while i > 0 {
            // maximal run going down
            let mut j = i - 1;
            if cells[j].t == u32::MAX { let v = self.st.var("undef", 8, None); parts.push(v); i = j; continue; }
            while j > 0 && cells[j - 1].t == cells[j].t && cells[j].b > 0 && cells[j - 1].b == cells[j].b - 1 { j -= 1; }
            let e = self.ext(cells[j].t, cells[j].b as u16 * 8, ((i - j) * 8) as u16);
            parts.push(e); i = j;
        }
        self.cat(parts)
    }
    fn load_c(&mut self, st: &mut State, a: u64, n: u64) -> R<Option<T>> {
        if n == 0 || n > 16 { return Err(format!("load of {} bytes", n)); }
        let cells: Vec<Cell> = match Self::find(&st.mem, a, n) { None => return Ok(None), Some(o) => { if o.global && !o.ro { self.gread_mut.insert(o.base); } o.cells[(a - o.base) as usize..(a - o.base + n) as usize].to_vec() } };
        if !self.interfere.is_empty() { let b = Self::find(&st.mem, a, n).unwrap().base; if self.interfere.contains(&b) { return Ok(Some(self.st.var("other-thread", (n * 8) as u16, None))); } }
        if cells.iter().any(|c| *c == UNINIT) {
            // give every uninitialised byte one arbitrary value and keep it
            let mut nc = cells.clone();
            for c in nc.iter_mut() { if *c == UNINIT { *c = Cell { t: self.st.var("undef", 8, None), b: 0 }; } }
            let o = Self::find_mut(&mut st.mem, a, n).unwrap();
            let off = (a - o.base) as usize;
            o.cells[off..off + n as usize].copy_from_slice(&nc);
            return Ok(Some(self.assemble(&nc)));
        }
        Ok(Some(self.assemble(&cells)))
    }
    fn store_c(&mut self, st: &mut State, a: u64, v: T) -> bool {
        let n = (self.st.w(v) / 8) as u64;
        let gw = match Self::find_mut(&mut st.mem, a, n) {
            None => return false,
            Some(o) => { if o.ro { return false; } let off = (a - o.base) as usize; for i in 0..n as usize { o.cells[off + i] = Cell { t: v, b: i as u8 }; } if o.global { Some(o.base) } else { None } }
        };
        if let Some(b) = gw { self.gwrites.insert(b); }
        true
    }
    fn atoms(&self, t: T, out: &mut Vec<T>, seen: &mut HashSet<T>) -> bool {
        if !seen.insert(t) { return true; }
        if seen.len() > 400 { return false; }
        let w = self.st.w(t);
        match self.st.op(t) {
            Op::Const(_) => true,
            Op::Eq(x, y) | Op::Ult(x, y) | Op::Slt(x, y) => {
                // a test of a small index: the index itself is the atom
                let (x, y) = (*x, *y);
                let (n0, s0) = (out.len(), seen.clone());
                if self.st.w(x) <= 10 && self.atoms(x, out, seen) && self.atoms(y, out, seen) { return true; }
                out.truncate(n0); *seen = s0; out.push(t); true
            }
            Op::Table(_, x) if w > 10 => { let x = *x; self.atoms(x, out, seen) }
            Op::Var(_) | Op::Extract(..) | Op::Table(..) => if w <= 10 { out.push(t); true } else if let Op::Extract(x, _) = self.st.op(t) { let x = *x; match self.st.op(x) { Op::Bin(B2::Urem, _, b) if self.st.is_const(*b).map_or(false, |k| k > 0 && k <= 1024) => { if seen.insert(x) { out.push(x); } true } _ => false } } else { false },
            Op::Bin(B2::Urem, _, b) if self.st.is_const(*b).map_or(false, |k| k > 0 && k <= 1024) => { out.push(t); true }
            Op::Ite(..) if w > 10 => { let mut ok = true; self.st.children(t, &mut |c| ok = ok && self.atoms(c, out, seen)); ok }
            _ => {
                if w <= 6 || (w <= 10 && !matches!(self.st.op(t), Op::Concat(_))) { out.push(t); return true; }
                let (n0, s0) = (out.len(), seen.clone());
                let mut ok = true;
                self.st.children(t, &mut |c| ok = ok && self.atoms(c, out, seen));
                if !ok && w <= 10 { out.truncate(n0); *seen = s0; out.push(t); return true; }
                ok
            }
        }
    }
    fn eval_under(&self, t: T, env: &FxMap<T, u128>, memo: &mut FxMap<T, u128>) -> u128 {
        if let Some(v) = env.get(&t) { return *v; }
        if let Some(v) = memo.get(&t) { return *v; }
        let mut ch = vec![]; self.st.children(t, &mut |c| ch.push(c));
        for c in ch { self.eval_under(c, env, memo); }
        let r = { let m2 = &*memo; self.st.eval_node(t, &|c| env.get(&c).copied().unwrap_or_else(|| m2[&c])) };
        memo.insert(t, r); r
    }
    /// enumerate the joint values of some terms over a small domain: (condition, values)
    pub fn joint(&mut self, ts: &[T], pc: &[T]) -> R<Vec<(T, Vec<u128>)>> {
        if ts.iter().all(|t| self.st.conc(*t).is_some()) { let one = self.st.konst(1, 1); return Ok(vec![(one, ts.iter().map(|t| self.st.conc(*t).unwrap()).collect())]); }
        let mut at = vec![]; let mut seen = HashSet::new();
        let mut ok = true;
        for t in ts { ok = ok && self.atoms(*t, &mut at, &mut seen); }
        let mut doms: Vec<(T, Vec<u128>)> = vec![];
        if ok {
            at.sort_unstable(); at.dedup();
            let mut prod = 1usize;
            for a in &at {
                let d = self.st.vsa(*a, 1024).ok_or("index domain too large")?;
                prod = prod.saturating_mul(d.len());
                doms.push((*a, d));
            }
            if prod > 4096 { return Err("joint index domain too large".into()); }
        } else {
            // an index bounded only by the path condition
            let mut found = None;
            for p in pc { if let Op::Ult(a, k) = self.st.op(*p) { if let Some(k) = self.st.is_const(*k) { if k <= 1024 { let mut at2 = vec![]; let mut s2 = HashSet::new(); s2.insert(*a); let all = ts.iter().all(|t| self.atoms(*t, &mut at2, &mut s2)); if all { found = Some((*a, k, at2)); break; } } } } }
            match found {
                Some((a, k, at2)) => { doms.push((a, (0..k).collect())); for x in at2 { if x != a { let d = self.st.vsa(x, 64).ok_or("index domain")?; doms.push((x, d)); } } }
                None => { let d: Vec<String> = ts.iter().map(|t| self.show(*t, 4)).collect(); return Err(format!("symbolic address or size without a small domain: {:?}", d)) }
            }
        }
        let mut res = vec![];
        let mut idx = vec![0usize; doms.len()];
        loop {
            let mut env: FxMap<T, u128> = Default::default();
            let mut cs = vec![];
            for (i, (a, d)) in doms.iter().enumerate() { env.insert(*a, d[idx[i]]); cs.push((*a, d[idx[i]])); }
            let mut memo = Default::default();
            let vals: Vec<u128> = ts.iter().map(|t| self.eval_under(*t, &env, &mut memo)).collect();
            let mut conj = vec![];
            for (a, v) in cs { let w = self.st.w(a); let k = self.st.konst(v, w); conj.push(self.icmp("eq", a, k)); }
            let c = if conj.len() == 1 { conj[0] } else { self.st.mk_and(conj) };
            if self.st.is_const(c) != Some(0) { res.push((c, vals)); }
            let mut i = 0;
            loop { if i == idx.len() { // group equal value tuples
                    let mut g: BTreeMap<Vec<u128>, Vec<T>> = BTreeMap::new();
                    let mut order: Vec<Vec<u128>> = vec![];
                    for (c, v) in res { if !g.contains_key(&v) { order.push(v.clone()); } g.entry(v).or_default().push(c); }
                    let mut out = vec![];
                    for v in order { let cs = g.remove(&v).unwrap(); let c = if cs.len() == 1 { cs[0] } else { self.st.mk_or(cs) }; out.push((c, v)); }
                    out.sort_by_key(|x| x.0); // one order whatever the layout in memory
                    return Ok(out);
                }
                idx[i] += 1; if idx[i] < doms[i].1.len() { break; } idx[i] = 0; i += 1; }
        }
    }
    fn die(&mut self, kind: &'static str, what: String, pc: Vec<T>) { self.deaths.push(Death { kind, what, pc, unsure: false }); }

    /// candidate addresses of a symbolic pointer, each valid for n bytes
    fn addrs(&mut self, st: &mut State, a: T, n: u64, what: &str) -> R<Rc<Vec<(T, u64)>>> {
        if let Some(v) = self.st.conc(a) {
            let one = self.st.konst(1, 1);
            if Self::find(&st.mem, v as u64, n).is_none() { self.die("ub", format!("{} out of bounds or freed memory ({} bytes at {:#x})", what, n, v), st.pc.clone()); return Ok(Rc::new(vec![])); }
            return Ok(Rc::new(vec![(one, v as u64)]));
        }
        let c = match self.cand.get(&a) { Some(c) => c.clone(), None => { let pc = st.pc.clone(); let j = self.joint(&[a], &pc)?; let c = Rc::new(j.into_iter().map(|(c, v)| (c, v[0] as u64)).collect::<Vec<_>>()); if pc.is_empty() { self.cand.insert(a, c.clone()); } c } };
        if c.iter().all(|(_, x)| Self::find(&st.mem, *x, n).is_some()) { return Ok(c); }
        let mut good = vec![];
        for (cond, x) in c.iter() {
            if Self::find(&st.mem, *x, n).is_some() { good.push((*cond, *x)); continue; }
            let (may, _) = self.decide(*cond, &st.pc.clone());
            if may { let mut pc = st.pc.clone(); pc.push(*cond); self.die("ub", format!("{} out of bounds or freed memory ({} bytes)", what, n), pc); let nc = self.st.mk_not(*cond); st.pc.push(nc); }
        }
        Ok(Rc::new(good))
    }
    fn chain(&mut self, vals: &[(T, T)]) -> T {
        let mut r = vals[vals.len() - 1].1;
        for (c, v) in vals[..vals.len() - 1].iter().rev() { r = self.ite(*c, *v, r); }
        r
    }
    fn load_t(&mut self, st: &mut State, a: T, n: u64) -> R<Option<T>> {
        if let Some(t) = self.table_load(st, a, n) { return Ok(Some(t)); }
        let c = self.addrs(st, a, n, "load from")?;
        if c.is_empty() { return Ok(None); }
        if c.len() == 1 { return self.load_c(st, c[0].1, n); }
        let mut vals = Vec::with_capacity(c.len());
        for (cond, x) in c.iter() { let v = self.load_c(st, *x, n)?.unwrap(); vals.push((*cond, v)); }
        // constant table
        if c.len() >= 8 && vals.iter().all(|(_, v)| self.st.is_const(*v).is_some()) {
            if let Some(x) = self.index_atom(a) {
                let w = self.st.w(x);
                if w <= 10 && c.len() == 1 << w {
                    let mut tab = vec![0u128; 1 << w];
                    let mut ok = true;
                    for i in 0..1usize << w {
                        let k = self.st.konst(i as u128, w); let e = self.st.mk_eq(x, k);
                        match vals.iter().find(|(c, _)| *c == e) { Some((_, v)) => tab[i] = self.st.is_const(*v).unwrap(), None => { ok = false; break; } }
                    }
                    if ok { return Ok(Some(self.st.mk_table(tab, x, (n * 8) as u16))); }
                }
            }
        }
        Ok(Some(self.chain(&vals)))
    }
    /// every value of the one small index atom selects a constant: a table lookup
    fn table_load(&mut self, st: &State, a: T, n: u64) -> Option<T> {
        if self.st.conc(a).is_some() { return None; }
        let x = self.index_atom(a)?;
        let w = self.st.w(x);
        if w < 4 || w > 10 { return None; }
        let mut tab = Vec::with_capacity(1 << w);
        for i in 0..1u128 << w {
            let mut env: FxMap<T, u128> = Default::default(); env.insert(x, i);
            let p = self.eval_under(a, &env, &mut Default::default()) as u64;
            let o = Self::find(&st.mem, p, n)?;
            if !o.ro { return None; }
            let mut v = 0u128;
            for j in (0..n as usize).rev() { let c = o.cells[(p - o.base) as usize + j]; if c == UNINIT { return None; } let k = self.st.is_const(c.t)?; v = v << 8 | ((k >> (c.b * 8)) & 255); }
            tab.push(v);
        }
        Some(self.st.mk_table(tab, x, (n * 8) as u16))
    }
    fn index_atom(&self, a: T) -> Option<T> {
        let mut at = vec![]; let mut seen = HashSet::new();
        if !self.atoms(a, &mut at, &mut seen) { return None; }
        at.sort_unstable(); at.dedup();
        if at.len() == 1 { Some(at[0]) } else { None }
    }
    /// simplify t knowing that `yes` holds and every condition in `no` does not
    fn restrict(&mut self, t: T, yes: T, no: &HashSet<T>, depth: u32) -> T {
        if depth == 0 { return t; }
        match self.st.op(t).clone() {
            Op::Ite(c, a, b) => {
                if c == yes { return self.restrict(a, yes, no, depth); }
                if no.contains(&c) { self.st.excl(yes, c); return self.restrict(b, yes, no, depth); }
                t
            }
            Op::Xor(k, l) => { let n: Vec<T> = l.iter().map(|x| self.restrict(*x, yes, no, depth - 1)).collect(); if n[..] == l[..] { t } else { let w = self.st.w(t); self.st.mk_xor(w, k, n) } }
            Op::Lin(k, l) => { let n: Vec<(T, u128)> = l.iter().map(|x| (self.restrict(x.0, yes, no, depth - 1), x.1)).collect(); if n[..] == l[..] { t } else { let w = self.st.w(t); self.st.mk_lin(w, k, n) } }
            Op::Concat(l) => { let n: Vec<T> = l.iter().map(|x| self.restrict(*x, yes, no, depth - 1)).collect(); if n[..] == l[..] { t } else { self.cat(n) } }
            Op::Extract(x, lo) => { let y = self.restrict(x, yes, no, depth - 1); if y == x { t } else { let w = self.st.w(t); self.ext(y, lo, w) } }
            _ => t,
        }
    }
    fn store_t(&mut self, st: &mut State, a: T, v: T) -> R<bool> {
        let n = (self.st.w(v) / 8) as u64;
        let c = self.addrs(st, a, n, "store to")?;
        if c.is_empty() { return Ok(false); }
        if c.len() == 1 {
            if !self.store_c(st, c[0].1, v) { self.die("ub", "store to constant memory".into(), st.pc.clone()); return Ok(false); }
            return Ok(true);
        }
        let all: Vec<T> = c.iter().map(|x| x.0).collect();
        for (i, (cond, x)) in c.iter().enumerate() {
            let no: HashSet<T> = all.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
            let nv = self.restrict(v, *cond, &no, 4);
            let uninit = { let o = Self::find(&st.mem, *x, n).unwrap(); let off = (*x - o.base) as usize; o.cells[off..off + n as usize].iter().all(|c| *c == UNINIT) };
            let r = if uninit { nv } else { let old = self.load_c(st, *x, n)?.unwrap(); self.ite(*cond, nv, old) };
            if !self.store_c(st, *x, r) { self.die("ub", "store to constant memory".into(), st.pc.clone()); return Ok(false); }
        }
        Ok(true)
    }

    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<T>> {
        let mut r = vec![];
        for i in 0..n { r.push(self.load_c(st, a + i, 1)?.ok_or("read_bytes")?); }
        Ok(r)
    }

    fn copy_cells(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> bool {
        if n == 0 { return true; }
        let cells = match Self::find(&st.mem, s, n) { None => return false, Some(o) => { if o.global && !o.ro { self.gread_mut.insert(o.base); } o.cells[(s - o.base) as usize..(s - o.base + n) as usize].to_vec() } };
        let mut gw = None;
        match Self::find_mut(&mut st.mem, d, n) { None => return false, Some(o) => { if o.ro { return false; } if o.global { gw = Some(o.base); } let off = (d - o.base) as usize; o.cells[off..off + n as usize].copy_from_slice(&cells); } }
        if let Some(g) = gw { self.gwrites.insert(g); }
        true
    }
    fn memcpy(&mut self, st: &mut State, d: T, s: T, n: T) -> R<bool> {
        let pc = st.pc.clone();
        let j = self.joint(&[d, s, n], &pc)?;
        if j.len() == 1 {
            let v = &j[0].1;
            if !self.copy_cells(st, v[0] as u64, v[1] as u64, v[2] as u64) { self.die("ub", format!("memcpy out of bounds ({} bytes)", v[2]), st.pc.clone()); return Ok(false); }
            return Ok(true);
        }
        // check every candidate
        let mut cs = vec![];
        for (c, v) in j {
            let (d, s, n) = (v[0] as u64, v[1] as u64, v[2] as u64);
            if n == 0 || (Self::find(&st.mem, d, n).map_or(false, |o| !o.ro) && Self::find(&st.mem, s, n).is_some()) { cs.push((c, d, s, n)); continue; }
            let (may, _) = self.decide(c, &st.pc.clone());
            if may { let mut pc = st.pc.clone(); pc.push(c); self.die("ub", format!("memcpy out of bounds ({} bytes)", n), pc); let nc = self.st.mk_not(c); st.pc.push(nc); }
        }
        if cs.is_empty() { return Ok(false); }
        // snapshot the sources
        let snaps: Vec<Vec<Cell>> = cs.iter().map(|(_, _, s, n)| if *n == 0 { vec![] } else { let o = Self::find(&st.mem, *s, *n).unwrap(); o.cells[(*s - o.base) as usize..(*s - o.base + *n) as usize].to_vec() }).collect();
        // destination bytes affected
        let mut dst: BTreeMap<u64, Vec<(usize, u64)>> = BTreeMap::new();
        for (k, (_, d, _, n)) in cs.iter().enumerate() {
            let mut o = 0; while o < *n { let l = if (*d + o) % 8 == 0 && *n - o >= 8 { 8 } else { 1 }; dst.entry(*d + o).or_default().push((k, l)); o += l; }
        }
        let addrs: Vec<u64> = dst.keys().cloned().collect();
        for a in addrs {
            let es = dst[&a].clone();
            let l = es.iter().map(|e| e.1).min().unwrap();
            let full = es.iter().all(|e| e.1 == l);
            let chunks: u64 = if full { 1 } else { 8 };
            let step = if full { l } else { 1 };
            for ch in 0..chunks {
                let at = a + ch * step;
                let mut vals: Vec<(T, T)> = vec![];
                let mut covered = 0; let mut uninit_src = false;
                for (k, (c, d, _, n)) in cs.iter().enumerate() {
                    if at >= *d && at + step <= *d + *n {
                        covered += 1;
                        let off = (at - *d) as usize;
                        let cells = snaps[k][off..off + step as usize].to_vec();
                        if cells.iter().all(|c| *c == UNINIT) { uninit_src = true; continue; }
                        let v = self.assemble(&cells); vals.push((*c, v));
                    }
                }
                if vals.is_empty() { continue; }
                let r;
                if covered == cs.len() && !uninit_src { r = self.chain(&vals); }
                else {
                    let un = { let o = Self::find(&st.mem, at, step).unwrap(); let off = (at - o.base) as usize; o.cells[off..off + step as usize].iter().all(|c| *c == UNINIT) };
                    if un { r = self.chain(&vals); }
                    else { let mut x = self.load_c(st, at, step)?.unwrap(); for (c, v) in vals.iter().rev() { x = self.ite(*c, *v, x); } r = x; }
                }
                self.store_c(st, at, r);
            }
        }
        Ok(true)
    }
    fn memset(&mut self, st: &mut State, d: T, b: T, n: T) -> R<bool> {
        let pc = st.pc.clone();
        let j = self.joint(&[d, n], &pc)?;
        let multi = j.len() > 1;
        for (c, v) in j {
            let (d, n) = (v[0] as u64, v[1] as u64);
            if n == 0 { continue; }
            if Self::find(&st.mem, d, n).map_or(true, |o| o.ro) {
                let (may, _) = self.decide(c, &st.pc.clone());
                if !may { continue; }
                let mut pc = st.pc.clone(); pc.push(c); self.die("ub", format!("memset out of bounds ({} bytes)", n), pc);
                if !multi { return Ok(false); }
                let nc = self.st.mk_not(c); st.pc.push(nc); continue;
            }
            if !multi {
                let o = Self::find_mut(&mut st.mem, d, n).unwrap();
                let off = (d - o.base) as usize; let g = if o.global { Some(o.base) } else { None };
                for i in 0..n as usize { o.cells[off + i] = Cell { t: b, b: 0 }; }
                if let Some(g) = g { self.gwrites.insert(g); }
            } else {
                for i in 0..n { let old = self.load_c(st, d + i, 1)?.unwrap(); let r = self.ite(c, b, old); self.store_c(st, d + i, r); }
            }
        }
        Ok(true)
    }

    // ---------- values ----------
    fn kval(&mut self, k: &K, ty: &Ty) -> V {
        match (k, ty) {
            (K::Undef, Ty::Int(_)) | (K::Undef, Ty::Ptr) | (K::Undef, Ty::Other(_)) => { let w = ty_w(ty); V::T(self.st.konst(0, w)) }
            (_, Ty::Void) => V::N,
            (K::Int(v), _) => { let w = ty_w(ty); V::T(self.st.konst(*v, w)) }
            (K::Addr(a), _) => V::T(self.st.konst(*a as u128, 64)),
            (K::Zero, Ty::Int(_)) | (K::Zero, Ty::Ptr) | (K::Zero, Ty::Other(_)) => { let w = ty_w(ty); V::T(self.st.konst(0, w)) }
            (K::Zero, Ty::Vec(n, t)) | (K::Undef, Ty::Vec(n, t)) => { let z = self.st.konst(0, ty_w(t)); V::Vec(vec![z; *n as usize].into()) }
            (K::Agg(l), Ty::Vec(_, t)) => { let v: Vec<T> = l.iter().map(|x| match self.kval(x, t) { V::T(t) => t, _ => panic!() }).collect(); V::Vec(v.into()) }
            (K::Zero, Ty::Arr(n, t)) | (K::Undef, Ty::Arr(n, t)) => { let z = self.kval(k, t); V::Agg(vec![z; *n as usize].into()) }
            (K::Agg(l), Ty::Arr(_, t)) => { let v: Vec<V> = l.iter().map(|x| self.kval(x, t)).collect(); V::Agg(v.into()) }
            (K::Zero, Ty::Struct(f, _)) | (K::Undef, Ty::Struct(f, _)) => { let v: Vec<V> = f.iter().map(|t| self.kval(k, t)).collect(); V::Agg(v.into()) }
            (K::Agg(l), Ty::Struct(f, _)) => { let v: Vec<V> = l.iter().zip(f).map(|(x, t)| self.kval(x, t)).collect(); V::Agg(v.into()) }
            _ => panic!("constant {:?} of {:?}", k, ty),
        }
    }
    fn ev(&mut self, fr: &Frame, o: &Opd, ty: &Ty) -> V { match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => self.kval(k, ty) } }
    fn evt(&mut self, fr: &Frame, o: &Opd, ty: &Ty) -> R<T> { match self.ev(fr, o, ty) { V::T(t) => Ok(t), x => Err(format!("scalar expected, got {:?} in {}", x, fr.f.name)) } }
    fn lanes(v: &V) -> R<Vec<T>> { match v { V::T(t) => Ok(vec![*t]), V::Vec(l) => Ok(l.to_vec()), _ => Err("lanes".into()) } }
    fn wrap(ty: &Ty, l: Vec<T>) -> V { if matches!(ty, Ty::Vec(..)) { V::Vec(l.into()) } else { V::T(l[0]) } }

    pub fn vite(&mut self, c: T, a: &V, b: &V) -> R<V> {
        Ok(match (a, b) {
            (V::N, x) | (x, V::N) => x.clone(),
            (V::T(x), V::T(y)) => V::T(self.ite(c, *x, *y)),
            (V::Vec(x), V::Vec(y)) => V::Vec(x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, *p, *q)).collect::<Vec<_>>().into()),
            (V::Agg(x), V::Agg(y)) => { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(self.vite(c, p, q)?); } V::Agg(r.into()) }
            _ => return Err("merge of incompatible values".into()),
        })
    }
    fn vsame(a: &V, b: &V) -> bool {
        match (a, b) { (V::N, V::N) => true, (V::T(x), V::T(y)) => x == y, (V::Vec(x), V::Vec(y)) => x == y, (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::vsame(p, q)), _ => false }
    }

    fn load_v(&mut self, st: &mut State, a: T, ty: &Ty) -> R<Option<V>> {
        Ok(match ty {
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                let v = match self.load_t(st, a, n)? { Some(v) => v, None => return Ok(None) };
                Some(V::T(if *w as u64 != n * 8 { self.st.mk_trunc(v, *w as u16) } else { v }))
            }
            Ty::Ptr | Ty::Other(_) => self.load_t(st, a, ty.size())?.map(V::T),
            Ty::Vec(n, t) => {
                let s = t.size(); let mut l = vec![];
                if t.bits() % 8 != 0 { return Err("load of sub-byte vector".into()); }
                for i in 0..*n { let p = self.off(a, (i * s) as i64); match self.load_t(st, p, s)? { Some(v) => l.push(v), None => return Ok(None) } }
                Some(V::Vec(l.into()))
            }
            Ty::Arr(n, t) => { let mut l = vec![]; for i in 0..*n { let p = self.off(a, (i * t.size()) as i64); match self.load_v(st, p, t)? { Some(v) => l.push(v), None => return Ok(None) } } Some(V::Agg(l.into())) }
            Ty::Struct(f, pk) => { let mut l = vec![]; for i in 0..f.len() { let p = self.off(a, Ty::field_off(f, *pk, i) as i64); match self.load_v(st, p, &f[i])? { Some(v) => l.push(v), None => return Ok(None) } } Some(V::Agg(l.into())) }
            Ty::Void => Some(V::N),
        })
    }
    fn store_v(&mut self, st: &mut State, a: T, ty: &Ty, v: &V) -> R<bool> {
        match (ty, v) {
            (Ty::Int(w), V::T(t)) => { let n = (*w as u64 + 7) / 8 * 8; let z = self.st.mk_zext(*t, n as u16); self.store_t(st, a, z) }
            (Ty::Ptr, V::T(t)) | (Ty::Other(_), V::T(t)) => self.store_t(st, a, *t),
            (Ty::Vec(_, t), V::Vec(l)) => { if t.bits() % 8 != 0 { return Err("store of sub-byte vector".into()); } for (i, x) in l.iter().enumerate() { let p = self.off(a, (i as u64 * t.size()) as i64); if !self.store_t(st, p, *x)? { return Ok(false); } } Ok(true) }
            (Ty::Arr(_, t), V::Agg(l)) => { for (i, x) in l.iter().enumerate() { let p = self.off(a, (i as u64 * t.size()) as i64); if !self.store_v(st, p, t, x)? { return Ok(false); } } Ok(true) }
            (Ty::Struct(f, pk), V::Agg(l)) => { for (i, x) in l.iter().enumerate() { let p = self.off(a, Ty::field_off(f, *pk, i) as i64); if !self.store_v(st, p, &f[i], x)? { return Ok(false); } } Ok(true) }
            (_, V::N) => Ok(true),
            _ => Err(format!("store {:?}", ty)),
        }
    }
    fn off(&mut self, a: T, o: i64) -> T { if o == 0 { return a; } let k = self.st.konst(o as i128 as u128, 64); self.st.mk_add(a, k) }

    // ---------- arithmetic ----------
    pub fn bin(&mut self, op: &str, a: T, b: T, disjoint: bool) -> T {
        match op {
            "add" => self.st.mk_add(a, b),
            "sub" => self.st.mk_sub(a, b),
            "mul" => self.st.mk_mul(a, b),
            "and" => self.st.mk_and(vec![a, b]),
            "or" => if disjoint { self.st.step("ordj", &[a, b], |s| s.mk_add(a, b)) } else { self.st.mk_or(vec![a, b]) },
            "xor" => self.st.mk_xor2(a, b),
            "shl" => self.st.mk_bin(B2::Shl, a, b),
            "lshr" => self.st.mk_bin(B2::Lshr, a, b),
            "ashr" => self.st.mk_bin(B2::Ashr, a, b),
            "udiv" => self.st.mk_bin(B2::Udiv, a, b),
            "urem" => self.st.mk_bin(B2::Urem, a, b),
            "sdiv" => self.st.mk_bin(B2::Sdiv, a, b),
            "srem" => self.st.mk_bin(B2::Srem, a, b),
            _ => panic!("binop {}", op),
        }
    }
    pub fn icmp(&mut self, p: &str, a: T, b: T) -> T {
        match p {
            "eq" => self.st.mk_eq(a, b),
            "ne" => { let e = self.st.mk_eq(a, b); self.st.mk_not(e) }
            "ult" => self.st.mk_ult(a, b),
            "ugt" => self.st.mk_ult(b, a),
            "ule" => { let e = self.st.mk_ult(b, a); self.st.mk_not(e) }
            "uge" => { let e = self.st.mk_ult(a, b); self.st.mk_not(e) }
            "slt" => self.st.mk_slt(a, b),
            "sgt" => self.st.mk_slt(b, a),
            "sle" => { let e = self.st.mk_slt(b, a); self.st.mk_not(e) }
            "sge" => { let e = self.st.mk_slt(a, b); self.st.mk_not(e) }
            _ => panic!("icmp {}", p),
        }
    }
    fn cat(&mut self, p: Vec<T>) -> T { self.st.mk_concat(p) }
    fn ext(&mut self, t: T, lo: u16, n: u16) -> T { self.st.mk_extract(t, lo, n) }
    /// probing: a conversion that drops bits, or one arm of a minimum, is a branch too
    fn lossy(&mut self, site: String, c: T) { if self.st.is_const(c).is_none() { if let Some(v) = self.st.conc(c) { self.branches.push(Branch { site, cond: c, val: v != 0 }); } } }
    fn mnmx(&mut self, n: &str, a: T, b: T, c: T) { if self.scouting { let k = self.st.is_const(b).or(self.st.is_const(a)); self.lossy(format!("{}#{:?}", n, k), c); } }
    fn ite(&mut self, c: T, a: T, b: T) -> T { self.st.mk_ite(c, a, b) }
    fn regroup(&mut self, l: &[T], to_w: u16, n: usize) -> R<Vec<T>> {
        let fw = self.st.w(l[0]);
        if fw == to_w { return Ok(l.to_vec()); }
        let mut r = vec![];
        if to_w > fw {
            if to_w % fw != 0 || to_w > 128 { return Err("bitcast".into()); }
            let k = (to_w / fw) as usize;
            for i in 0..n { let mut p: Vec<T> = l[i * k..(i + 1) * k].to_vec(); p.reverse(); r.push(self.cat(p)); }
        } else {
            if fw % to_w != 0 { return Err("bitcast".into()); }
            for x in l { for j in 0..fw / to_w { r.push(self.ext(*x, j * to_w, to_w)); } }
        }
        Ok(r)
    }

    // ---------- control ----------
    pub fn call(&mut self, name: &str, args: Vec<V>, mut st: State) -> R<Option<(State, V)>> {
        let f = match self.m.funcs.get(name) { Some(f) => f.clone(), None => {
            if !self.m.has_fn(name) { return Err(format!("call to unknown function {}", name)); }
            self.m.load_reachable(&[name.to_string()]);
            self.init_globals(&mut st);
            self.m.funcs.get(name).ok_or(format!("cannot load {}", name))?.clone()
        } };
        if self.depth > 3000 { self.die("limit", "call depth".into(), st.pc.clone()); return Ok(None); }
        self.called.insert(name.to_string());
        let mut fr = Frame { regs: vec![V::N; f.nregs as usize], f };
        for (i, a) in args.into_iter().enumerate() { if i < fr.f.params.len() { let p = fr.f.params[i]; fr.regs[p as usize] = a; } }
        let mark = self.next_addr;
        self.depth += 1;
        let r = self.run(&mut fr, st, 0, u32::MAX, None, false);
        self.depth -= 1;
        match r? {
            None => Ok(None),
            Some((mut st, Out::Ret(v))) => {
                // release stack slots of this frame
                let dead: Vec<u64> = st.mem.objs.range(mark..).filter(|(_, o)| o.size != u64::MAX && self.is_stack(o.base)).map(|(b, _)| *b).collect();
                for b in dead { st.mem.objs.remove(&b); self.stack_set().remove(&b); }
                Ok(Some((st, v)))
            }
            Some((_, Out::Stop)) => Err("stop at function level".into()),
        }
    }
    fn is_stack(&self, b: u64) -> bool { STACK.with(|s| s.borrow().contains(&b)) }
    fn stack_set(&self) -> StackSet { StackSet }

    fn phis(&mut self, fr: &mut Frame, blk: u32, from: u32) -> R<()> {
        let f = fr.f.clone();
        let ph = &f.blocks[blk as usize].phis;
        if ph.is_empty() { return Ok(()); }
        let mut vals = Vec::with_capacity(ph.len());
        for p in ph {
            let o = p.inc.iter().find(|x| x.0 == from).ok_or_else(|| format!("phi without incoming edge in {} {}<-{}", f.name, f.bnames[blk as usize], f.bnames.get(from as usize).cloned().unwrap_or_default()))?;
            vals.push(self.ev(fr, &o.1, &p.ty));
        }
        for (p, v) in ph.iter().zip(vals) { fr.regs[p.dst as usize] = v; }
        Ok(())
    }

    fn merge_mem(&mut self, c: T, a: &Mem, b: &Mem) -> R<Mem> {
        let mut r = a.clone();
        for (k, ob) in &b.objs {
            match a.objs.get(k) {
                None => { r.objs.insert(*k, ob.clone()); }
                Some(oa) => {
                    if Rc::ptr_eq(oa, ob) { continue; }
                    let mut no: Obj = (**oa).clone();
                    no.freed = oa.freed && ob.freed;
                    let n = no.cells.len();
                    let mut i = 0;
                    while i < n {
                        if oa.cells[i] == ob.cells[i] { i += 1; continue; }
                        // try the aligned widest group
                        let mut done = false;
                        for l in [16usize, 8, 4, 2] {
                            let s = i / l * l;
                            if s + l > n || s != i { continue; }
                            let (ca, cb) = (&oa.cells[s..s + l], &ob.cells[s..s + l]);
                            let whole = |st: &Store, c: &[Cell]| c[0].t != u32::MAX && c[0].b == 0 && st.w(c[0].t) as usize == l * 8 && c.iter().enumerate().all(|(j, x)| x.t == c[0].t && x.b as usize == j);
                            let konst = |st: &Store, c: &[Cell]| c.iter().all(|x| x.t != u32::MAX && st.is_const(x.t).is_some());
                            if (whole(&self.st, ca) && (whole(&self.st, cb) || konst(&self.st, cb))) || (konst(&self.st, ca) && whole(&self.st, cb)) {
                                let (x, y) = (self.assemble(&ca.to_vec()), self.assemble(&cb.to_vec()));
                                let z = self.ite(c, x, y);
                                for j in 0..l { no.cells[s + j] = Cell { t: z, b: j as u8 }; }
                                i = s + l; done = true; break;
                            }
                        }
                        if done { continue; }
                        let (ca, cb) = (oa.cells[i], ob.cells[i]);
                        if ca == UNINIT { no.cells[i] = cb; } else if cb == UNINIT { no.cells[i] = ca; }
                        else { let x = self.ext(ca.t, ca.b as u16 * 8, 8); let y = self.ext(cb.t, cb.b as u16 * 8, 8); let z = self.ite(c, x, y); no.cells[i] = Cell { t: z, b: 0 }; }
                        i += 1;
                    }
                    r.objs.insert(*k, Rc::new(no));
                }
            }
        }
        Ok(r)
    }
    fn merge_state(&mut self, c: T, base: usize, a: State, b: State) -> R<State> {
        let ea: Vec<T> = a.pc[base + 1..].to_vec(); let eb: Vec<T> = b.pc[base + 1..].to_vec();
        let mem = self.merge_mem(c, &a.mem, &b.mem)?;
        let mut pc = a.pc[..base].to_vec();
        let one = self.st.konst(1, 1);
        let ta = if ea.is_empty() { one } else { self.st.mk_and(ea) };
        let tb = if eb.is_empty() { one } else { self.st.mk_and(eb) };
        let x = self.st.mk_ite(c, ta, tb);
        if self.st.is_const(x) != Some(1) { pc.push(x); }
        Ok(State { mem, pc })
    }

    /// fork on c; each side continues at (block) and both are merged at join (or at return)
    fn fork(&mut self, fr: &mut Frame, st: State, c: T, join: Option<u32>, sides: &mut dyn FnMut(&mut Eng, bool, &mut Frame, State) -> R<Option<(State, Out)>>) -> R<Option<(State, Out)>> {
        let _ = join;
        self.forks += 1;
        self.sym_branches.push(c);
        let base = st.pc.len();
        let nc = self.st.mk_not(c);
        let mut fa = fr.clone(); let mut fb = fr.clone();
        let mut sa = st.clone(); sa.pc.push(c);
        let mut sb = st; sb.pc.push(nc);
        let ra = sides(self, true, &mut fa, sa)?;
        let rb = sides(self, false, &mut fb, sb)?;
        match (ra, rb) {
            (None, None) => Ok(None),
            (Some((s, o)), None) => { *fr = fa; Ok(Some((s, o))) }
            (None, Some((s, o))) => { *fr = fb; Ok(Some((s, o))) }
            (Some((s1, o1)), Some((s2, o2))) => {
                let s = self.merge_state(c, base, s1, s2)?;
                match (o1, o2) {
                    (Out::Ret(a), Out::Ret(b)) => { let v = self.vite(c, &a, &b)?; Ok(Some((s, Out::Ret(v)))) }
                    (Out::Stop, Out::Stop) => {
                        for i in 0..fa.regs.len() { if !Self::vsame(&fa.regs[i], &fb.regs[i]) { let v = match self.vite(c, &fa.regs[i], &fb.regs[i]) { Ok(v) => v, Err(_) => V::N }; fa.regs[i] = v; } }
                        fr.regs = fa.regs;
                        Ok(Some((s, Out::Stop)))
                    }
                    _ => Err("fork sides end differently".into()),
                }
            }
        }
    }

    /// transfer to block `to` from `from`; honours the stop block
    fn goto(&mut self, fr: &mut Frame, st: State, to: u32, from: u32, stop: Option<u32>) -> R<Option<(State, Out)>> {
        if Some(to) == stop { self.phis(fr, to, from)?; return Ok(Some((st, Out::Stop))); }
        self.run(fr, st, to, from, stop, false)
    }

    fn run(&mut self, fr: &mut Frame, mut st: State, mut blk: u32, mut from: u32, stop: Option<u32>, mut skip_phis: bool) -> R<Option<(State, Out)>> {
        let f = fr.f.clone();
        loop {
            if !skip_phis {
                self.phis(fr, blk, from)?;
            }
            skip_phis = false;
            let b = &f.blocks[blk as usize];
            let mut next: Option<u32> = None;
            for (dst, ins) in &b.insts {
                self.steps += 1;
                if self.steps > self.step_limit { self.die("limit", format!("step limit {} in {}", self.step_limit, f.name), st.pc.clone()); return Ok(None); }
                match ins {
                    I::Br(t) => { next = Some(*t); }
                    I::CondBr(c, t, e) => {
                        if t == e { next = Some(*t); continue; }
                        let c = self.evt(fr, c, &Ty::Int(1))?;
                        if let Some(v) = self.st.is_const(c) { next = Some(if v != 0 { *t } else { *e }); continue; }
                        if let Some(v) = self.st.conc(c) { if self.scouting { self.branches.push(Branch { site: format!("{}#{}", f.name, blk), cond: c, val: v != 0 }); } next = Some(if v != 0 { *t } else { *e }); continue; }
                        let (mt, mf) = self.decide(c, &st.pc.clone());
                        if mt && !mf { next = Some(*t); continue; }
                        if mf && !mt { next = Some(*e); continue; }
                        let join = f.ipdom[blk as usize];
                        let (t, e) = (*t, *e);
                        let r = self.fork(fr, st, c, join, &mut |s, side, fr, st| s.goto(fr, st, if side { t } else { e }, blk, join))?;
                        match r {
                            None => return Ok(None),
                            Some((s, Out::Ret(v))) => return Ok(Some((s, Out::Ret(v)))),
                            Some((s, Out::Stop)) => { let j = join.unwrap(); if Some(j) == stop { return Ok(Some((s, Out::Stop))); } st = s; next = Some(j); skip_phis = true; break; }
                        }
                    }
                    I::Switch(ty, o, d, cs) => {
                        let v = self.evt(fr, o, ty)?;
                        if let Some(k) = self.st.conc(v) {
                            if self.st.is_const(v).is_none() && self.scouting {
                                for (kk, _) in cs { let w = self.st.w(v); let kt = self.st.konst(*kk, w); let e = self.st.mk_eq(v, kt); if self.st.is_const(e).is_none() { self.branches.push(Branch { site: format!("{}#{}#{}", f.name, blk, kk), cond: e, val: *kk == k }); } }
                            }
                            next = Some(cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d)); continue;
                        }
                        let join = f.ipdom[blk as usize];
                        let r = self.switch(fr, st, v, cs, *d, blk, join)?;
                        match r {
                            None => return Ok(None),
                            Some((s, Out::Ret(v))) => return Ok(Some((s, Out::Ret(v)))),
                            Some((s, Out::Stop)) => { let j = join.unwrap(); if Some(j) == stop { return Ok(Some((s, Out::Stop))); } st = s; next = Some(j); skip_phis = true; break; }
                        }
                    }
                    I::Ret(None) => return Ok(Some((st, Out::Ret(V::N)))),
                    I::Ret(Some((t, o))) => { let v = self.ev(fr, o, t); return Ok(Some((st, Out::Ret(v)))); }
                    I::Unreachable => { self.die("ub", format!("unreachable executed in {}", f.name), st.pc.clone()); return Ok(None); }
                    I::Call { name, ptr, args, ret, asm, normal } => {
                        let mut av = Vec::with_capacity(args.len());
                        for (t, o) in args { av.push(if *t == Ty::Void { V::N } else { self.ev(fr, o, t) }); }
                        let r = self.do_call(name.as_deref(), ptr.as_ref(), fr, av, args, ret, asm.as_deref(), st)?;
                        match r { None => return Ok(None), Some((s, v)) => { st = s; if let Some(d) = dst { fr.regs[*d as usize] = v; } } }
                        if let Some(n) = normal { next = Some(*n); }
                    }
                    _ => { if !self.simple(fr, &mut st, *dst, ins)? { return Ok(None); } }
                }
            }
            let n = next.ok_or_else(|| format!("block without terminator in {}", f.name))?;
            if skip_phis { blk = n; continue; }
            if Some(n) == stop { self.phis(fr, n, blk)?; return Ok(Some((st, Out::Stop))); }
            from = blk; blk = n;
        }
    }
    fn switch(&mut self, fr: &mut Frame, st: State, v: T, cs: &[(u128, u32)], d: u32, blk: u32, join: Option<u32>) -> R<Option<(State, Out)>> {
        if cs.is_empty() { return self.goto(fr, st, d, blk, join); }
        let w = self.st.w(v); let k = self.st.konst(cs[0].0, w); let c = self.st.mk_eq(v, k);
        let (mt, mf) = self.decide(c, &st.pc.clone());
        if !mt { return self.switch(fr, st, v, &cs[1..], d, blk, join); }
        if !mf { return self.goto(fr, st, cs[0].1, blk, join); }
        let t = cs[0].1; let rest = &cs[1..];
        self.fork(fr, st, c, join, &mut |s, side, fr, st| if side { s.goto(fr, st, t, blk, join) } else { s.switch(fr, st, v, rest, d, blk, join) })
    }

    fn simple(&mut self, fr: &mut Frame, st: &mut State, dst: Option<u32>, ins: &I) -> R<bool> {
        let v = match ins {
            I::Bin(op, t, a, b, dj) => {
                match t {
                    Ty::Vec(..) => { let (x, y) = (Self::lanes(&self.ev(fr, a, t))?, Self::lanes(&self.ev(fr, b, t))?); let l: Vec<T> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, *p, *q, *dj)).collect(); V::Vec(l.into()) }
                    _ => {
                        let (x, y) = (self.evt(fr, a, t)?, self.evt(fr, b, t)?);
                        if matches!(*op, "udiv" | "urem" | "sdiv" | "srem") && self.st.is_const(y).map_or(true, |k| k == 0) && self.st.conc(y).map_or(true, |k| k == 0) {
                            let w = self.st.w(y); let z = self.st.konst(0, w); let c = self.st.mk_eq(y, z);
                            let (may, _) = self.decide(c, &st.pc.clone());
                            if may { let mut pc = st.pc.clone(); pc.push(c); self.die("ub", "division by zero".into(), pc); if self.st.is_const(c) == Some(1) { return Ok(false); } let n = self.st.mk_not(c); st.pc.push(n); }
                        }
                        if self.scouting && *op == "and" { if let Some(m) = self.st.is_const(y) { if m >= 255 && (m + 1) & m == 0 && self.st.is_const(x).is_none() { let r = self.bin(op, x, y, *dj); let c = self.st.mk_eq(r, x); self.lossy(format!("{}#mask{}", fr.f.name, dst.unwrap_or(0)), c); } } }
                        V::T(self.bin(op, x, y, *dj))
                    }
                }
            }
            I::Icmp(p, t, a, b) => {
                let (x, y) = (self.ev(fr, a, t), self.ev(fr, b, t));
                let (x, y) = (Self::lanes(&x)?, Self::lanes(&y)?);
                let l: Vec<T> = x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(p, *p1, *q)).collect();
                Self::wrap(t, l)
            }
            I::Select(ct, t, c, a, b) => {
                let cv = self.ev(fr, c, ct);
                match cv {
                    V::T(c) => {
                        if let Some(v) = self.st.is_const(c) { if v != 0 { self.ev(fr, a, t) } else { self.ev(fr, b, t) } }
                        else {
                            let cc = if self.st.scout { self.st.conc(c) } else { None };
                            if self.scouting { if let Some(v) = cc { self.branches.push(Branch { site: format!("{}#sel{}", fr.f.name, dst.unwrap_or(0)), cond: c, val: v != 0 }); } }
                            if let Some(v) = cc { if v != 0 { self.ev(fr, a, t) } else { self.ev(fr, b, t) } } else {
                            let (x, y) = (self.ev(fr, a, t), self.ev(fr, b, t)); self.vite(c, &x, &y)? }
                        }
                    }
                    V::Vec(cl) => { let (x, y) = (Self::lanes(&self.ev(fr, a, t))?, Self::lanes(&self.ev(fr, b, t))?); let l: Vec<T> = (0..cl.len()).map(|i| self.ite(cl[i], x[i], y[i])).collect(); V::Vec(l.into()) }
                    _ => return Err("select".into()),
                }
            }
            I::Cast(op, t, a, t2) => {
                let x = self.ev(fr, a, t);
                match *op {
                    "bitcast" => {
                        let l = Self::lanes(&x)?;
                        match t2 { Ty::Vec(n, e) => { let r = self.regroup(&l, ty_w(e), *n as usize)?; V::Vec(r.into()) } _ => { let r = self.regroup(&l, ty_w(t2), 1)?; V::T(r[0]) } }
                    }
                    "ptrtoint" | "inttoptr" | "zext" | "sext" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                        let e2 = match t2 { Ty::Vec(_, e) => ty_w(e), _ => ty_w(t2) };
                        if self.scouting && *op == "trunc" && e2 >= 8 { if let V::T(p) = x { let w = self.st.w(p); if w > e2 && self.st.is_const(p).is_none() { let t = self.st.mk_trunc(p, e2); let z = self.st.mk_zext(t, w); let c = self.st.mk_eq(z, p); self.lossy(format!("{}#trunc{}", fr.f.name, dst.unwrap_or(0)), c); } } }
                        let l: Vec<T> = Self::lanes(&x)?.iter().map(|p| {
                            let w = self.st.w(*p);
                            if e2 == w { *p } else if e2 < w { self.st.mk_trunc(*p, e2) } else if *op == "sext" { self.st.mk_sext(*p, e2) } else { self.st.mk_zext(*p, e2) }
                        }).collect();
                        Self::wrap(t2, l)
                    }
                    _ => return Err(format!("cast {}", op)),
                }
            }
            I::Load(t, p) => { let a = self.evt(fr, p, &Ty::Ptr)?; match self.load_v(st, a, t)? { Some(v) => v, None => return Ok(false) } }
            I::Store(t, v, p) => { let a = self.evt(fr, p, &Ty::Ptr)?; let v = self.ev(fr, v, t); return self.store_v(st, a, t, &v); }
            I::Gep(b, off, var) => {
                let base = match self.ev(fr, b, &Ty::Ptr) { V::T(t) => t, _ => return Err("vector gep".into()) };
                let mut items = vec![(base, 1u128)];
                for (scale, o, wd) in var {
                    let x = self.evt(fr, o, &Ty::Int(*wd))?;
                    let x = if *wd < 64 { self.st.mk_sext(x, 64) } else if *wd > 64 { self.st.mk_trunc(x, 64) } else { x };
                    items.push((x, *scale as u128));
                }
                let r = self.st.mk_lin(64, *off as i128 as u128, items);
                V::T(r)
            }
            I::Extractvalue(t, a, ix) => { let mut v = self.ev(fr, a, t); for i in ix { v = match v { V::Agg(l) => l[*i as usize].clone(), _ => return Err("extractvalue".into()) }; } v }
            I::Insertvalue(t, a, t2, b, ix) => { let v = self.ev(fr, a, t); let x = self.ev(fr, b, t2); fn ins(v: V, x: V, ix: &[u32]) -> V { if ix.is_empty() { return x; } match v { V::Agg(l) => { let mut l = l.to_vec(); l[ix[0] as usize] = ins(l[ix[0] as usize].clone(), x, &ix[1..]); V::Agg(l.into()) } v => v } } ins(v, x, ix) }
            I::Extractelement(t, a, i) => {
                let l = Self::lanes(&self.ev(fr, a, t))?; let i = self.evt(fr, i, &Ty::Int(64))?;
                match self.st.conc(i) { Some(k) if (k as usize) < l.len() => V::T(l[k as usize]), Some(_) => V::T(l[0]), None => { let mut r = l[l.len() - 1]; let w = self.st.w(i); for k in (0..l.len() - 1).rev() { let kk = self.st.konst(k as u128, w); let c = self.st.mk_eq(i, kk); r = self.st.mk_ite(c, l[k], r); } V::T(r) } }
            }
            I::Insertelement(t, a, b, i) => {
                let mut l = Self::lanes(&self.ev(fr, a, t))?; let et = match t { Ty::Vec(_, e) => (**e).clone(), _ => return Err("insertelement".into()) };
                let x = self.evt(fr, b, &et)?; let i = self.evt(fr, i, &Ty::Int(64))?;
                match self.st.conc(i) { Some(k) => { if (k as usize) < l.len() { l[k as usize] = x; } } None => { let w = self.st.w(i); for k in 0..l.len() { let kk = self.st.konst(k as u128, w); let c = self.st.mk_eq(i, kk); l[k] = self.st.mk_ite(c, x, l[k]); } } }
                V::Vec(l.into())
            }
            I::Shuffle(t, a, b, m) => {
                let (x, y) = (Self::lanes(&self.ev(fr, a, t))?, Self::lanes(&self.ev(fr, b, t))?);
                let l: Vec<T> = m.iter().map(|i| match i { None => x[0], Some(i) => if (*i as usize) < x.len() { x[*i as usize] } else { y[*i as usize - x.len()] } }).collect();
                V::Vec(l.into())
            }
            I::Alloca(n, al) => { let a = self.alloc(st, *n, *al, None, false); STACK.with(|s| s.borrow_mut().insert(a)); V::T(self.st.konst(a as u128, 64)) }
            I::Freeze(t, a) => self.ev(fr, a, t),
            I::Cmpxchg(t, p, c, n) => {
                let a = self.evt(fr, p, &Ty::Ptr)?; let old = match self.load_v(st, a, t)? { Some(V::T(v)) => v, _ => return Ok(false) };
                let c = self.evt(fr, c, t)?; let n = self.evt(fr, n, t)?;
                let e = self.st.mk_eq(old, c); let nv = self.st.mk_ite(e, n, old);
                if !self.store_v(st, a, t, &V::T(nv))? { return Ok(false); }
                V::Agg(vec![V::T(old), V::T(e)].into())
            }
            I::Rmw(op, t, p, v) => {
                let a = self.evt(fr, p, &Ty::Ptr)?; let old = match self.load_v(st, a, t)? { Some(V::T(v)) => v, _ => return Ok(false) };
                let v = self.evt(fr, v, t)?;
                let n = match op.as_str() { "xchg" => v, "add" => self.st.mk_add(old, v), "sub" => self.st.mk_sub(old, v), "and" => self.st.mk_and(vec![old, v]), "or" => self.st.mk_or(vec![old, v]), "xor" => self.st.mk_xor2(old, v),
                    "umax" => { let c = self.st.mk_ult(old, v); self.st.mk_ite(c, v, old) } "umin" => { let c = self.st.mk_ult(old, v); self.st.mk_ite(c, old, v) }
                    _ => return Err(format!("atomicrmw {}", op)) };
                if !self.store_v(st, a, t, &V::T(n))? { return Ok(false); }
                V::T(old)
            }
            I::Fence => return Ok(true),
            _ => return Err(format!("instruction {:?}", ins)),
        };
        if let Some(d) = dst { fr.regs[d as usize] = v; }
        Ok(true)
    }

    fn fresh(&mut self, ty: &Ty, name: &str) -> V {
        match ty {
            Ty::Void => V::N,
            Ty::Vec(n, t) => { let l: Vec<T> = (0..*n).map(|_| self.st.var(name, ty_w(t), None)).collect(); V::Vec(l.into()) }
            Ty::Struct(f, _) => { let l: Vec<V> = f.iter().map(|t| self.fresh(t, name)).collect(); V::Agg(l.into()) }
            Ty::Arr(n, t) => { let l: Vec<V> = (0..*n).map(|_| self.fresh(t, name)).collect(); V::Agg(l.into()) }
            _ => V::T(self.st.var(name, ty_w(ty), None)),
        }
    }

    fn do_call(&mut self, name: Option<&str>, ptr: Option<&Opd>, fr: &Frame, av: Vec<V>, args: &[(Ty, Opd)], ret: &Ty, asm: Option<&str>, mut st: State) -> R<Option<(State, V)>> {
        if let Some(a) = asm {
            if a.contains("cpuid") {
                let g = |v: &V, s: &Store| match v { V::T(t) => s.conc(*t), _ => None };
                let leaf = g(&av[0], &self.st).ok_or("cpuid leaf")? as u32; let sub = g(&av[1], &self.st).unwrap_or(0) as u32;
                let (eax, ebx, ecx, edx) = match (leaf, sub) { (0, _) => (self.cpu.max, 0x756e6547, 0x6c65746e, 0x49656e69), (1, _) => (0x000906ea, 0, self.cpu.l1c, self.cpu.l1d), (7, 0) => (0, self.cpu.l7b, 0, 0), _ => (0, 0, 0, 0) };
                let l: Vec<V> = [ebx, eax, ecx, edx].iter().map(|x: &u32| V::T(self.st.konst(*x as u128, 32))).collect();
                return Ok(Some((st, V::Agg(l.into()))));
            }
            if a.trim().is_empty() { // black_box-like barriers: value flows through memory
                return Ok(Some((st, V::N)));
            }
            return Err(format!("inline asm {:?}", a));
        }
        let owned;
        let name: &str = match name { Some(n) => n, None => {
            let p = self.evt(fr, ptr.unwrap(), &Ty::Ptr)?;
            let a = match self.st.conc(p) { Some(a) => a, None => {
                // function pointer with a few possible targets: supported when a single one is feasible
                let pc = st.pc.clone(); let j = self.joint(&[p], &pc)?;
                let mut ok = vec![]; for (c, v) in j { if self.decide(c, &pc).0 { ok.push(v[0]); } }
                if ok.len() != 1 { return Err("call through symbolic function pointer".into()); } ok[0]
            } };
            match self.m.addr_fn.get(&(a as u64)) { Some(n) => { owned = n.clone(); &owned } None => { self.die("ub", format!("call to address {:#x}", a), st.pc.clone()); return Ok(None); } }
        } };
        let tt = |v: &V| -> R<T> { match v { V::T(t) => Ok(*t), _ => Err("scalar arg".into()) } };
        if name.starts_with("llvm.") { return self.intrinsic(name, av, args, ret, st); }
        match name {
            "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc" => {
                if name == "posix_memalign" || name == "aligned_alloc" {
                    let (al, sz) = if name == "aligned_alloc" { (tt(&av[0])?, tt(&av[1])?) } else { (tt(&av[1])?, tt(&av[2])?) };
                    let al = self.st.conc(al).ok_or("alignment")? as u64; let n = self.max_size(sz, &st)?;
                    let n = match n { Some(n) => n, None => { self.die("limit", "allocation too large".into(), st.pc.clone()); return Ok(None); } };
                    let a = self.alloc(&mut st, n, al, None, false); let p = self.st.konst(a as u128, 64);
                    if name == "aligned_alloc" { return Ok(Some((st, V::T(p)))); }
                    if !self.store_t(&mut st, tt(&av[0])?, p)? { return Ok(None); }
                    let z = self.st.konst(0, 32); return Ok(Some((st, V::T(z))));
                }
                let sz = match name { "malloc" => tt(&av[0])?, "calloc" => { let (a, b) = (tt(&av[0])?, tt(&av[1])?); self.st.mk_mul(a, b) } _ => tt(&av[1])? };
                let n = match self.max_size(sz, &st)? { Some(n) => n, None => { self.die("limit", format!("allocation too large ({:?} bytes)", self.st.conc(sz)), st.pc.clone()); return Ok(None); } };
                let a = self.alloc(&mut st, n, 16, if name == "calloc" { Some(0) } else { None }, false);
                let p = self.st.konst(a as u128, 64);
                if name == "realloc" {
                    let old = tt(&av[0])?;
                    let o = self.st.conc(old).ok_or("realloc of symbolic pointer")? as u64;
                    let os = Self::find(&st.mem, o, 0).map(|x| x.size).ok_or("realloc of unknown object")?;
                    self.copy_cells(&mut st, a, o, os.min(n));
                    if let Some(x) = st.mem.objs.get_mut(&o) { Rc::make_mut(x).freed = true; Rc::make_mut(x).cells.clear(); Rc::make_mut(x).cells.shrink_to_fit(); let r = Rc::make_mut(x); r.size = 0; }
                }
                return Ok(Some((st, V::T(p))));
            }
            "free" => {
                let p = tt(&av[0])?;
                if let Some(a) = self.st.conc(p) {
                    if a != 0 {
                        match st.mem.objs.get(&(a as u64)) { Some(o) if !o.freed && !o.global => { st.mem.objs.remove(&(a as u64)); } _ => { self.die("ub", "invalid free".into(), st.pc.clone()); return Ok(None); } }
                    }
                }
                return Ok(Some((st, V::N)));
            }
            "memcpy" | "memmove" => { let d = tt(&av[0])?; if !self.memcpy(&mut st, d, tt(&av[1])?, tt(&av[2])?)? { return Ok(None); } return Ok(Some((st, V::T(d)))); }
            "memset" => { let d = tt(&av[0])?; let b = self.st.mk_trunc(tt(&av[1])?, 8); if !self.memset(&mut st, d, b, tt(&av[2])?)? { return Ok(None); } return Ok(Some((st, V::T(d)))); }
            "memcmp" | "bcmp" => {
                let n = self.st.conc(tt(&av[2])?).ok_or("memcmp length")? as u64; let (a, b) = (tt(&av[0])?, tt(&av[1])?);
                let mut r = self.st.konst(0, 32);
                for i in (0..n).rev() {
                    let (pa, pb) = (self.off(a, i as i64), self.off(b, i as i64));
                    let x = match self.load_t(&mut st, pa, 1)? { Some(x) => x, None => return Ok(None) }; let y = match self.load_t(&mut st, pb, 1)? { Some(x) => x, None => return Ok(None) };
                    let e = self.st.mk_eq(x, y); let lt = self.st.mk_ult(x, y);
                    let m1 = self.st.konst(u32::MAX as u128, 32); let p1 = self.st.konst(1, 32);
                    let d = if name == "bcmp" { p1 } else { self.st.mk_ite(lt, m1, p1) };
                    r = self.st.mk_ite(e, r, d);
                }
                return Ok(Some((st, V::T(r))));
            }
            "strlen" => {
                let p = tt(&av[0])?; let mut n = 0i64;
                loop { let q = self.off(p, n); match self.load_t(&mut st, q, 1)? { None => return Ok(None), Some(b) => match self.st.conc(b) { Some(0) => break, Some(_) => n += 1, None => return Err("strlen of symbolic string".into()) } } }
                let r = self.st.konst(n as u128, 64); return Ok(Some((st, V::T(r))));
            }
            "__cxa_thread_atexit_impl" => { let z = self.st.konst(0, 32); return Ok(Some((st, V::T(z)))); }
            _ => {}
        }
        if name.starts_with("unsupported.instruction.") { return Err(name.to_string()); }
        if self.m.noreturn(name) { if self.panic_mem.len() < 4 { self.panic_mem.push(st.mem.clone()); } self.die("panic", short(name), st.pc.clone()); return Ok(None); }
        if self.m.has_fn(name) { return self.call(name, av, st); }
        if name == "getenv" || name == "secure_getenv" {
            // recorded and treated as unset; the check sets it natively
            let p = tt(&av[0])?; let mut s = String::new();
            for i in 0..256 { let q = self.off(p, i); match self.load_t(&mut st, q, 1)? { None => return Ok(None), Some(b) => match self.st.conc(b) { Some(0) | None => break, Some(c) => s.push(c as u8 as char) } } }
            *self.env_calls.entry(format!("getenv:{}", s)).or_insert(0) += 1;
            let z = self.st.konst(0, 64); return Ok(Some((st, V::T(z))));
        }
        // environment: an arbitrary result, and arbitrary contents for the buffers it may fill
        *self.env_calls.entry(name.to_string()).or_insert(0) += 1;
        let fills: &[(&str, usize, i64)] = &[("clock_gettime", 1, 16), ("getrandom", 0, -1), ("getentropy", 0, -1), ("gettimeofday", 0, 16), ("clock_getres", 1, 16)];
        for (n, arg, len) in fills { if *n == name {
            let p = tt(&av[*arg])?; let l = if *len < 0 { self.st.conc(tt(&av[1])?).unwrap_or(0) as i64 } else { *len };
            for i in 0..l { let q = self.off(p, i); let v = self.st.var(&format!("env:{}", name), 8, None); if !self.store_t(&mut st, q, v)? { return Ok(None); } }
            let z = match (*n, ret) { ("getrandom", Ty::Int(w)) => self.st.konst(l as u128, *w as u16), (_, Ty::Int(w)) => self.st.konst(0, *w as u16), _ => return Err("env".into()) };
            return Ok(Some((st, V::T(z))));
        } }
        let v = self.fresh(ret, &format!("env:{}", name));
        Ok(Some((st, v)))
    }
    fn max_size(&mut self, sz: T, st: &State) -> R<Option<u64>> {
        let pc = st.pc.clone();
        let m = match self.st.conc(sz) { Some(v) => v as u64, None => { let j = self.joint(&[sz], &pc)?; let mut m = 0; for (c, v) in j { if v[0] as u64 > m && (v[0] < (1 << 20) || self.decide(c, &pc).0) { m = v[0] as u64; } } m } };
        Ok(if m > (1 << 28) { None } else { Some(m) })
    }

    fn intrinsic(&mut self, name: &str, av: Vec<V>, args: &[(Ty, Opd)], ret: &Ty, mut st: State) -> R<Option<(State, V)>> {
        let n = &name[5..];
        let tt = |v: &V| -> R<T> { match v { V::T(t) => Ok(*t), _ => Err("scalar arg".into()) } };
        if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("assume") || n.starts_with("donothing") || n.starts_with("x86.avx.vzeroupper") || n.starts_with("invariant.") || n.starts_with("stackrestore") || n.starts_with("prefetch") || n.starts_with("pseudoprobe") {
            let v = if *ret == Ty::Void { V::N } else { self.fresh(ret, "llvm") };
            return Ok(Some((st, v)));
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") { if !self.memcpy(&mut st, tt(&av[0])?, tt(&av[1])?, tt(&av[2])?)? { return Ok(None); } return Ok(Some((st, V::N))); }
        if n.starts_with("memset") { if !self.memset(&mut st, tt(&av[0])?, tt(&av[1])?, tt(&av[2])?)? { return Ok(None); } return Ok(Some((st, V::N))); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { self.die("panic", "trap".into(), st.pc.clone()); return Ok(None); }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") || n.starts_with("ptr.annotation") { return Ok(Some((st, av[0].clone()))); }
        if n.starts_with("is.constant") { let z = self.st.konst(0, 1); return Ok(Some((st, V::T(z)))); }
        if n.starts_with("ptrmask") { let (a, b) = (tt(&av[0])?, tt(&av[1])?); let r = self.st.mk_and(vec![a, b]); return Ok(Some((st, V::T(r)))); }
        if n.starts_with("objectsize") { let z = self.st.konst(u64::MAX as u128, 64); return Ok(Some((st, V::T(z)))); }
        if n.starts_with("stacksave") { let z = self.st.konst(0, 64); return Ok(Some((st, V::T(z)))); }
        if n.starts_with("x86.xgetbv") { let z = self.st.konst(self.cpu.xcr0 as u128, 64); return Ok(Some((st, V::T(z)))); }
        let ls: R<Vec<Vec<T>>> = av.iter().map(|v| Self::lanes(v)).collect();
        let ls = ls?;
        let el = ls[0].len();
        let base = n.split('.').next().unwrap_or("");
        if n.contains(".with.overflow.") {
            let mut rv = vec![]; let mut ov = vec![];
            for i in 0..el {
                let (a, b) = (ls[0][i], ls[1][i]); let w = self.st.w(a);
                let (r, o);
                match base {
                    "uadd" => { r = self.bin("add", a, b, false); o = self.icmp("ult", r, a); }
                    "usub" => { r = self.bin("sub", a, b, false); o = self.icmp("ult", a, b); }
                    _ => {
                        let w2 = if base == "sadd" || base == "ssub" { w + 1 } else { w * 2 };
                        if w2 > 128 { return Err("wide overflow intrinsic".into()); }
                        let sg = base.starts_with('s');
                        let (x, y) = if sg { (self.st.mk_sext(a, w2), self.st.mk_sext(b, w2)) } else { (self.st.mk_zext(a, w2), self.st.mk_zext(b, w2)) };
                        let p = match &base[1..] { "add" => self.st.mk_add(x, y), "sub" => self.st.mk_sub(x, y), _ => self.st.mk_mul(x, y) };
                        r = match &base[1..] { "add" => self.bin("add", a, b, false), "sub" => self.bin("sub", a, b, false), _ => self.bin("mul", a, b, false) };
                        let e = if sg { self.st.mk_sext(r, w2) } else { self.st.mk_zext(r, w2) };
                        let q = self.st.mk_eq(e, p); o = self.st.mk_not(q);
                    }
                }
                rv.push(r); ov.push(o);
            }
            let v = if matches!(args[0].0, Ty::Vec(..)) { V::Agg(vec![V::Vec(rv.into()), V::Vec(ov.into())].into()) } else { V::Agg(vec![V::T(rv[0]), V::T(ov[0])].into()) };
            return Ok(Some((st, v)));
        }
        let map2 = |s: &mut Eng, f: &mut dyn FnMut(&mut Eng, T, T) -> T| -> V { let l: Vec<T> = (0..el).map(|i| f(s, ls[0][i], ls[1][i])).collect(); Self::wrap(ret, l) };
        let v = match base {
            "fshl" | "fshr" => { let l: Vec<T> = (0..el).map(|i| self.st.mk_fshl(ls[0][i], ls[1][i], ls[2][i], base == "fshr")).collect(); Self::wrap(ret, l) }
            "umax" => map2(self, &mut |s, a, b| { let c = s.icmp("ult", a, b); s.mnmx("umax", a, b, c); s.ite(c, b, a) }),
            "umin" => map2(self, &mut |s, a, b| { let c = s.icmp("ult", a, b); s.mnmx("umin", a, b, c); s.ite(c, a, b) }),
            "smax" => map2(self, &mut |s, a, b| { let c = s.icmp("slt", a, b); s.mnmx("smax", a, b, c); s.ite(c, b, a) }),
            "smin" => map2(self, &mut |s, a, b| { let c = s.icmp("slt", a, b); s.mnmx("smin", a, b, c); s.ite(c, a, b) }),
            "ucmp" | "scmp" => { let sg = base == "scmp"; let w = match ret { Ty::Vec(_, e) => ty_w(e), t => ty_w(t) }; map2(self, &mut |s, a, b| { let lt = s.icmp(if sg { "slt" } else { "ult" }, a, b); let gt = s.icmp(if sg { "slt" } else { "ult" }, b, a); let (m1, z, p1) = (s.st.konst(u128::MAX, w), s.st.konst(0, w), s.st.konst(1, w)); let x = s.ite(gt, p1, z); s.ite(lt, m1, x) }) }
            "usub" if n.starts_with("usub.sat") => map2(self, &mut |s, a, b| { let c = s.icmp("ult", a, b); let d = s.bin("sub", a, b, false); let w = s.st.w(a); let z = s.st.konst(0, w); s.ite(c, z, d) }),
            "uadd" if n.starts_with("uadd.sat") => map2(self, &mut |s, a, b| { let d = s.bin("add", a, b, false); let c = s.icmp("ult", d, a); let w = s.st.w(a); let m = s.st.konst(u128::MAX, w); s.ite(c, m, d) }),
            "bswap" => { let l: Vec<T> = ls[0].iter().map(|t| { let w = self.st.w(*t); let mut p = vec![]; for i in 0..w / 8 { p.push(self.st.mk_extract(*t, i * 8, 8)); } self.st.mk_concat(p) }).collect(); Self::wrap(ret, l) }
            "bitreverse" => { let l: Vec<T> = ls[0].iter().map(|t| { let w = self.st.w(*t); let mut p = vec![]; for i in 0..w { p.push(self.st.mk_extract(*t, i, 1)); } self.st.mk_concat(p) }).collect(); Self::wrap(ret, l) }
            "ctpop" => { let l: Vec<T> = ls[0].iter().map(|t| { let w = self.st.w(*t); let items: Vec<(T, u128)> = (0..w).map(|i| { let b = self.st.mk_extract(*t, i, 1); (self.st.mk_zext(b, w), 1) }).collect(); self.st.mk_lin(w, 0, items) }).collect(); Self::wrap(ret, l) }
            "ctlz" | "cttz" => { let l: Vec<T> = ls[0].iter().map(|t| { let w = self.st.w(*t); let mut r = self.st.konst(w as u128, w); for i in 0..w { let pos = if base == "ctlz" { i } else { w - 1 - i }; let b = self.st.mk_extract(*t, pos, 1); let k = self.st.konst(if base == "ctlz" { w - 1 - i } else { w - 1 - i } as u128, w); r = self.st.mk_ite(b, k, r); } r }).collect(); Self::wrap(ret, l) }
            "abs" => { let l: Vec<T> = ls[0].iter().map(|t| { let w = self.st.w(*t); let z = self.st.konst(0, w); let c = self.icmp("slt", *t, z); let ng = self.bin("sub", z, *t, false); self.ite(c, ng, *t) }).collect(); Self::wrap(ret, l) }
            "vector" if n.starts_with("vector.reduce.") => {
                let op = n.split('.').nth(2).unwrap();
                let mut r = ls[0][0];
                for x in &ls[0][1..] { r = match op { "add" | "xor" | "or" | "and" | "mul" => self.bin(op, r, *x, false), "umax" => { let c = self.icmp("ult", r, *x); self.ite(c, *x, r) } "umin" => { let c = self.icmp("ult", r, *x); self.ite(c, r, *x) } _ => return Err(format!("intrinsic {}", name)) }; }
                V::T(r)
            }
            "x86" => {
                if n.contains("pshuf.b") {
                    let lane = 16; let mut l = vec![];
                    for i in 0..el {
                        let k = ls[1][i]; let kc = self.st.conc(k).ok_or("pshufb with symbolic control")?;
                        l.push(if kc & 0x80 != 0 { self.st.konst(0, 8) } else { ls[0][i / lane * lane + (kc & 15) as usize] });
                    }
                    V::Vec(l.into())
                } else if n.contains("packuswb") {
                    let mut l = vec![];
                    let per = 8; let groups = el / per;
                    for g in 0..groups { for src in 0..2 { for i in 0..per {
                        let x = ls[src][g * per + i]; let lo = self.st.mk_trunc(x, 8);
                        let z16 = self.st.konst(0, 16); let neg = self.st.mk_slt(x, z16); let k255 = self.st.konst(255, 16); let big = self.st.mk_slt(k255, x);
                        let (z, f) = (self.st.konst(0, 8), self.st.konst(255, 8));
                        let a = self.st.mk_ite(big, f, lo); l.push(self.st.mk_ite(neg, z, a));
                    } } }
                    V::Vec(l.into())
                } else { return Err(format!("intrinsic {}", name)); }
            }
            _ => return Err(format!("intrinsic {}", name)),
        };
        Ok(Some((st, v)))
    }
}

thread_local! { pub static STACK: std::cell::RefCell<HashSet<u64>> = Default::default(); }
pub struct StackSet;
impl StackSet { fn remove(&self, b: &u64) { STACK.with(|s| { s.borrow_mut().remove(b); }) } }

pub fn short(n: &str) -> String { n.chars().take(160).collect() }
