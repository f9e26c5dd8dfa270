//! Job server: one job per line, one JSON result per line.
//!   eq    <id> <impl> <spec> tok...          impl == spec for every value of the symbolic bytes
//!   scout <id> <impl> <spec> tok...          same, along one control path, parameters as pinned 64-bit variables;
//!                                            reports inputs that flip one-sided branches
//!   seq   <id> <A> tokA... | <impl> <spec> tok...   impl after A, in the memory A left behind
//!   supp  <id> <impl> tok...                 which input bytes can influence the result
//! tokens: n:5 constant, v:name:5 pinned variable, b:name:16 symbolic bytes (pointer, length),
//!         c:name:hex concrete bytes, P:name:hex pinned bytes, L:name:hex pinned bytes with pinned length, o:64 output (pointer, capacity)
use crate::cert;
use crate::exec::*;
use crate::smt::Res;
use crate::term::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// what a model has to name: buffers (byte terms) and scalar variables
#[derive(Default, Clone)]
pub struct Inputs { pub bufs: BTreeMap<String, Vec<T>>, pub vars: BTreeMap<String, T> }

pub struct Job<'a> { pub e: &'a mut Eng, pub inp: Inputs, pub cands: Vec<String>, pub notes: Vec<String>, pub pieces: u64, pub out_cap: u64, pub work: (u64, u64), pub end: Option<Mem> }

pub enum Ran { Ret { len: T, out: Vec<T>, st: State }, NoRet, Err(String) }

impl<'a> Job<'a> {
    fn prep(&mut self, toks: &[&str], st: &mut State) -> (Vec<V>, u64, u64) {
        let (mut args, mut outp, mut cap) = (vec![], 0, 0);
        for x in toks {
            let f: Vec<&str> = x.split(':').collect();
            match f[0] {
                "n" => { let v: u64 = f[1].parse().unwrap(); args.push(V::T(self.e.st.konst(v as u128, 64))); }
                "v" => { let v: u64 = f[2].parse().unwrap(); let t = *self.inp.vars.entry(f[1].into()).or_insert_with(|| self.e.st.var(f[1], 64, Some(v as u128))); args.push(V::T(t)); }
                "b" | "c" | "P" | "L" => {
                    let data = if f[0] == "b" { vec![0; f[2].parse().unwrap()] } else { unhex(f[2]) };
                    let n = data.len() as u64;
                    let p = self.e.alloc(st, n.max(1), 16, None, false);
                    if !self.inp.bufs.contains_key(f[1]) {
                        let ts: Vec<T> = (0..n as usize).map(|i| match f[0] { "b" => self.e.st.var(&format!("{}.{}", f[1], i), 8, None), "c" => self.e.st.konst(data[i] as u128, 8), _ => self.e.st.var(&format!("{}.{}", f[1], i), 8, Some(data[i] as u128)) }).collect();
                        self.inp.bufs.insert(f[1].into(), ts);
                    }
                    let ts = self.inp.bufs[f[1]].clone();
                    let o = Rc::make_mut(st.mem.objs.get_mut(&p).unwrap());
                    for i in 0..n as usize { o.cells[i] = Cell { t: ts[i], b: 0 }; }
                    args.push(V::T(self.e.st.konst(p as u128, 64)));
                    if f[0] == "L" { let nm = format!("{}.len", f[1]); let t = *self.inp.vars.entry(nm.clone()).or_insert_with(|| self.e.st.var(&nm, 64, Some(n as u128))); args.push(V::T(t)); }
                    else { args.push(V::T(self.e.st.konst(n as u128, 64))); }
                }
                "o" => { cap = f[1].parse().unwrap(); outp = self.e.alloc(st, std::cmp::max(cap, 1), 16, Some(0), false); args.push(V::T(self.e.st.konst(outp as u128, 64))); args.push(V::T(self.e.st.konst(cap as u128, 64))); }
                _ => panic!("token {}", x),
            }
        }
        (args, outp, cap)
    }
    fn fresh(&mut self) -> State { let mut st = State::default(); self.e.init_globals(&mut st); st }
    fn run(&mut self, f: &str, toks: &[&str], mut st: State) -> Ran {
        let (args, outp, cap) = self.prep(toks, &mut st);
        self.out_cap = cap;
        match self.e.call(f, args, st) {
            Err(x) => Ran::Err(x),
            Ok(None) => Ran::NoRet,
            Ok(Some((mut s, v))) => {
                let len = match v { V::T(t) => t, _ => return Ran::Err("no scalar result".into()) };
                match self.e.read_bytes(&mut s, outp, cap) { Ok(out) => Ran::Ret { len, out, st: s }, Err(x) => Ran::Err(x) }
            }
        }
    }
    fn cand_from(&mut self, why: &str, val: &dyn Fn(T) -> u128) {
        if self.cands.len() >= 24 { return; }
        let mut o = format!("{{\"why\":{}", js(why));
        for (n, ts) in &self.inp.bufs { o.push_str(&format!(",{}:\"{}\"", js(n), ts.iter().map(|t| format!("{:02x}", self.e.st.is_const(*t).unwrap_or_else(|| val(*t)))).collect::<String>())); }
        for (n, t) in &self.inp.vars { o.push_str(&format!(",{}:{}", js(n), val(*t))); }
        o.push('}');
        if !self.cands.contains(&o) { self.cands.push(o); }
    }
    fn cand_sim(&mut self, why: &str, k: usize) {
        let mut m: FxMap<T, u128> = Default::default();
        let all: Vec<T> = self.inp.bufs.values().flatten().copied().chain(self.inp.vars.values().copied()).collect();
        for t in all { let s = self.e.sim(t); m.insert(t, s[k]); }
        self.cand_from(why, &|t| m[&t]);
    }
    fn cand_model(&mut self, why: &str, model: &[(T, u128)], fill: usize) -> FxMap<T, u128> {
        let mut m: FxMap<T, u128> = Default::default();
        let all: Vec<T> = self.inp.bufs.values().flatten().copied().chain(self.inp.vars.values().copied()).collect();
        for t in &all { let s = self.e.sim(*t); m.insert(*t, s[fill]); }
        for (t, v) in model { m.insert(*t, *v); }
        let m2 = m.clone();
        self.cand_from(why, &|t| m2.get(&t).copied().unwrap_or(0));
        m
    }
    /// evaluate the whole store under values for variables (others: simulation 1)
    pub fn eval(&mut self, asg: &FxMap<T, u128>, roots: &[T]) -> Vec<u128> {
        let top = *roots.iter().max().unwrap() as usize;
        self.e.sim(top as T);
        let mut need = vec![false; top + 1];
        for r in roots { need[*r as usize] = true; }
        for i in (0..=top).rev() { if need[i] { self.e.st.children(i as T, &mut |c| need[c as usize] = true); } }
        let mut v = vec![0u128; top + 1];
        for i in 0..=top {
            if !need[i] { continue; }
            v[i] = if let Some(x) = asg.get(&(i as T)) { *x } else if let Op::Var(_) = self.e.st.op(i as T) { self.e.sims[i][1] } else { let vv = &v; self.e.st.eval_node(i as T, &|c| vv[c as usize]) };
        }
        roots.iter().map(|r| v[*r as usize]).collect()
    }
    fn conerange(&self, roots: &[T]) -> Vec<bool> {
        let top = roots.iter().max().map_or(0, |x| *x as usize);
        let mut need = vec![false; top + 1];
        for r in roots { need[*r as usize] = true; }
        for i in (0..=top).rev() { if need[i] { self.e.st.children(i as T, &mut |c| need[c as usize] = true); } }
        need
    }
    fn model(&mut self, a: &[T], timeout: u64) -> Option<Vec<(T, u128)>> {
        self.pieces += 1;
        let st = &self.e.st;
        if let Res::Sat(m) = self.e.smt.check_full(st, a, timeout, 60_000) { return Some(m); }
        None
    }
    /// deaths of the implementation: returns false if a panic/UB/limit is reachable or not excluded
    fn deaths(&mut self, from: usize) -> (bool, bool) {
        let ds: Vec<Death> = self.e.deaths[from..].to_vec();
        let (mut clean, mut open) = (true, false);
        for d in ds {
            let pc = d.pc.clone();
            if pc.is_empty() { clean = false; self.notes.push(format!("{}: {}", d.kind, short(&d.what))); self.cand_sim(&format!("{} {}", d.kind, d.what), 1); continue; }
            let st = &self.e.st;
            self.pieces += 1;
            match self.e.smt.check_full(st, &pc, 8000, 80_000) {
                Res::Unsat => {}
                Res::Sat(m) => { clean = false; self.notes.push(format!("reachable {}: {}", d.kind, short(&d.what))); self.cand_model(&format!("{} {}", d.kind, d.what), &m, 1); }
                Res::Unknown => {
                    clean = false; open = true; self.notes.push(format!("not excluded {}: {}", d.kind, short(&d.what)));
                    let ss: Vec<[u128; NS]> = pc.iter().map(|p| self.e.sim(*p)).collect();
                    for k in 0..NS { if ss.iter().all(|s| s[k] != 0) { self.cand_sim(&d.what, k); } }
                }
            }
        }
        (clean, open)
    }
    /// "equal" | "differs" | "open"
    fn compare(&mut self, a: &[T], b: &[T]) -> &'static str {
        let diff: Vec<(T, T)> = a.iter().copied().zip(b.iter().copied()).filter(|(x, y)| x != y).collect();
        if diff.is_empty() { return "equal"; }
        let mut hit = false;
        for k in 0..NS {
            let mut d = false;
            for (x, y) in &diff { if self.e.sim(*x)[k] != self.e.sim(*y)[k] { d = true; break; } }
            if d { hit = true; self.cand_sim("simulation", k); if self.cands.len() > 3 { break; } }
        }
        if hit { return "differs"; }
        // rare difference: look at the conditions only the implementation has
        let (ra, rb): (Vec<T>, Vec<T>) = diff.iter().copied().unzip();
        let (ca, cb) = (self.conerange(&ra), self.conerange(&rb));
        let inb = |t: T| (t as usize) < cb.len() && cb[t as usize];
        let mut goals: Vec<Vec<T>> = vec![];
        let only: Vec<T> = (0..ca.len() as T).filter(|t| ca[*t as usize] && !inb(*t)).collect();
        self.notes.push(format!("{} result bytes differ as terms; {} terms only in the implementation", diff.len(), only.len()));
        for &t in &only {
            if goals.len() > 400 { break; }
            if let Op::Ite(c, x, y) = *self.e.st.op(t) {
                if inb(x) || inb(y) || goals.len() < 50 { let mut ps = vec![]; self.ite_goals(t, &inb2(&cb), vec![], &mut ps, 0); for p in ps { let g: Vec<T> = p.iter().map(|(c, pol)| if *pol { *c } else { self.e.st.mk_not(*c) }).collect(); if g.len() == 1 { let e = self.e.st.mk_eq(x, y); let ne = self.e.st.mk_not(e); let mut h = g.clone(); h.push(ne); goals.push(h); } goals.push(g); } let _ = c; }
            }
        }
        for &t in &only { if goals.len() > 600 { break; } if self.e.st.w(t) == 1 { if let Op::Eq(..) | Op::Ult(..) | Op::Slt(..) = self.e.st.op(t) { let s = self.e.sim(t); let g = if s[1] != 0 { self.e.st.mk_not(t) } else { t }; goals.push(vec![g]); } } }
        let roots: Vec<T> = ra.iter().chain(rb.iter()).copied().collect();
        let n = ra.len();
        let t0 = std::time::Instant::now();
        let mut seen: HashSet<Vec<T>> = HashSet::new();
        for mut g in goals {
            if t0.elapsed().as_secs() > 40 || self.cands.len() > 3 { break; }
            if !seen.insert(g.clone()) { continue; }
            for round in 0..4 {
                let m = match self.model(&g, 4000) { Some(m) => m, None => break };
                let before = hit;
                for fill in [1usize, 0] {
                    let mut asg: FxMap<T, u128> = Default::default();
                    let all: Vec<T> = self.inp.bufs.values().flatten().copied().chain(self.inp.vars.values().copied()).collect();
                    for t in &all { let s = self.e.sim(*t); asg.insert(*t, s[fill]); }
                    for (t, v) in &m { asg.insert(*t, *v); }
                    let v = self.eval(&asg, &roots);
                    if v[..n] != v[n..] { hit = true; let a2 = asg.clone(); self.cand_from("model", &|t| a2.get(&t).copied().unwrap_or(0)); break; }
                }
                if hit != before || m.is_empty() || round == 3 { break; }
                // same result for this one: ask for another
                let mut same = vec![];
                for (t, v) in m.iter().take(64) { let k = self.e.st.konst(*v, self.e.st.w(*t)); same.push(self.e.st.mk_eq(*t, k)); }
                let all = self.e.st.mk_and(same); let no = self.e.st.mk_not(all); g.push(no);
            }
        }
        if hit { return "differs"; }
        // direct queries on the differing words, with growing cones
        let mut left = 0;
        for (x, y) in &diff {
            let mut ok = false;
            for d in [4usize, 8, 16, 40] {
                self.pieces += 1;
                let st = &self.e.st;
                match self.e.smt.equal_cut(st, *x, *y, d, 1500) { (Res::Unsat, _) => { ok = true; break; } (Res::Sat(_), true) => break, _ => {} }
                if t0.elapsed().as_secs() > 60 { break; }
            }
            if !ok { left += 1; break; }
        }
        if left == 0 { "equal" } else { "open" }
    }
    fn ite_goals(&self, t: T, inb: &dyn Fn(T) -> bool, pre: Vec<(T, bool)>, out: &mut Vec<Vec<(T, bool)>>, d: u32) {
        // conditions (as literals) under which t takes a branch the reference does not have; literals resolved by caller
        if d > 6 || out.len() > 400 { return; }
        if let Op::Ite(c, x, y) = *self.e.st.op(t) {
            for (br, pol) in [(x, true), (y, false)] {
                if inb(br) { continue; }
                let mut p = pre.clone(); p.push((c, pol));
                if let Op::Ite(..) = self.e.st.op(br) { self.ite_goals(br, inb, p.clone(), out, d + 1); }
                out.push(p);
            }
        }
    }
    fn cert(&mut self) -> String {
        let c = { let e = &mut *self.e; cert::validate(&e.st, &mut e.smt, 0) };
        for f in c.failed.iter().take(3) { self.notes.push(format!("rewrite not confirmed: {}", f)); }
        format!("\"cert\":{{\"steps\":{},\"nontrivial\":{},\"proved\":{},\"failed\":{}}}", c.steps, c.nontrivial, c.proved, c.failed.len())
    }
}
fn inb2<'x>(cb: &'x [bool]) -> impl Fn(T) -> bool + 'x { move |t: T| (t as usize) < cb.len() && cb[t as usize] }

fn eq_core(j: &mut Job, f: &str, g: &str, toks: &[&str], st0: Option<State>) -> (&'static str, Option<Vec<T>>, Option<Vec<T>>) {
    let d0 = j.e.deaths.len();
    let st = match st0 { Some(s) => s, None => j.fresh() };
    let steps0 = j.e.steps;
    let ri = j.run(f, toks, st);
    let isteps = j.e.steps - steps0;
    j.end = if let Ran::Ret { st, .. } = &ri { Some(st.mem.clone()) } else { None };
    j.notes.push(format!("impl steps {}", isteps));
    let d1 = j.e.deaths.len();
    if let Ran::Err(x) = &ri { j.notes.push(format!("not encoded: {}", x)); return ("error", None, None); }
    let sc = j.e.scouting; j.e.scouting = false;
    let (gw, gr, ec, lim) = (j.e.gwrites.clone(), j.e.gread_mut.clone(), j.e.env_calls.clone(), j.e.step_limit);
    j.e.step_limit = j.e.steps + 400_000_000;
    let st = j.fresh();
    let st1 = j.e.steps;
    let rs = j.run(g, toks, st);
    j.work = (isteps as u64, (j.e.steps - st1) as u64);
    j.e.step_limit = lim; j.e.gwrites = gw; j.e.gread_mut = gr; j.e.env_calls = ec;
    j.e.scouting = sc;
    if g.starts_with("i_") && matches!(rs, Ran::NoRet) && j.e.deaths[d1..].iter().all(|d| d.kind == "panic") {
        // both sides are code under test: both must fail
        let both = matches!(ri, Ran::NoRet) && j.e.deaths[d0..d1].iter().all(|d| d.kind == "panic");
        if both { j.notes.push("both panic".into()); return ("equal", None, None); }
        j.cand_sim("only one side panics", 1); return ("differs", None, None);
    }
    if j.e.deaths.len() > d1 { let w = j.e.deaths[d1].what.clone(); j.notes.push(format!("reference died: {}", w)); j.e.deaths.truncate(d1); return ("error", None, None); }
    let (ls, os) = match rs { Ran::Ret { len, out, .. } => (len, out), Ran::NoRet => { j.notes.push("reference does not return".into()); return ("error", None, None); } Ran::Err(x) => { j.notes.push(format!("reference not encoded: {}", x)); return ("error", None, None); } };
    let want = match j.e.st.conc(ls) { Some(n) => n as u64, None => { j.notes.push("reference length symbolic".into()); return ("error", None, None); } };
    if want == u64::MAX {
        return match ri {
            Ran::NoRet => {
                if j.e.deaths[d0..].iter().any(|d| d.kind != "panic") { let w: Vec<String> = j.e.deaths[d0..].iter().map(|d| format!("{}: {}", d.kind, short(&d.what))).collect(); j.notes.extend(w); j.cand_sim("must panic", 1); return ("differs", None, None); }
                j.notes.push("panics as required".into()); ("equal", None, None)
            }
            _ => { j.notes.push("returned where it must panic".into()); for k in 0..3 { j.cand_sim("must panic", k); } ("differs", None, None) }
        };
    }
    let (clean, open) = { let x = j.deaths(d0); x };
    match ri {
        Ran::Ret { len, out, .. } => {
            match j.e.st.conc(len) {
                Some(n) if n as u64 == want => {}
                Some(n) => { j.notes.push(format!("length {} instead of {}", n, want)); for k in 0..2 { j.cand_sim("length", k); } return ("differs", None, None); }
                None => {
                    let w = j.e.st.konst(want as u128, 64); let e = j.e.st.mk_eq(len, w); let ne = j.e.st.mk_not(e);
                    match j.model(&[ne], 5000) { Some(m) => { j.cand_model("length", &m, 1); return ("differs", None, None); } None => { if j.e.feasible(&[ne]) { return ("open", None, None); } } }
                }
            }
            let n = (want as usize).min(out.len());
            let c = j.compare(&out[..n], &os[..n]);
            let v = if c == "differs" || (!clean && !open) { "differs" } else if open { "open" } else { c };
            (v, Some(out[..n].to_vec()), Some(os[..n].to_vec()))
        }
        _ => { if clean { j.notes.push("does not return".into()); } j.cand_sim("no return", 1); ("differs", None, None) }
    }
}

fn flips(j: &mut Job, max: usize) -> Vec<String> {
    // one-sided branch sites whose condition depends on inputs
    let br = std::mem::take(&mut j.e.branches);
    let mut sites: BTreeMap<String, (Vec<(T, bool)>, [bool; 2])> = Default::default();
    for b in &br { let s = sites.entry(b.site.clone()).or_insert((vec![], [false, false])); s.1[b.val as usize] = true; if s.0.len() < 6 && j.e.st.is_const(b.cond).is_none() && !s.0.iter().any(|x| x.0 == b.cond) { s.0.push((b.cond, b.val)); } }
    let mut out = vec![];
    let lim: Vec<(T, u128, u128)> = j.inp.vars.iter().map(|(n, t)| (*t, match n.as_str() { "k" => 5000, "t" => 300, "r" => 600, "c" => 600, _ => 3000 }, j.e.st.conc(*t).unwrap())).collect();
    let bytes: Vec<T> = j.inp.bufs.values().flatten().copied().collect();
    let t0 = std::time::Instant::now();
    let mut uniq: HashSet<String> = Default::default();
    let mut work: Vec<(usize, String, T, bool)> = vec![];
    for (site, (cs, seen)) in sites {
        if seen[0] && seen[1] { continue; }
        let conv = site.contains("#trunc") || site.contains("#mask");
        for (c, val) in cs { if conv { let cone = j.conerange(&[c]); if bytes.iter().any(|b| cone.get(*b as usize) == Some(&true)) { continue; } } let n = j.conerange(&[c]).iter().filter(|x| **x).count(); work.push((n, site.clone(), c, val)); }
    }
    work.sort();
    {
        for (_, site, c, val) in work {
            if out.len() >= max || t0.elapsed().as_secs() > 8 { break; }
            let goal = if val { j.e.st.mk_not(c) } else { c };
            // which inputs does it depend on
            let cone = j.conerange(&[c]);
            let dep = |t: T| (t as usize) < cone.len() && cone[t as usize];
            let mut attempts: Vec<Vec<T>> = vec![];
            let dv: Vec<(T, u128, u128)> = lim.iter().copied().filter(|x| dep(x.0)).collect();
            if dv.is_empty() && !bytes.iter().any(|b| dep(*b)) { continue; }
            for one in &dv { // only one parameter may move
                let mut a = vec![goal];
                for x in &dv { let t = if x.0 == one.0 { let l = j.e.st.konst(x.1 + 1, 64); j.e.st.mk_ult(x.0, l) } else { let k = j.e.st.konst(x.2, 64); j.e.st.mk_eq(x.0, k) }; a.push(t); }
                attempts.push(a);
            }
            let mut a = vec![goal];
            for x in &dv { let l = j.e.st.konst(x.1 + 1, 64); let t = j.e.st.mk_ult(x.0, l); a.push(t); }
            if dv.len() != 1 { attempts.push(a); }
            // only when there is no small value: large ones
            let small = attempts.len();
            if !dv.is_empty() { let mut a = vec![goal]; for x in &dv { let l = j.e.st.konst(match x.1 { 5000 => 2_000_000, 3000 => 200_000, _ => 300_000 }, 64); let t = j.e.st.mk_ult(x.0, l); a.push(t); } attempts.push(a); }
            let mut any = false;
            for (ai, a) in attempts.into_iter().enumerate() {
                if ai >= small && any { break; }
                let st = &j.e.st;
                j.pieces += 1;
                if let Res::Sat(m) = j.e.smt.check_full(st, &a, 1500, 20_000) {
                    any = true;
                    let mut o = format!("{{\"why\":{}", js(&site));
                    let mm: FxMap<T, u128> = m.iter().copied().collect();
                    for (n, ts) in &j.inp.bufs { if ts.iter().any(|t| mm.contains_key(t)) { o.push_str(&format!(",{}:\"{}\"", js(n), ts.iter().map(|t| format!("{:02x}", mm.get(t).copied().or(j.e.st.conc(*t)).unwrap_or(0))).collect::<String>())); } }
                    for (n, t) in &j.inp.vars { if let Some(v) = mm.get(t) { o.push_str(&format!(",{}:{}", js(n), v)); } }
                    o.push('}');
                    let key = o.split_once(',').map_or(String::new(), |x| x.1.to_string());
                    if uniq.insert(key) { out.push(o); }
                }
            }
        }
    }
    out
}

pub fn run_line(e: &mut Eng, line: &str) -> String {
    let t0 = std::time::Instant::now();
    let w: Vec<&str> = line.split_whitespace().collect();
    e.reset_store();
    e.st.log_on = true;
    e.called.clear();
    e.scouting = w[0] == "scout" || w[0] == "probe"; e.st.scout = e.scouting;
    let (q0, u0, s0, k0, tm0, h0) = (e.smt.queries, e.smt.unsat, e.smt.sat, e.smt.unknown, e.smt.time, e.smt.hits);
    let mut j = Job { e, inp: Default::default(), cands: vec![], notes: vec![], pieces: 0, out_cap: 0, work: (0, 0), end: None };
    let mut extra = String::new();
    let verdict: String = match w[0] {
        "eq" => { let (v, o, _) = eq_core(&mut j, w[2], w[3], &w[4..], None); if let Some(o) = o { extra.push_str(&digest(&mut j, &o)); } v.into() }
        "tot" => {
            // returns n bytes, whatever the content
            let d0 = j.e.deaths.len();
            let st = j.fresh();
            let want: u64 = w[3].parse().unwrap();
            match j.run(w[2], &w[4..], st) {
                Ran::Err(x) => { j.notes.push(x); "error".into() }
                Ran::NoRet => { j.deaths(d0); j.cand_sim("no return", 1); "differs".into() }
                Ran::Ret { len, out, .. } => {
                    let (clean, open) = j.deaths(d0);
                    let nb = (want as usize).min(out.len());
                    extra.push_str(&digest(&mut j, &out[..nb]));
                    match j.e.st.conc(len) {
                        Some(n) if n as u64 == want => (if clean { "equal" } else if open { "open" } else { "differs" }).into(),
                        Some(n) => { j.notes.push(format!("length {}", n)); for k in 0..2 { j.cand_sim("length", k); } "differs".into() }
                        None => { let k = j.e.st.konst(want as u128, 64); let e = j.e.st.mk_eq(len, k); let ne = j.e.st.mk_not(e); match j.model(&[ne], 5000) { Some(m) => { j.cand_model("length", &m, 1); "differs".into() } None => if j.e.feasible(&[ne]) { "open".into() } else { "equal".into() } } }
                    }
                }
            }
        }
        "safe" => {
            // no access outside live objects, nothing uninitialised in the result; panics are fine
            let d0 = j.e.deaths.len();
            let st = j.fresh();
            let r = j.run(w[2], &w[3..], st);
            let bad: Vec<Death> = j.e.deaths.drain(d0..).filter(|d| d.kind != "panic" && d.kind != "limit").collect();
            j.e.deaths.extend(bad);
            match r {
                Ran::Err(x) => { j.notes.push(x); "error".into() }
                Ran::NoRet => { let (clean, open) = j.deaths(d0); (if clean { "done" } else if open { "open" } else { "differs" }).into() }
                Ran::Ret { len, out, .. } => {
                    let (clean, open) = j.deaths(d0);
                    let n = j.e.st.conc(len).unwrap_or(0) as usize; let out = &out[..n.min(out.len())];
                    let cone = j.conerange(out);
                    let und = (0..cone.len()).filter(|t| cone[*t]).filter(|t| match j.e.st.op(*t as T) { Op::Var(i) => j.e.st.vars[*i as usize].name == "undef", _ => false }).count();
                    if und > 0 { j.notes.push(format!("ub: result depends on {} uninitialised bytes", und)); for k in 0..2 { j.cand_sim("uninitialised", k); } }
                    (if clean && und == 0 { "done" } else if open { "open" } else { "differs" }).into()
                }
            }
        }
        "scout" | "probe" => {
            let (v, oi, os) = eq_core(&mut j, w[2], w[3], &w[4..], None);
            let mut v = v.to_string();
            if let (Some(a), Some(b)) = (&oi, &os) {
                extra.push_str(&digest(&mut j, a));
                if a != b {
                    // vary one parameter at a time over the terms of this path
                    j.cands.clear();
                    let mut found = false;
                    let vars: Vec<(String, T)> = j.inp.vars.iter().map(|(n, t)| (n.clone(), *t)).collect();
                    let roots: Vec<T> = a.iter().chain(b.iter()).copied().collect();
                    let mut base: FxMap<T, u128> = Default::default();
                    for (_, t) in &vars { base.insert(*t, j.e.st.conc(*t).unwrap()); }
                    for (n, t) in &vars {
                        let b0 = base[t];
                        for sft in [8u32, 9, 10, 12, 15, 16, 20, 24, 31, 32, 33, 48, 63] {
                            let mut asg = base.clone(); asg.insert(*t, b0 + (1u128 << sft));
                            let r = j.eval(&asg, &roots);
                            if r[..a.len()] != r[a.len()..] { found = true; let a2 = asg.clone(); j.cand_from(&format!("{} at bit {}", n, sft), &|t| a2.get(&t).copied().unwrap_or_else(|| 0)); break; }
                        }
                    }
                    // bytes are pinned: cand_from filled them with 0; the caller keeps its own content
                    v = if found { "differs".into() } else { "open".into() };
                }
            }
            if w[0] == "scout" { v } else { let tf = std::time::Instant::now(); let f = flips(&mut j, 60); j.notes.push(format!("flip search {:.1}s", tf.elapsed().as_secs_f64()));
            extra.push_str(&format!(",\"flips\":[{}],\"branches\":{}", f.join(","), f.len()));
            v }
        }
        "seq" => {
            // A, then impl in the state A left; globals that do not settle are replaced by arbitrary bytes
            let bar = w.iter().position(|x| *x == "|").unwrap();
            let st = j.fresh();
            let g0 = st.mem.clone();
            let a1 = j.run(w[2], &w[3..bar], st);
            match a1 {
                Ran::Ret { st: s1, .. } => {
                    let toks2: Vec<String> = w[3..bar].iter().map(|t| if t.starts_with("b:") { let f: Vec<&str> = t.split(':').collect(); format!("b:{}2:{}", f[1], f[2]) } else { t.to_string() }).collect();
                    let toks2: Vec<&str> = toks2.iter().map(|s| s.as_str()).collect();
                    let mut s2 = s1.clone();
                    let mut unsettled = vec![]; let mut changed = 0;
                    if let Ran::Ret { st: sb, .. } = j.run(w[2], &toks2, s1.clone()) {
                        for (a, o) in &sb.mem.objs {
                            if !o.global || o.ro { continue; }
                            if let Some(p) = g0.objs.get(a) { if p.cells != o.cells { changed += 1; } }
                            if let Some(p) = s1.mem.objs.get(a) { if p.cells != o.cells { unsettled.push(*a); } }
                        }
                    } else { j.notes.push("second call does not return".into()); }
                    for a in &unsettled {
                        let n = s2.mem.objs[a].cells.len();
                        let nm = j.e.m.globals.iter().find(|g| g.addr == *a).map(|g| g.name.clone()).unwrap_or_default();
                        j.notes.push(format!("state kept between calls: {} ({} bytes)", short(&nm), n));
                        let cells: Vec<Cell> = (0..n).map(|i| Cell { t: j.e.st.var(&format!("g{:x}.{}", a, i), 8, None), b: 0 }).collect();
                        let ts: Vec<T> = cells.iter().map(|c| c.t).collect();
                        if n <= 64 { j.inp.bufs.insert(format!("global.{:x}", a), ts); }
                        Rc::make_mut(s2.mem.objs.get_mut(a).unwrap()).cells = cells;
                    }
                    extra.push_str(&format!(",\"globals_changed\":{},\"globals_unsettled\":{}", changed, unsettled.len()));
                    // state that calls change and that other threads can reach: arbitrary at every read
                    let shared: Vec<u64> = unsettled.iter().copied().filter(|a| j.e.m.globals.iter().any(|g| g.addr == *a && !g.tls)).collect();
                    if !shared.is_empty() { j.notes.push(format!("{} objects shared between threads", shared.len())); }
                    j.e.interfere = shared.iter().copied().collect();
                    let before = s2.mem.clone(); let again = s2.clone();
                    let (mut v, ..) = eq_core(&mut j, w[bar + 1], w[bar + 2], &w[bar + 3..], Some(s2));
                    // what the second call itself changed
                    let mut shared = shared;
                    let more: Vec<u64> = match &j.end { Some(m) => m.objs.iter().filter(|(a, o)| o.global && !o.ro && !shared.contains(a) && before.objs.get(a).map(|p| p.cells != o.cells).unwrap_or(false) && j.e.m.globals.iter().any(|g| g.addr == **a && !g.tls)).map(|x| *x.0).collect(), None => vec![] };
                    if !more.is_empty() {
                        for a in &more { let nm = j.e.m.globals.iter().find(|g| g.addr == *a).map(|g| g.name.clone()).unwrap_or_default(); j.notes.push(format!("written by the second call: {}", short(&nm))); }
                        if w[2] == w[bar + 1] || v != "equal" { shared.extend(more); j.e.interfere = shared.iter().copied().collect(); let (v2, ..) = eq_core(&mut j, w[bar + 1], w[bar + 2], &w[bar + 3..], Some(again)); if v == "equal" { v = v2; } }
                    }
                    j.e.interfere.clear();
                    extra.push_str(&format!(",\"shared\":{}", shared.len()));
                    let env: Vec<String> = j.e.env_calls.keys().map(|k| js(k)).collect();
                    extra.push_str(&format!(",\"env\":[{}]", env.join(",")));
                    v.into()
                }
                Ran::NoRet => {
                    // a first call that panics: what it left in global memory is replaced by arbitrary bytes (clean-up code is not executed)
                    let pm = std::mem::take(&mut j.e.panic_mem); let d0 = j.e.deaths.len();
                    if pm.is_empty() || j.e.deaths.iter().any(|d| d.kind != "panic") { j.notes.push("first call does not return".into()); "error".into() } else {
                        let mut s2 = j.fresh(); s2.mem = pm[0].clone(); let mut changed = vec![];
                        for m in &pm { for (a, o) in &m.objs { if o.global && !o.ro && g0.objs.get(a).map(|p| p.cells != o.cells).unwrap_or(true) && !changed.contains(a) { changed.push(*a); } } }
                        for a in &changed {
                            let n = s2.mem.objs[a].cells.len(); let nm = j.e.m.globals.iter().find(|g| g.addr == *a).map(|g| g.name.clone()).unwrap_or_default();
                            j.notes.push(format!("state kept after a panic: {} ({} bytes)", short(&nm), n));
                            let cells: Vec<Cell> = (0..n).map(|i| Cell { t: j.e.st.var(&format!("g{:x}.{}", a, i), 8, None), b: 0 }).collect();
                            Rc::make_mut(s2.mem.objs.get_mut(a).unwrap()).cells = cells;
                        }
                        extra.push_str(&format!(",\"globals_changed\":{},\"first_panics\":true", changed.len()));
                        j.e.deaths.truncate(0); let _ = d0;
                        let (v, ..) = eq_core(&mut j, w[bar + 1], w[bar + 2], &w[bar + 3..], Some(s2));
                        let env: Vec<String> = j.e.env_calls.keys().map(|k| js(k)).collect();
                        extra.push_str(&format!(",\"env\":[{}]", env.join(",")));
                        v.into()
                    }
                }
                Ran::Err(x) => { j.notes.push(x); "error".into() }
            }
        }
        "supp" => {
            let st = j.fresh();
            match j.run(w[2], &w[3..], st) {
                Ran::Ret { len, out, .. } => {
                    let n = j.e.st.conc(len).unwrap_or(0) as usize;
                    let out = &out[..n.min(out.len())];
                    let cone = j.conerange(out);
                    let mut dead = vec![]; let mut open = vec![]; let mut live = 0;
                    let bufs = j.inp.bufs.clone();
                    let all: Vec<T> = bufs.values().flatten().copied().collect();
                    let mut base: FxMap<T, u128> = Default::default();
                    for t in &all { let s = j.e.sim(*t)[1]; base.insert(*t, s); }
                    let v0 = if out.is_empty() { vec![] } else { j.eval(&base, out) };
                    for (nm, ts) in &bufs {
                        for (i, t) in ts.iter().enumerate() {
                            if (*t as usize) >= cone.len() || !cone[*t as usize] { dead.push(format!("[{},{}]", js(nm), i)); continue; }
                            let mut ok = true;
                            for fl in 0..8 { let mut a = base.clone(); a.insert(*t, base[t] ^ (1u128 << fl)); if j.eval(&a, out) == v0 { ok = false; break; } }
                            if ok { live += 1 } else { open.push(format!("[{},{}]", js(nm), i)); }
                        }
                    }
                    extra.push_str(&format!(",\"dead\":[{}],\"open\":[{}],\"live\":{}", dead.join(","), open.join(","), live));
                    "done".into()
                }
                Ran::NoRet => "noret".into(),
                Ran::Err(x) => { j.notes.push(x); "error".into() }
            }
        }
        x => { j.notes.push(format!("unknown job {}", x)); "error".into() }
    };
    let t1 = t0.elapsed().as_secs_f64();
    let cert = if (verdict == "equal" || verdict == "done") && w[0] != "probe" { j.cert() } else { "\"cert\":null".into() };
    let (steps, nodes, forks, nd, unk, pieces) = (j.e.steps, j.e.st.len(), j.e.forks, j.e.deaths.len(), j.e.unknown_branches, j.pieces);
    let gw = j.e.gwrites.len();
    let mut fns: Vec<String> = j.e.called.iter().filter(|f| f.contains("lyra2") || f.starts_with("i_") || f.contains("blake") || f.contains("groestl") || f.contains("skein") || f.contains("sha3") || f.contains("keccak")).map(|f| js(&short(f))).collect(); fns.sort(); let nf = j.e.called.len();
    let s = &j.e.smt;
    format!("{{\"id\":{},\"kind\":{},\"verdict\":{},\"cands\":[{}],\"notes\":[{}]{},{},\"isteps\":{},\"ssteps\":{},\"steps\":{},\"nodes\":{},\"forks\":{},\"deaths\":{},\"unknown_branches\":{},\"gwrites\":{},\"queries\":{},\"asked\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"hits\":{},\"solver_s\":{:.3},\"exec_s\":{:.2},\"wall_s\":{:.2},\"fns\":{},\"functions\":[{}]}}",
        js(w[1]), js(w[0]), js(&verdict), j.cands.join(","), j.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(","), extra, cert, j.work.0, j.work.1, steps, nodes, forks, nd, unk, gw, pieces, s.queries - q0, s.unsat - u0, s.sat - s0, s.unknown - k0, s.hits - h0, s.time - tm0, t1, t0.elapsed().as_secs_f64(), nf, fns.join(","))
}
/// simulation 1 of inputs and outputs: the orchestrator replays it natively (translator validation)
fn digest(j: &mut Job, o: &[T]) -> String {
    let mut h = String::new();
    for b in o { let x = j.e.sim(*b)[1]; h.push_str(&format!("{:02x}", x)); }
    let n = j.cands.len();
    j.cands.truncate(23);
    j.cand_sim("sample", 1);
    let c = j.cands.pop().unwrap(); let _ = n;
    format!(",\"sample_in\":{},\"sample_out\":\"{}\"", c, h)
}
