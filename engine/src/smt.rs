//! SMT-LIB printing of term cones and a persistent solver process.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res { Unsat, Sat(Vec<(T, u128)>), Unknown }
#[derive(Clone, Debug)]
enum CRes { Unsat, Sat(Vec<u128>), Unknown(u64) }

pub struct Smt {
    cmd: Vec<String>,
    proc_: Option<(Child, ChildStdin, Receiver<String>)>,
    cache: HashMap<String, CRes>,
    pub queries: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub hits: u64,
    pub time: f64,
    pub errors: Vec<String>,
    pub log: Option<std::fs::File>,
}

pub struct Cone { pub text: String, pub leaves: Vec<T>, pub exact: bool, pub name: FxMap<T, u32>, pub nodes: usize }

pub fn bv(v: u128, w: u16) -> String { if w % 4 == 0 { format!("#x{:0width$x}", v, width = w as usize / 4) } else { format!("#b{:0width$b}", v, width = w as usize) } }

pub fn cone(st: &Store, roots: &[T], depth: usize, limit: usize) -> Option<Cone> { cone_m(st, roots, depth, limit, false) }
/// `flat`: below the roots expand only slicing, xor, boolean and selection nodes
pub fn cone_m(st: &Store, roots: &[T], depth: usize, limit: usize, flat: bool) -> Option<Cone> {
    let skip = |t: T| flat && !roots.contains(&t) && !(st.w(t) == 1 || matches!(st.op(t), Op::Xor(..) | Op::Concat(_) | Op::Extract(..) | Op::Ite(..) | Op::Const(_) | Op::Var(_)));
    // breadth-first distances
    let mut dist: FxMap<T, usize> = Default::default();
    let mut cur: Vec<T> = vec![];
    for r in roots { if dist.insert(*r, 0).is_none() { cur.push(*r); } }
    let mut d = 0;
    let mut exact = true;
    while !cur.is_empty() {
        if d > depth { for t in &cur { if !matches!(st.op(*t), Op::Const(_) | Op::Var(_)) { exact = false; } } break; }
        let mut nx = vec![];
        for t in &cur { if skip(*t) { exact = false; continue; } st.children(*t, &mut |c| if !dist.contains_key(&c) { dist.insert(c, d + 1); nx.push(c); }); }
        if dist.len() > limit { return None; }
        cur = nx; d += 1;
    }
    let mut name: FxMap<T, u32> = Default::default();
    let mut leaves = vec![];
    let mut text = String::new();
    let mut stack: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, done)) = stack.pop() {
        if name.contains_key(&t) { continue; }
        let expand = dist[&t] <= depth && !skip(t);
        if !done && expand {
            stack.push((t, true));
            let mut ch = vec![]; st.children(t, &mut |c| ch.push(c));
            for c in ch.into_iter().rev() { if !name.contains_key(&c) { stack.push((c, false)); } }
            continue;
        }
        let id = name.len() as u32;
        let w = st.w(t);
        if !expand && !matches!(st.op(t), Op::Const(_)) || matches!(st.op(t), Op::Var(_)) {
            leaves.push(t);
            let _ = writeln!(text, "(declare-const x{} (_ BitVec {}))", id, w);
        } else {
            let _ = write!(text, "(define-fun x{} () (_ BitVec {}) ", id, w);
            expr(st, t, &name, &mut text);
            text.push_str(")\n");
        }
        name.insert(t, id);
    }
    let nodes = name.len();
    Some(Cone { text, leaves, exact, name, nodes })
}

/// Cone for a rewrite lemma: both sides are expanded level by level, nodes reached from both
/// sides are cut, and cut operands that always occur together in the same sums / exclusive-ors are
/// replaced by one arbitrary value (a generalisation, so unsat carries over).
pub fn lemma_cone(st: &Store, left: &[T], right: T, depth: usize) -> Option<Cone> {
    let mut da: FxMap<T, usize> = Default::default();
    let mut db: FxMap<T, usize> = Default::default();
    let mut expanded: std::collections::BTreeSet<T> = Default::default();
    let (mut fa, mut fb): (Vec<T>, Vec<T>) = (left.to_vec(), vec![right]);
    for t in left { da.insert(*t, 0); }
    db.insert(right, 0);
    let leafop = |t: T| matches!(st.op(t), Op::Const(_) | Op::Var(_));
    let mut exact = true;
    for d in 0..=depth {
        let mut go = |f: &Vec<T>, mine: &mut FxMap<T, usize>, other: &FxMap<T, usize>, nx: &mut Vec<T>, exact: &mut bool| {
            for t in f {
                if leafop(*t) { continue; }
                if d > 0 && other.contains_key(t) && !left.contains(t) { *exact = false; continue; }
                expanded.insert(*t);
                st.children(*t, &mut |c| if !mine.contains_key(&c) { mine.insert(c, d + 1); nx.push(c); });
            }
        };
        let (mut na, mut nb) = (vec![], vec![]);
        go(&fb, &mut db, &da, &mut nb, &mut exact);
        go(&fa, &mut da, &db, &mut na, &mut exact);
        if da.len() + db.len() > 6000 { return None; }
        fa = na; fb = nb;
        if fa.is_empty() && fb.is_empty() { break; }
    }
    if fa.iter().chain(fb.iter()).any(|t| !leafop(*t)) { exact = false; }
    // leaves and their parents
    let mut parents: FxMap<T, Vec<(T, u128)>> = Default::default();
    let mut bad: std::collections::HashSet<T> = left.iter().cloned().collect(); bad.insert(right);
    for e in &expanded {
        match st.op(*e) {
            Op::Xor(_, l) => for x in l.iter() { parents.entry(*x).or_default().push((*e, 1)); },
            Op::Lin(_, l) => for (x, k) in l.iter() { parents.entry(*x).or_default().push((*e, *k)); },
            _ => st.children(*e, &mut |c| { bad.insert(c); }),
        }
    }
    let mut group: FxMap<T, T> = Default::default(); // leaf -> representative
    let mut sigs: HashMap<(u16, Vec<(T, u128)>), T> = HashMap::new();
    let mut ps: Vec<(T, Vec<(T, u128)>)> = parents.into_iter().collect();
    ps.sort();
    for (t, p) in ps {
        if expanded.contains(&t) || bad.contains(&t) || matches!(st.op(t), Op::Const(_)) { continue; }
        let mixed = p.iter().any(|x| matches!(st.op(x.0), Op::Xor(..))) && p.iter().any(|x| matches!(st.op(x.0), Op::Lin(..)));
        if mixed { continue; }
        let r = *sigs.entry((st.w(t), p)).or_insert(t);
        group.insert(t, r);
    }
    let mut name: FxMap<T, u32> = Default::default();
    let mut leaves = vec![]; let mut text = String::new();
    let mut roots = left.to_vec(); roots.push(right);
    let mut stack: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, done)) = stack.pop() {
        if name.contains_key(&t) { continue; }
        if let Some(g) = group.get(&t) { if *g != t { continue; } }
        let isc = matches!(st.op(t), Op::Const(_));
        let ex = expanded.contains(&t) || isc;
        if !done && ex && !isc {
            stack.push((t, true));
            let mut ch = vec![]; st.children(t, &mut |c| ch.push(c));
            for c in ch.into_iter().rev() { if !name.contains_key(&c) { stack.push((c, false)); } }
            continue;
        }
        let id = name.len() as u32; let w = st.w(t);
        if !ex { leaves.push(t); let _ = writeln!(text, "(declare-const x{} (_ BitVec {}))", id, w); }
        else {
            let _ = write!(text, "(define-fun x{} () (_ BitVec {}) ", id, w);
            match st.op(t) {
                Op::Xor(c, l) => {
                    let mut it: Vec<u32> = l.iter().filter(|x| group.get(x).map_or(true, |g| g == *x)).map(|x| name[x]).collect(); it.sort_unstable();
                    let mut e = String::new(); for x in it { e = if e.is_empty() { format!("x{}", x) } else { format!("(bvxor {} x{})", e, x) }; }
                    if *c != 0 { e = format!("(bvxor {} {})", e, bv(*c, w)); }
                    text.push_str(&e);
                }
                Op::Lin(c, l) => {
                    let mut it: Vec<(u32, u128)> = l.iter().filter(|x| group.get(&x.0).map_or(true, |g| *g == x.0)).map(|x| (name[&x.0], x.1)).collect(); it.sort_unstable();
                    let mut e = String::new();
                    for (x, k) in it { let m = if k == 1 { format!("x{}", x) } else if k == mask(w) { format!("(bvneg x{})", x) } else { format!("(bvmul {} x{})", bv(k, w), x) }; e = if e.is_empty() { m } else { format!("(bvadd {} {})", e, m) }; }
                    if *c != 0 { e = format!("(bvadd {} {})", e, bv(*c, w)); }
                    text.push_str(&e);
                }
                _ => expr(st, t, &name, &mut text),
            }
            text.push_str(")\n");
        }
        name.insert(t, id);
    }
    let nodes = name.len();
    if !group.is_empty() { exact = false; }
    Some(Cone { text, leaves, exact, name, nodes })
}

fn fold(out: &mut String, f: &str, items: &[String]) {
    if items.len() == 1 { out.push_str(&items[0]); return; }
    let _ = write!(out, "({}", f); for i in items { out.push(' '); out.push_str(i); } out.push(')');
}
fn expr(st: &Store, t: T, n: &FxMap<T, u32>, o: &mut String) { expr_n(st, t, &|t: &T| format!("x{}", n[t]), o) }
/// binary decision tree over the index bits
pub fn tree(v: &[u128], bit: i32, ix: &str, w: u16, o: &mut String) {
    if bit < 0 || v.iter().all(|x| *x == v[0]) { o.push_str(&bv(v[0], w)); return; }
    let h = v.len() / 2;
    let _ = write!(o, "(ite (= ((_ extract {} {}) {}) #b0) ", bit, bit, ix);
    tree(&v[..h], bit - 1, ix, w, o); o.push(' '); tree(&v[h..], bit - 1, ix, w, o); o.push(')');
}
pub fn expr_n(st: &Store, t: T, x: &dyn Fn(&T) -> String, o: &mut String) {
    let w = st.w(t);
    match st.op(t) {
        Op::Const(v) => o.push_str(&bv(*v, w)),
        Op::Var(_) => unreachable!(),
        Op::Lin(c, l) => {
            let mut it: Vec<String> = l.iter().map(|(t, k)| if *k == 1 { x(t) } else if *k == mask(w) { format!("(bvneg {})", x(t)) } else { format!("(bvmul {} {})", bv(*k, w), x(t)) }).collect();
            if *c != 0 { it.push(bv(*c, w)); }
            // binary chain keeps every solver happy
            let mut e = it[0].clone(); for i in &it[1..] { e = format!("(bvadd {} {})", e, i); } o.push_str(&e);
        }
        Op::Xor(c, l) => { let mut it: Vec<String> = l.iter().map(|t| x(t)).collect(); if *c != 0 { it.push(bv(*c, w)); } let mut e = it[0].clone(); for i in &it[1..] { e = format!("(bvxor {} {})", e, i); } o.push_str(&e); }
        Op::And(l) => { let mut e = x(&l[0]); for i in &l[1..] { e = format!("(bvand {} {})", e, x(i)); } o.push_str(&e); }
        Op::Or(l) => { let mut e = x(&l[0]); for i in &l[1..] { e = format!("(bvor {} {})", e, x(i)); } o.push_str(&e); }
        Op::Concat(l) => fold(o, "concat", &l.iter().map(|t| x(t)).collect::<Vec<_>>()),
        Op::Extract(a, lo) => { let _ = write!(o, "((_ extract {} {}) {})", lo + w - 1, lo, x(a)); }
        Op::Ite(c, a, b) => { let _ = write!(o, "(ite (= {} #b1) {} {})", x(c), x(a), x(b)); }
        Op::Eq(a, b) => { let _ = write!(o, "(ite (= {} {}) #b1 #b0)", x(a), x(b)); }
        Op::Ult(a, b) => { let _ = write!(o, "(ite (bvult {} {}) #b1 #b0)", x(a), x(b)); }
        Op::Slt(a, b) => { let _ = write!(o, "(ite (bvslt {} {}) #b1 #b0)", x(a), x(b)); }
        Op::Bin(op, a, b) => { let s = match op { B2::Mul => "bvmul", B2::Udiv => "bvudiv", B2::Urem => "bvurem", B2::Sdiv => "bvsdiv", B2::Srem => "bvsrem", B2::Shl => "bvshl", B2::Lshr => "bvlshr", B2::Ashr => "bvashr" }; let _ = write!(o, "({} {} {})", s, x(a), x(b)); }
        Op::Sext(a) => { let _ = write!(o, "((_ sign_extend {}) {})", w - st.w(*a), x(a)); }
        Op::Table(v, i) => {
            let iw = st.w(*i);
            tree(v, iw as i32 - 1, &x(i), w, o);
        }
    }
}

impl Smt {
    pub fn new(cmd: &[&str]) -> Smt {
        Smt { cmd: cmd.iter().map(|s| s.to_string()).collect(), proc_: None, cache: HashMap::new(), queries: 0, unsat: 0, sat: 0, unknown: 0, hits: 0, time: 0.0, errors: vec![], log: None }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let i = c.stdin.take().unwrap(); let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || { for l in BufReader::new(o).lines() { match l { Ok(l) => if tx.send(l).is_err() { break; }, Err(_) => break } } });
        self.proc_ = Some((c, i, rx));
    }
    fn kill(&mut self) { if let Some((mut c, _, _)) = self.proc_.take() { let _ = c.kill(); let _ = c.wait(); } }

    /// run one query; `body` declares everything and ends in assertions
    pub fn raw(&mut self, body: &str, nleaves: &[u32], widths: &[u16], timeout: u64) -> (bool, bool, Vec<u128>) {
        if self.proc_.is_none() { self.start(); }
        let t0 = Instant::now();
        self.queries += 1;
        if let Some(f) = &mut self.log { let _ = writeln!(f, "{}", body); }
        let is_z3 = self.cmd[0].contains("z3");
        let mut q = String::with_capacity(body.len() + 200);
        q.push_str("(reset)\n");
        if is_z3 { let _ = writeln!(q, "(set-option :timeout {})", timeout); } else { q.push_str("(set-option :produce-models true)\n"); }
        q.push_str("(set-logic QF_BV)\n"); q.push_str(body); q.push_str("(check-sat)\n(echo \"@@\")\n");
        let r = self.exchange(&q, timeout);
        let mut out = (false, false, vec![]);
        match r.as_ref().map(|l| l.iter().map(|s| s.as_str()).collect::<Vec<_>>()) {
            Some(ls) if ls.iter().any(|l| l.starts_with("(error")) => { self.errors.push(ls.join(" ")); }
            Some(ls) if ls.contains(&"unsat") => { out.0 = true; }
            Some(ls) if ls.contains(&"sat") => {
                out.1 = true;
                if !nleaves.is_empty() {
                    let mut g = String::from("(get-value ("); for n in nleaves { let _ = write!(g, "x{} ", n); } g.push_str("))\n(echo \"@@\")\n");
                    if let Some(ls) = self.exchange(&g, 20_000) {
                        let s = ls.join(" ");
                        let mut vals: HashMap<u32, u128> = HashMap::new();
                        let mut it = s.split(|c: char| c == '(' || c == ')' || c == ' ').filter(|x| !x.is_empty());
                        while let Some(k) = it.next() { if let Some(n) = k.strip_prefix('x') { if let (Ok(n), Some(v)) = (n.parse::<u32>(), it.next()) { let v = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16) } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2) } else { Ok(0) }; vals.insert(n, v.unwrap_or(0)); } } }
                        out.2 = nleaves.iter().zip(widths).map(|(n, w)| vals.get(n).copied().unwrap_or(0) & mask(*w)).collect();
                    }
                }
            }
            _ => {}
        }
        self.time += t0.elapsed().as_secs_f64();
        if let Ok(d) = std::env::var("SMT_SLOW") { if t0.elapsed().as_millis() > 60 { let _ = std::fs::write(format!("{}/{}_{}.smt2", d, self.queries, t0.elapsed().as_millis()), format!("(set-logic QF_BV)\n{}(check-sat)\n", body)); } }
        if out.0 { self.unsat += 1 } else if out.1 { self.sat += 1 } else { self.unknown += 1 }
        out
    }
    fn exchange(&mut self, q: &str, timeout: u64) -> Option<Vec<String>> {
        let (_, i, _) = self.proc_.as_mut().unwrap();
        if i.write_all(q.as_bytes()).and_then(|_| i.flush()).is_err() { self.kill(); return None; }
        let end = Instant::now() + Duration::from_millis(timeout * 2 + 3000);
        let mut ls = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            let r = self.proc_.as_ref().unwrap().2.recv_timeout(left);
            match r { Ok(l) if l.trim().trim_matches('"') == "@@" => return Some(ls), Ok(l) => ls.push(l.trim().to_string()), Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => { self.kill(); return None; } }
        }
    }
    fn cached(&mut self, body: String, c: &Cone, st: &Store, timeout: u64) -> Res {
        if let Some(r) = self.cache.get(&body) {
            match r { CRes::Unsat => { self.hits += 1; return Res::Unsat; } CRes::Sat(v) => { self.hits += 1; return Res::Sat(c.leaves.iter().cloned().zip(v.iter().cloned()).collect()); } CRes::Unknown(t) if *t >= timeout => { self.hits += 1; return Res::Unknown; } _ => {} }
        }
        let ids: Vec<u32> = c.leaves.iter().map(|t| c.name[t]).collect();
        let ws: Vec<u16> = c.leaves.iter().map(|t| st.w(*t)).collect();
        let (u, s, v) = self.raw(&body, &ids, &ws, timeout);
        if u { self.cache.insert(body, CRes::Unsat); Res::Unsat }
        else if s { self.cache.insert(body, CRes::Sat(v.clone())); Res::Sat(c.leaves.iter().cloned().zip(v).collect()) }
        else { self.cache.insert(body, CRes::Unknown(timeout)); Res::Unknown }
    }
    /// satisfiability of the conjunction, cutting the cone at `depth`; (result, exact)
    pub fn check_cut(&mut self, st: &Store, a: &[T], depth: usize, timeout: u64) -> (Res, bool) {
        let c = match cone(st, a, depth, 20_000) { Some(c) => c, None => return (Res::Unknown, false) };
        let mut body = c.text.clone();
        for t in a { let _ = writeln!(body, "(assert (= x{} #b1))", c.name[t]); }
        (self.cached(body, &c, st, timeout), c.exact)
    }
    pub fn check_full(&mut self, st: &Store, a: &[T], timeout: u64, limit: usize) -> Res {
        let c = match cone(st, a, usize::MAX / 2, limit) { Some(c) => c, None => return Res::Unknown };
        let mut body = c.text.clone();
        for t in a { let _ = writeln!(body, "(assert (= x{} #b1))", c.name[t]); }
        self.cached(body, &c, st, timeout)
    }
    /// equality of two terms with the cone cut at depth
    pub fn equal_cut(&mut self, st: &Store, x: T, y: T, depth: usize, timeout: u64) -> (Res, bool) {
        let c = match cone(st, &[x, y], depth, 20_000) { Some(c) => c, None => return (Res::Unknown, false) };
        let mut body = c.text.clone();
        let _ = writeln!(body, "(assert (not (= x{} x{})))", c.name[&x], c.name[&y]);
        (self.cached(body, &c, st, timeout), c.exact)
    }
    /// unsatisfiability of a closed query
    pub fn plain(&mut self, body: String, timeout: u64) -> bool {
        match self.cache.get(&body) { Some(CRes::Unsat) => { self.hits += 1; return true; } Some(CRes::Sat(_)) => { self.hits += 1; return false; } Some(CRes::Unknown(t)) if *t >= timeout => { self.hits += 1; return false; } _ => {} }
        let (u, s, _) = self.raw(&body, &[], &[], timeout);
        let r = if u { CRes::Unsat } else if s { CRes::Sat(vec![]) } else { CRes::Unknown(timeout) };
        self.cache.insert(body, r); u
    }
    /// a lemma about raw operations: `f` renders the assertion given the names of args and result
    pub fn lemma(&mut self, st: &Store, roots: &[T], depth: usize, mode: u8, f: &dyn Fn(&dyn Fn(T) -> String) -> String, timeout: u64) -> (Res, bool) {
        let n = roots.len() - 1;
        let c = match if mode == 2 { lemma_cone(st, &roots[..n], roots[n], depth) } else { cone_m(st, roots, depth, 4000, mode == 1) } { Some(c) => c, None => return (Res::Unknown, false) };
        let mut body = c.text.clone();
        body.push_str(&f(&|t| format!("x{}", c.name[&t])));
        (self.cached(body, &c, st, timeout), c.exact)
    }
}
impl Drop for Smt { fn drop(&mut self) { self.kill(); } }
