//! Validation of the canonicalisation log by the solver. Every logged step claims "raw operation
//! on args = returned term"; its query assumes the claims of the steps made inside it (each of
//! which is itself validated), unfolds a few definitions and treats everything else as arbitrary
//! values, so unsat is sound.
use crate::smt::{self, Res, Smt};
use crate::term::*;
use std::fmt::Write as _;

#[derive(Default, Debug)]
pub struct CertStats { pub steps: u64, pub nontrivial: u64, pub proved: u64, pub failed: Vec<String> }

fn trivial(st: &Store, it: &Item) -> bool {
    let (a, r) = (&it.args, it.r);
    if a.iter().all(|t| st.is_const(*t).is_some()) { return true; }
    match (&it.k, st.op(r)) {
        (Rk::Xor(_, c), Op::Xor(d, l)) => c == d && l.len() == a.len() && a.iter().all(|x| l.contains(x)) && l.windows(2).all(|p| p[0] != p[1]) && { let mut s = a.to_vec(); s.sort_unstable(); s[..] == l[..] },
        (Rk::Xor(_, 0), _) if a.len() == 1 => a[0] == r,
        (Rk::Lin(_, c, k), Op::Lin(d, l)) => c == d && l.len() == a.len() && { let mut s: Vec<(T, u128)> = a.iter().cloned().zip(k.iter().cloned()).collect(); s.sort_unstable(); s[..] == l[..] },
        (Rk::Op("and"), Op::And(l)) | (Rk::Op("or"), Op::Or(l)) => { let mut s = a.to_vec(); s.sort_unstable(); s[..] == l[..] }
        (Rk::Op("ite"), Op::Ite(c, x, y)) => a[0] == *c && a[1] == *x && a[2] == *y,
        (Rk::Ext(lo, n), Op::Extract(x, l)) => *x == a[0] && lo == l && st.w(r) == *n,
        (Rk::Op("concat"), Op::Concat(l)) => l[..] == a[..],
        (Rk::Op("eq"), Op::Eq(x, y)) | (Rk::Op("eqk"), Op::Eq(x, y)) => (a[0] == *x && a[1] == *y) || (a[0] == *y && a[1] == *x),
        (Rk::Op("ult"), Op::Ult(x, y)) | (Rk::Op("slt"), Op::Slt(x, y)) => a[0] == *x && a[1] == *y,
        (Rk::Table(_, v), Op::Table(u, i)) => *i == a[0] && v == u,
        (Rk::Sext(_), Op::Sext(x)) => *x == a[0],
        (Rk::Op(o), Op::Bin(b, x, y)) => *o == b2name(*b) && a[0] == *x && a[1] == *y,
        _ => false,
    }
}

/// the claim of a step as an SMT boolean over names
fn claim(st: &Store, it: &Item, n: &mut dyn FnMut(T) -> String) -> String {
    let w = st.w(it.r);
    let a: Vec<String> = it.args.iter().map(|t| n(*t)).collect();
    let r = n(it.r);
    let bin = |o: &str| format!("({} {} {})", o, a[0], a[1]);
    let cmp = |o: &str| format!("(ite ({} {} {}) #b1 #b0)", o, a[0], a[1]);
    let fold = |o: &str| { let mut e = a[0].clone(); for x in &a[1..] { e = format!("({} {} {})", o, e, x); } e };
    let e = match &it.k {
        Rk::Ext(lo, k) => format!("((_ extract {} {}) {})", lo + k - 1, lo, a[0]),
        Rk::Sext(w2) => format!("((_ sign_extend {}) {})", w2 - st.w(it.args[0]), a[0]),
        Rk::Xor(w, c) => { let mut e = smt::bv(*c, *w); for x in &a { if x.is_empty() { continue; } e = format!("(bvxor {} {})", e, x); } e }
        Rk::Lin(w, c, k) => { let mut e = smt::bv(*c, *w); for (x, k) in a.iter().zip(k.iter()) { e = if *k == 1 { format!("(bvadd {} {})", e, x) } else { format!("(bvadd {} (bvmul {} {}))", e, smt::bv(*k, *w), x) }; } e }
        Rk::Lin1(w, k) => format!("(bvmul {} {})", smt::bv(*k, *w), a[0]),
        Rk::Table(w, v) => { let mut o = String::new(); smt::tree(v, st.w(it.args[0]) as i32 - 1, &a[0], *w, &mut o); o }
        Rk::Op(o) => match *o {
            "add" => bin("bvadd"), "sub" => bin("bvsub"), "mul" => bin("bvmul"), "shl" => bin("bvshl"), "lshr" => bin("bvlshr"), "ashr" => bin("bvashr"),
            "udiv" => bin("bvudiv"), "urem" => bin("bvurem"), "sdiv" => bin("bvsdiv"), "srem" => bin("bvsrem"),
            "and" => fold("bvand"), "or" => fold("bvor"), "concat" => fold("concat"),
            "eq" | "eqk" => cmp("="), "ult" => cmp("bvult"), "slt" => cmp("bvslt"),
            "ite" => format!("(ite (= {} #b1) {} {})", a[0], a[1], a[2]),
            "fshl" => { let m = format!("(bvurem {} (_ bv{} {}))", a[2], w, w); format!("((_ extract {} {}) (bvshl (concat {} {}) ((_ zero_extend {}) {})))", 2 * w - 1, w, a[0], a[1], w, m) }
            "fshr" => { let m = format!("(bvurem {} (_ bv{} {}))", a[2], w, w); format!("((_ extract {} 0) (bvlshr (concat {} {}) ((_ zero_extend {}) {})))", w - 1, a[0], a[1], w, m) }
            "ordj" => return format!("(=> (= (bvand {} {}) (_ bv0 {})) (= {} (bvor {} {})))", a[0], a[1], w, r, a[0], a[1]),
            "disj" => return format!("(and (= (bvand {} {}) (_ bv0 {})) (= {} (bvor {} {})))", a[0], a[1], w, r, a[0], a[1]),
            "excl" => return format!("(not (and (= {} #b1) (= {} #b1)))", a[0], r),
            _ => panic!("claim {}", o),
        },
    };
    format!("(= {} {})", r, e)
}

fn plan(st: &Store, it: &Item, level: usize) -> Vec<(T, usize)> {
    let mut todo: Vec<(T, usize)> = vec![];
    let hres: std::collections::HashSet<T> = it.hyps.iter().map(|h| st.items[*h as usize].r).collect();
    match level {
        0 => {}
        1 | 2 => { let d = if level == 1 { 1 } else { 3 }; for t in it.args.iter() { todo.push((*t, d)); } if !hres.contains(&it.r) { todo.push((it.r, d)); } }
        _ => { todo.push((it.r, 2)); for t in it.args.iter() { todo.push((*t, 2)); } for h in it.hyps.iter() { let h = &st.items[*h as usize]; todo.push((h.r, 1)); for t in h.args.iter() { todo.push((*t, 1)); } } }
    }
    todo
}
/// non-representative operands of exclusive-ors: every operand of a group occurs in the same
/// exclusive-ors and nowhere else, so one arbitrary value stands for the whole group
fn groups(st: &Store, it: &Item, level: usize) -> std::collections::HashSet<T> {
    let mut occ: FxMap<T, Vec<u32>> = Default::default();
    let mut bad: std::collections::HashSet<T> = Default::default();
    let mut ctx = 0u32;
    let mut all: Vec<&Item> = vec![it]; for h in it.hyps.iter() { all.push(&st.items[*h as usize]); }
    for i in all { ctx += 1; bad.insert(i.r); match &i.k { Rk::Xor(..) => for t in i.args.iter() { occ.entry(*t).or_default().push(ctx); }, _ => for t in i.args.iter() { bad.insert(*t); } } }
    let mut todo = plan(st, it, level); let mut done: FxMap<T, usize> = Default::default(); let mut i = 0;
    while i < todo.len() {
        let (t, d) = todo[i]; i += 1;
        if d == 0 || st.is_const(t).is_some() || matches!(st.op(t), Op::Var(_)) { continue; }
        let first = match done.get(&t) { Some(x) if *x >= d => continue, Some(_) => false, None => true };
        done.insert(t, d); bad.insert(t);
        if first { ctx += 1; match st.op(t) { Op::Xor(_, l) => for x in l.iter() { occ.entry(*x).or_default().push(ctx); }, _ => st.children(t, &mut |c| { bad.insert(c); }) } }
        st.children(t, &mut |c| todo.push((c, d - 1)));
        if todo.len() > 4000 { break; }
    }
    let mut seen: std::collections::HashMap<(u16, Vec<u32>), T> = Default::default();
    let mut drop = std::collections::HashSet::new();
    let mut v: Vec<(T, Vec<u32>)> = occ.into_iter().collect(); v.sort();
    for (t, o) in v { if bad.contains(&t) || st.is_const(t).is_some() { continue; } let r = *seen.entry((st.w(t), o)).or_insert(t); if r != t { drop.insert(t); } }
    drop
}

fn query(st: &Store, it: &Item, level: usize) -> Option<(String, bool)> {
    if it.hyps.len() > 400 { return None; }
    let mut names: FxMap<T, u32> = Default::default();
    let mut order: Vec<T> = vec![];
    let mut nm = |t: T| -> String {
        if let Some(v) = st.is_const(t) { return smt::bv(v, st.w(t)); }
        let k = names.len() as u32;
        let id = *names.entry(t).or_insert_with(|| { order.push(t); k });
        format!("x{}", id)
    };
    // operands that occur only inside the same exclusive-ors of hypotheses and definitions
    let drop = groups(st, it, level);
    let mut nm = |t: T| -> String { if drop.contains(&t) { String::new() } else { nm(t) } };
    let goal = claim(st, it, &mut nm);
    let mut hy = String::new();
    for h in it.hyps.iter() { let c = claim(st, &st.items[*h as usize], &mut nm); let _ = writeln!(hy, "(assert {})", c); }
    // definitions
    let mut defs = String::new();
    let mut todo = plan(st, it, level);
    let mut done: FxMap<T, usize> = Default::default();
    let mut i = 0; let mut exact = false; let _ = &mut exact;
    while i < todo.len() {
        let (t, d) = todo[i]; i += 1;
        if d == 0 || st.is_const(t).is_some() || matches!(st.op(t), Op::Var(_)) { continue; }
        let first = match done.get(&t) { Some(x) if *x >= d => continue, Some(_) => false, None => true };
        done.insert(t, d);
        if first {
            let mut ch = vec![]; st.children(t, &mut |c| ch.push(c));
            let me = nm(t);
            let mut loc: FxMap<T, String> = Default::default();
            for c in ch { let s = nm(c); loc.insert(c, s); }
            let mut o = String::new();
            if let Op::Xor(c, l) = st.op(t) { o = smt::bv(*c, st.w(t)); for x in l.iter() { let x = &loc[x]; if !x.is_empty() { o = format!("(bvxor {} {})", o, x); } } }
            else { smt::expr_n(st, t, &|c| loc[c].clone(), &mut o); }
            let _ = writeln!(defs, "(assert (= {} {}))", me, o);
        }
        st.children(t, &mut |c| todo.push((c, d - 1)));
        if todo.len() > 4000 { return None; }
    }
    let mut body = String::new();
    for (i, t) in order.iter().enumerate() { let _ = writeln!(body, "(declare-const x{} (_ BitVec {}))", i, st.w(*t)); }
    body.push_str(&defs); body.push_str(&hy);
    let _ = writeln!(body, "(assert (not {}))", goal);
    Some((body, false))
}

/// sums and exclusive-ors: operands are opaque, and operands that always occur together with the
/// same coefficients are represented by one arbitrary value
fn flat_query(st: &Store, it: &Item) -> Option<String> {
    let (w, c, ks, lin): (u16, u128, Vec<u128>, bool) = match &it.k { Rk::Lin(w, c, ks) => (*w, *c, ks.to_vec(), true), Rk::Xor(w, c) => (*w, *c, vec![1; it.args.len()], false), _ => return None };
    // parents: 0 = the claim, 1.. = expanded operands, last = the result
    let part = |t: T| -> Option<(u128, Vec<(T, u128)>)> { match st.op(t) { Op::Const(v) => Some((*v, vec![])), Op::Lin(c, l) if lin => Some((*c, l.to_vec())), Op::Xor(c, l) if !lin => Some((*c, l.iter().map(|x| (*x, 1)).collect())), _ => None } };
    let mut top: Vec<(T, u128)> = vec![]; let mut subs: Vec<(u128, u128, Vec<(T, u128)>)> = vec![]; // (coefficient, constant, items)
    for (t, k) in it.args.iter().zip(&ks) {
        let h = if lin { it.hyps.iter().map(|h| &st.items[*h as usize]).find(|h| h.args[0] == *t && matches!(&h.k, Rk::Lin1(_, k2) if k2 == k)) } else { None };
        let (u, k) = match h { Some(h) => (h.r, 1), None => (*t, *k) };
        match part(u) { Some((c, l)) => subs.push((k, c, l)), None => top.push((u, k)) }
    }
    // exclusive-or operands that an inner step combined
    if !lin { for h in it.hyps.iter() { if let Rk::Op("disj") = st.items[*h as usize].k { return None; } } }
    let (mut rc, mut rl) = part(it.r).unwrap_or((0, vec![(it.r, 1)]));
    // the result was obtained by normalising another sum: compare with that sum
    if let (true, Some(h)) = (lin, it.hyps.last()) { let h = &st.items[*h as usize]; if let Rk::Lin(_, c2, k2) = &h.k { if h.r == it.r { rc = *c2; rl = h.args.iter().cloned().zip(k2.iter().cloned()).collect(); } } }
    let mut occ: FxMap<T, Vec<(usize, u128)>> = Default::default();
    for (t, k) in &top { occ.entry(*t).or_default().push((0, *k)); }
    for (i, s) in subs.iter().enumerate() { for (t, k) in &s.2 { occ.entry(*t).or_default().push((i + 1, *k)); } }
    for (t, k) in &rl { occ.entry(*t).or_default().push((usize::MAX, *k)); }
    let mut sigs: Vec<Vec<(usize, u128)>> = occ.into_values().collect(); sigs.sort(); sigs.dedup();
    let o = if lin { "bvadd" } else { "bvxor" };
    let expr = |c: u128, p: usize| { let mut e = smt::bv(c, w); for (g, s) in sigs.iter().enumerate() { for (q, k) in s { if *q == p { e = if *k == 1 { format!("({} {} x{})", o, e, g) } else { format!("({} {} (bvmul {} x{}))", o, e, smt::bv(*k, w), g) }; } } } e };
    let mut body = String::new();
    for g in 0..sigs.len() { let _ = writeln!(body, "(declare-const x{} (_ BitVec {}))", g, w); }
    let mut e = expr(c, 0);
    for (i, s) in subs.iter().enumerate() { let u = expr(s.1, i + 1); e = if s.0 == 1 { format!("({} {} {})", o, e, u) } else { format!("({} {} (bvmul {} {}))", o, e, smt::bv(s.0, w), u) }; }
    let _ = writeln!(body, "(assert (not (= {} {})))", e, expr(rc, usize::MAX));
    Some(body)
}

pub fn validate(st: &Store, smt: &mut Smt, from: usize) -> CertStats {
    let mut s = CertStats::default();
    let dbg = std::env::var("CERT_DBG").is_ok();
    let mut prof: std::collections::BTreeMap<String, (u64, u64, f64)> = Default::default();
    for it in &st.items[from..] {
        let (q0, t0) = (smt.queries, std::time::Instant::now());
        s.steps += 1;
        if trivial(st, it) { continue; }
        s.nontrivial += 1;
        let mut ok = false;
        let cone = |smt: &mut Smt, d: usize, mode: u8, to: u64| -> (Res, bool) {
            let mut roots = it.args.to_vec(); roots.push(it.r);
            smt.lemma(st, &roots, d, mode, &|n: &dyn Fn(T) -> String| format!("(assert (not {}))\n", claim(st, it, &mut |t| n(t))), to)
        };
        if matches!(it.k, Rk::Xor(..) | Rk::Lin(..)) { if let Some(q) = flat_query(st, it) { ok = smt.plain(q, 2000); } }
        if !ok { for l in 0..4 { if l == 0 && it.hyps.is_empty() { continue; } if let Some((q, _)) = query(st, it, l) { if smt.plain(q, 1500) { ok = true; break; } } } }
        if !ok {
            if std::env::var("CERT_DBG").is_ok() { let sh = |t: T| { let s = format!("{:?}", st.op(t)); s.chars().take(120).collect::<String>() }; eprintln!("FB {:?} args {:?} r {}:{}  hyps {:?}", it.k, it.args.iter().take(6).map(|t| format!("{}:{}", t, sh(*t))).collect::<Vec<_>>(), it.r, sh(it.r), it.hyps.iter().take(12).map(|h| { let h = &st.items[*h as usize]; format!("{:?}{:?}={}", h.k, h.args, h.r).chars().take(200).collect::<String>() }).collect::<Vec<_>>()); }
            for (d, mode) in [(0usize, 2), (1, 2), (2, 2), (1, 1), (3, 1), (2, 0), (4, 0), (8, 0), (1 << 40, 0)] {
                let (res, exact) = cone(smt, d, mode, 4000);
                match res { Res::Unsat => { ok = true; break; } Res::Sat(_) if exact => break, _ => {} }
            }
        }
        if dbg { let k = match &it.k { Rk::Op(o) => o.to_string(), k => format!("{:?}", k).chars().take(4).collect() }; let e = prof.entry(k).or_default(); e.0 += 1; e.1 += smt.queries - q0; e.2 += t0.elapsed().as_secs_f64(); if s.nontrivial % 20000 == 0 { eprintln!("{} {:?}", s.nontrivial, prof); } }
        if ok { s.proved += 1; } else if s.failed.len() < 20 { s.failed.push(format!("{:?} {:?} -> {:?}", it.k, it.args.iter().map(|t| st.op(*t).clone()).collect::<Vec<_>>(), st.op(it.r))); } else { s.failed.push(String::new()); }
    }
    s
}
