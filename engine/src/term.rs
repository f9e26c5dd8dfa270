//! Hash-consed bit-vector terms with a canonicalising builder.
//! Every `mk_*` function returns a term equal (for all assignments) to the plain operation;
//! `cert.rs` has the solver confirm the rewrites actually used.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B2 { Mul, Udiv, Urem, Sdiv, Srem, Shl, Lshr, Ashr }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Lin(u128, Box<[(T, u128)]>),
    Xor(u128, Box<[T]>),
    And(Box<[T]>),
    Or(Box<[T]>),
    Concat(Box<[T]>), // most significant first
    Extract(T, u16),  // low bit; width is the node's
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Bin(B2, T, T),
    Sext(T),
    Table(Rc<[u128]>, T),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16 }

#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub w: u16, pub pinned: Option<u128> }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

/// the raw operation a logged step claims to have computed
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rk { Op(&'static str), Ext(u16, u16), Xor(u16, u128), Lin(u16, u128, Box<[u128]>), Lin1(u16, u128), Sext(u16), Table(u16, Rc<[u128]>) }
#[derive(Clone, Debug)]
pub struct Item { pub k: Rk, pub args: Box<[T]>, pub r: T, pub hyps: Box<[u32]> }
pub fn b2name(o: B2) -> &'static str { match o { B2::Mul => "mul", B2::Udiv => "udiv", B2::Urem => "urem", B2::Sdiv => "sdiv", B2::Srem => "srem", B2::Shl => "shl", B2::Lshr => "lshr", B2::Ashr => "ashr" } }

pub struct Store {
    pub log_on: bool,
    pub items: Vec<Item>,
    by: FxMap<(Rk, Vec<T>), u32>,
    stack: Vec<Vec<u32>>,
    pub nodes: Vec<Node>,
    pub cval: Vec<Option<u128>>,
    tab: FxMap<Node, T>,
    pub vars: Vec<VarInfo>,
    pub scout: bool,
}

pub fn ev2(op: B2, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    match op {
        B2::Mul => a.wrapping_mul(b) & m,
        B2::Udiv => if b == 0 { m } else { a / b },
        B2::Urem => if b == 0 { a } else { a % b },
        B2::Sdiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        B2::Srem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        B2::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        B2::Lshr => if b >= w as u128 { 0 } else { a >> b },
        B2::Ashr => { let s = if b >= w as u128 { (w - 1) as u32 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
    }
}

impl Store {
    pub fn new() -> Self {
        Store { log_on: false, items: vec![], by: Default::default(), stack: vec![], nodes: vec![], cval: vec![], tab: Default::default(), vars: vec![], scout: false }
    }
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    pub fn op(&self, t: T) -> &Op { &self.nodes[t as usize].op }
    pub fn len(&self) -> usize { self.nodes.len() }

    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        match self.op(t) {
            Op::Const(_) | Op::Var(_) => {}
            Op::Lin(_, l) => for (x, _) in l.iter() { f(*x) },
            Op::Xor(_, l) | Op::And(l) | Op::Or(l) | Op::Concat(l) => for x in l.iter() { f(*x) },
            Op::Extract(x, _) | Op::Sext(x) | Op::Table(_, x) => f(*x),
            Op::Ite(a, b, c) => { f(*a); f(*b); f(*c) }
            Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) | Op::Bin(_, a, b) => { f(*a); f(*b) }
        }
    }

    pub fn eval_node(&self, t: T, g: &dyn Fn(T) -> u128) -> u128 {
        let w = self.w(t);
        let m = mask(w);
        match self.op(t) {
            Op::Const(c) => *c,
            Op::Var(_) => panic!("eval var"),
            Op::Lin(c, l) => { let mut r = *c; for (x, k) in l.iter() { r = r.wrapping_add(g(*x).wrapping_mul(*k)); } r & m }
            Op::Xor(c, l) => { let mut r = *c; for x in l.iter() { r ^= g(*x) } r }
            Op::And(l) => { let mut r = m; for x in l.iter() { r &= g(*x) } r }
            Op::Or(l) => { let mut r = 0; for x in l.iter() { r |= g(*x) } r }
            Op::Concat(l) => { let mut r = 0u128; for x in l.iter() { let xw = self.w(*x); r = if xw >= 128 { 0 } else { r << xw } | g(*x); } r }
            Op::Extract(x, lo) => (g(*x) >> lo) & m,
            Op::Ite(c, a, b) => if g(*c) != 0 { g(*a) } else { g(*b) },
            Op::Eq(a, b) => (g(*a) == g(*b)) as u128,
            Op::Ult(a, b) => (g(*a) < g(*b)) as u128,
            Op::Slt(a, b) => { let aw = self.w(*a); (sx(g(*a), aw) < sx(g(*b), aw)) as u128 }
            Op::Bin(o, a, b) => ev2(*o, g(*a), g(*b), w),
            Op::Sext(a) => (sx(g(*a), self.w(*a)) as u128) & m,
            Op::Table(v, i) => v[g(*i) as usize],
        }
    }

    fn intern(&mut self, op: Op, w: u16) -> T {
        debug_assert!(w > 0 && w <= 128);
        let n = Node { op, w };
        if let Some(t) = self.tab.get(&n) { return *t; }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        let cv = match &n.op {
            Op::Const(c) => Some(*c),
            Op::Var(i) => self.vars[*i as usize].pinned,
            _ if self.scout => {
                let mut all = true;
                self.children(t, &mut |x| if self.cval[x as usize].is_none() { all = false });
                if all { Some(self.eval_node(t, &|x| self.cval[x as usize].unwrap())) } else { None }
            }
            _ => None,
        };
        self.cval.push(cv);
        self.tab.insert(n, t);
        t
    }

    pub fn konst(&mut self, c: u128, w: u16) -> T { self.intern(Op::Const(c & mask(w)), w) }
    pub fn var(&mut self, name: &str, w: u16, pinned: Option<u128>) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, pinned });
        self.intern(Op::Var(id), w)
    }
    pub fn is_const(&self, t: T) -> Option<u128> { if let Op::Const(c) = self.op(t) { Some(*c) } else { None } }
    pub fn conc(&self, t: T) -> Option<u128> { self.cval[t as usize] }
    fn is_allones(&self, t: T) -> bool { self.is_const(t) == Some(mask(self.w(t))) }

    // ---- logging wrappers: every call becomes a lemma "raw operation = returned term" whose
    // hypotheses are the lemmas of the calls made inside it ----
    fn wrap(&mut self, k: Rk, args: Vec<T>, f: impl FnOnce(&mut Self) -> T) -> T {
        if !self.log_on { return f(self); }
        let key = (k, args);
        if let Some(id) = self.by.get(&key) { let id = *id; let r = self.items[id as usize].r; if let Some(h) = self.stack.last_mut() { h.push(id); } return r; }
        self.stack.push(vec![]);
        let r = f(self);
        let hyps = self.stack.pop().unwrap();
        let id = self.items.len() as u32;
        self.items.push(Item { k: key.0.clone(), args: key.1.clone().into_boxed_slice(), r, hyps: hyps.into_boxed_slice() });
        self.by.insert(key, id);
        if let Some(h) = self.stack.last_mut() { h.push(id); }
        r
    }
    /// a named raw operation computed by the executor from the primitives below
    pub fn step(&mut self, k: &'static str, args: &[T], f: impl FnOnce(&mut Self) -> T) -> T { self.wrap(Rk::Op(k), args.to_vec(), f) }
    pub fn mk_lin(&mut self, w: u16, c: u128, items: Vec<(T, u128)>) -> T {
        if !self.log_on { return self.x_lin(w, c, items); }
        let k = Rk::Lin(w, c & mask(w), items.iter().map(|x| x.1 & mask(w)).collect()); let a = items.iter().map(|x| x.0).collect();
        self.wrap(k, a, |s| s.x_lin(w, c, items))
    }
    pub fn mk_add(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("add"), vec![a, b], |s| s.x_add(a, b)) }
    pub fn mk_sub(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("sub"), vec![a, b], |s| s.x_sub(a, b)) }
    pub fn mk_mul(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("mul"), vec![a, b], |s| s.x_mul(a, b)) }
    pub fn mk_xor(&mut self, w: u16, c: u128, items: Vec<T>) -> T { if !self.log_on { return self.x_xor(w, c, items); } self.wrap(Rk::Xor(w, c & mask(w)), items.clone(), |s| s.x_xor(w, c, items)) }
    pub fn mk_and(&mut self, items: Vec<T>) -> T { if !self.log_on { return self.x_and(items); } self.wrap(Rk::Op("and"), items.clone(), |s| s.x_and(items)) }
    pub fn mk_or(&mut self, items: Vec<T>) -> T { if !self.log_on { return self.x_or(items); } self.wrap(Rk::Op("or"), items.clone(), |s| s.x_or(items)) }
    pub fn mk_extract(&mut self, t: T, lo: u16, n: u16) -> T { if lo == 0 && n == self.w(t) { return t; } self.wrap(Rk::Ext(lo, n), vec![t], |s| s.x_extract(t, lo, n)) }
    pub fn mk_concat(&mut self, parts: Vec<T>) -> T { if parts.len() == 1 { return parts[0]; } if !self.log_on { return self.x_concat(parts); } self.wrap(Rk::Op("concat"), parts.clone(), |s| s.x_concat(parts)) }
    pub fn mk_sext(&mut self, t: T, w: u16) -> T { if self.w(t) == w { return t; } self.wrap(Rk::Sext(w), vec![t], |s| s.x_sext(t, w)) }
    pub fn mk_table(&mut self, v: Vec<u128>, i: T, w: u16) -> T { if !self.log_on { return self.x_table(v, i, w); } self.wrap(Rk::Table(w, v.clone().into()), vec![i], |s| s.x_table(v, i, w)) }
    pub fn mk_bin(&mut self, op: B2, a: T, b: T) -> T { self.wrap(Rk::Op(b2name(op)), vec![a, b], |s| s.x_bin(op, a, b)) }
    pub fn mk_fshl(&mut self, a: T, b: T, k: T, right: bool) -> T { self.wrap(Rk::Op(if right { "fshr" } else { "fshl" }), vec![a, b, k], |s| s.x_fshl(a, b, k, right)) }
    pub fn mk_ite(&mut self, c: T, a: T, b: T) -> T { if a == b { return a; } self.wrap(Rk::Op("ite"), vec![c, a, b], |s| s.x_ite(c, a, b)) }
    pub fn mk_eq(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("eq"), vec![a, b], |s| s.x_eq(a, b)) }
    fn eq_const(&mut self, a: T, k: u128) -> T { if !self.log_on { return self.x_eq_const(a, k); } let w = self.w(a); let kt = self.konst(k & mask(w), w); self.wrap(Rk::Op("eqk"), vec![a, kt], |s| s.x_eq_const(a, k)) }
    pub fn mk_ult(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("ult"), vec![a, b], |s| s.x_ult(a, b)) }
    pub fn mk_slt(&mut self, a: T, b: T) -> T { self.wrap(Rk::Op("slt"), vec![a, b], |s| s.x_slt(a, b)) }
    pub fn excl(&mut self, yes: T, no: T) { if self.log_on { self.wrap(Rk::Op("excl"), vec![yes], |_| no); } }

    // ---- linear ----
    /// k * t as a constant plus normalised atoms; the result is an internal sum node, a constant or one atom
    fn lin1(&mut self, w: u16, t: T, k: u128) -> T { self.wrap(Rk::Lin1(w, k), vec![t], |s| s.x_lin1(w, t, k)) }
    fn x_lin1(&mut self, w: u16, t: T, k: u128) -> T {
        let m = mask(w);
        let mut c = 0u128;
        let mut stack = vec![(t, k)];
        let mut out: Vec<(T, u128)> = vec![];
        while let Some((t, k)) = stack.pop() {
            let k = k & m;
            if k == 0 { continue; }
            match self.op(t).clone() {
                Op::Const(v) => c = c.wrapping_add(v.wrapping_mul(k)),
                Op::Lin(cc, l) => { c = c.wrapping_add(cc.wrapping_mul(k)); for (x, kk) in l.iter() { stack.push((*x, kk.wrapping_mul(k))); } }
                Op::Xor(cc, l) if l.len() == 1 && cc == m => { c = c.wrapping_sub(k); stack.push((l[0], k.wrapping_neg())); }
                Op::Concat(l) => {
                    let last = *l.last().unwrap();
                    let first = l[0];
                    if let Some(v) = self.is_const(last) {
                        // t = zext(hi) << lw + v
                        let lw = self.w(last);
                        c = c.wrapping_add(v.wrapping_mul(k));
                        let hi: Vec<T> = l[..l.len() - 1].to_vec();
                        let h = self.mk_concat(hi);
                        let z = self.mk_zext(h, w);
                        stack.push((z, k.wrapping_shl(lw as u32)));
                        continue;
                    }
                    if let Some(v) = self.is_const(first) {
                        if v != 0 {
                            let fw = self.w(first);
                            c = c.wrapping_add(v.wrapping_shl((w - fw) as u32).wrapping_mul(k));
                            let lo = self.mk_concat(l[1..].to_vec());
                            let z = self.mk_zext(lo, w);
                            stack.push((z, k));
                            continue;
                        }
                    }
                    let tz = k.trailing_zeros() as u16;
                    if tz > 0 && tz < w {
                        let e = self.mk_extract(t, 0, w - tz);
                        let z = self.mk_zext(e, w);
                        if z != t { stack.push((z, k)); continue; }
                    }
                    out.push((t, k));
                }
                _ => {
                    let tz = k.trailing_zeros() as u16;
                    if tz > 0 && tz < w {
                        let e = self.mk_extract(t, 0, w - tz);
                        let z = self.mk_zext(e, w);
                        if z != t { stack.push((z, k)); continue; }
                    }
                    out.push((t, k));
                }
            }
        }
        out.sort_unstable();
        let mut r: Vec<(T, u128)> = Vec::with_capacity(out.len());
        for (t, k) in out {
            if let Some(l) = r.last_mut() { if l.0 == t { l.1 = l.1.wrapping_add(k) & m; continue; } }
            r.push((t, k & m));
        }
        r.retain(|x| x.1 != 0);
        c &= m;
        // merging may create even coefficients on full-width atoms
        if r.iter().any(|(t, k)| { let tz = k.trailing_zeros() as u16; tz > 0 && tz < w && !self.top_zero(*t, tz) }) { let v = self.mk_lin(w, c, r); return v; }
        if r.is_empty() { return self.konst(c, w); }
        if r.len() == 1 && r[0].1 == 1 && c == 0 { return r[0].0; }
        self.intern(Op::Lin(c, r.into_boxed_slice()), w)
    }
    fn x_lin(&mut self, w: u16, c0: u128, items: Vec<(T, u128)>) -> T {
        let m = mask(w);
        let mut c = c0;
        let mut out: Vec<(T, u128)> = vec![];
        for (t, k) in items {
            let k = k & m;
            if k == 0 { continue; }
            let u = match self.op(t) {
                Op::Const(_) => { c = c.wrapping_add(self.is_const(t).unwrap().wrapping_mul(k)); continue; }
                Op::Lin(..) if k == 1 => t,
                Op::Concat(_) | Op::Lin(..) => self.lin1(w, t, k),
                Op::Xor(cc, l) if l.len() == 1 && *cc == m => self.lin1(w, t, k),
                _ if k & 1 == 0 => self.lin1(w, t, k),
                _ => { out.push((t, k)); continue; }
            };
            match self.op(u) { Op::Const(v) => c = c.wrapping_add(*v), Op::Lin(cc, l) => { c = c.wrapping_add(*cc); out.extend_from_slice(l); } _ => out.push((u, 1)) }
        }
        out.sort_unstable();
        let mut r: Vec<(T, u128)> = Vec::with_capacity(out.len());
        for (t, k) in out {
            if let Some(l) = r.last_mut() { if l.0 == t { l.1 = l.1.wrapping_add(k) & m; continue; } }
            r.push((t, k & m));
        }
        r.retain(|x| x.1 != 0);
        // coefficient merging may create even coefficients on full-width atoms
        if r.iter().any(|(t, k)| { let tz = k.trailing_zeros() as u16; tz > 0 && tz < w && !self.top_zero(*t, tz) }) {
            return self.mk_lin(w, c, r);
        }
        c &= m;
        if r.is_empty() { return self.konst(c, w); }
        if r.len() == 1 {
            let (t, k) = r[0];
            if c == 0 && k == 1 { return t; }
            if c == 0 && k.is_power_of_two() {
                let s = k.trailing_zeros() as u16;
                let e = self.mk_extract(t, 0, w - s);
                let z = self.konst(0, s);
                return self.mk_concat(vec![e, z]);
            }
            if c == m && k == m { return self.mk_xor(w, m, vec![t]); }
        }
        self.intern(Op::Lin(c, r.into_boxed_slice()), w)
    }
    fn top_zero(&self, t: T, n: u16) -> bool {
        match self.op(t) {
            Op::Concat(l) => { let f = l[0]; self.w(f) >= n && match self.is_const(f) { Some(v) => v >> (self.w(f) - n) == 0, None => false } }
            Op::Const(v) => (*v >> (self.w(t) - n)) == 0,
            _ => false,
        }
    }

    /// if a and b are slice-wise disjoint (one side constant zero in each slice) combine
    fn disjoint(&mut self, a: T, b: T) -> Option<T> {
        let ok = |s: &Store, t: T| match s.op(t) { Op::Concat(l) => l.iter().any(|x| s.is_const(*x) == Some(0)), Op::Const(_) => true, _ => false };
        if !ok(self, a) || !ok(self, b) { return None; }
        let w = self.w(a);
        let sa = self.segs(a);
        let sb = self.segs(b);
        let bs = Self::bounds(&[&sa, &sb], w);
        // check quickly
        let zero_at = |s: &Store, segs: &Vec<(u16, u16, T)>, lo: u16, hi: u16| -> bool {
            for (l, h, t) in segs { if *l <= lo && hi <= *h { return match s.is_const(*t) { Some(v) => (v >> (lo - l)) & mask(hi - lo) == 0, None => false }; } }
            false
        };
        let mut plan = vec![];
        for i in 0..bs.len() - 1 {
            let (lo, hi) = (bs[i], bs[i + 1]);
            if zero_at(self, &sa, lo, hi) { plan.push((lo, hi, b)); }
            else if zero_at(self, &sb, lo, hi) { plan.push((lo, hi, a)); }
            else { return None; }
        }
        Some(self.wrap(Rk::Op("disj"), vec![a, b], |s| {
            let mut parts = vec![];
            for (lo, hi, t) in plan.into_iter().rev() { parts.push(s.mk_extract(t, lo, hi - lo)); }
            s.mk_concat(parts)
        }))
    }
    fn segs(&self, t: T) -> Vec<(u16, u16, T)> {
        let mut v = vec![];
        match self.op(t) {
            Op::Concat(l) => { let mut lo = 0; for x in l.iter().rev() { let xw = self.w(*x); v.push((lo, lo + xw, *x)); lo += xw; } }
            _ => v.push((0, self.w(t), t)),
        }
        v
    }
    fn bounds(ss: &[&Vec<(u16, u16, T)>], w: u16) -> Vec<u16> {
        let mut b = vec![0, w];
        for s in ss { for (l, h, _) in s.iter() { b.push(*l); b.push(*h); } }
        b.sort_unstable(); b.dedup(); b
    }

    fn x_add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(x.wrapping_add(y), w); }
        if w == 1 { return self.mk_xor(1, 0, vec![a, b]); }
        if self.is_const(a).is_none() && self.is_const(b).is_none() {
            if let Some(t) = self.disjoint(a, b) { return t; }
        }
        self.mk_lin(w, 0, vec![(a, 1), (b, 1)])
    }
    fn x_sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(x.wrapping_sub(y), w); }
        if w == 1 { return self.mk_xor(1, 0, vec![a, b]); }
        self.mk_lin(w, 0, vec![(a, 1), (b, mask(w))])
    }
    fn x_mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => self.konst(x.wrapping_mul(y), w),
            (Some(x), None) => self.mk_lin(w, 0, vec![(b, x)]),
            (None, Some(y)) => self.mk_lin(w, 0, vec![(a, y)]),
            _ => { let (a, b) = if a < b { (a, b) } else { (b, a) }; if w == 1 { return self.mk_and(vec![a, b]); } self.intern(Op::Bin(B2::Mul, a, b), w) }
        }
    }

    // ---- bitwise ----
    pub fn mk_not(&mut self, a: T) -> T { let w = self.w(a); self.mk_xor(w, mask(w), vec![a]) }
    pub fn mk_xor2(&mut self, a: T, b: T) -> T { let w = self.w(a); self.mk_xor(w, 0, vec![a, b]) }
    fn x_xor(&mut self, w: u16, c0: u128, items: Vec<T>) -> T {
        let m = mask(w);
        let mut c = c0 & m;
        let mut out: Vec<T> = vec![];
        for t in items {
            match self.op(t) {
                Op::Const(v) => c ^= *v,
                Op::Xor(cc, l) => { c ^= *cc; out.extend_from_slice(l); }
                _ => out.push(t),
            }
        }
        fn cancel(out: &mut Vec<T>) {
            out.sort_unstable();
            let mut r: Vec<T> = Vec::with_capacity(out.len());
            for t in out.iter() { if r.last() == Some(t) { r.pop(); } else { r.push(*t); } }
            *out = r;
        }
        cancel(&mut out);
        // combine disjoint zero-padded concats
        loop {
            let zs: Vec<usize> = (0..out.len()).filter(|i| match self.op(out[*i]) { Op::Concat(l) => l.iter().any(|x| self.is_const(*x) == Some(0)), _ => false }).collect();
            if zs.len() < 2 || zs.len() > 12 { break; }
            let mut done = true;
            'o: for i in 0..zs.len() { for j in i + 1..zs.len() {
                let (a, b) = (out[zs[i]], out[zs[j]]);
                if let Some(t) = self.disjoint(a, b) {
                    out.retain(|x| *x != a && *x != b);
                    match self.op(t).clone() { Op::Const(v) => c ^= v, Op::Xor(cc, l) => { c ^= cc; out.extend_from_slice(&l); } _ => out.push(t) }
                    cancel(&mut out);
                    done = false;
                    break 'o;
                }
            } }
            if done { break; }
        }
        if out.is_empty() { return self.konst(c, w); }
        if out.len() == 1 {
            if c == 0 { return out[0]; }
            match self.op(out[0]).clone() {
                Op::Concat(l) => {
                    let mut parts = vec![]; let mut hi = w;
                    for x in l.iter() { let xw = self.w(*x); hi -= xw; let cc = (c >> hi) & mask(xw); parts.push(self.mk_xor(xw, cc, vec![*x])); }
                    return self.mk_concat(parts);
                }
                Op::Table(v, i) => { let nv: Vec<u128> = v.iter().map(|x| x ^ c).collect(); return self.mk_table(nv, i, w); }
                _ => {}
            }
        } else if out.iter().all(|t| matches!(self.op(*t), Op::Concat(_))) {
            // identical boundaries: distribute
            let s0: Vec<(u16, u16)> = self.segs(out[0]).iter().map(|x| (x.0, x.1)).collect();
            if out[1..].iter().all(|t| self.segs(*t).iter().map(|x| (x.0, x.1)).eq(s0.iter().cloned())) {
                let mut parts = vec![];
                for (lo, hi) in s0.iter().rev() {
                    let es: Vec<T> = out.iter().map(|t| self.segs(*t).iter().find(|s| s.0 == *lo).unwrap().2).collect();
                    parts.push(self.mk_xor(hi - lo, (c >> lo) & mask(hi - lo), es));
                }
                return self.mk_concat(parts);
            }
        }
        // merge tables over the same index
        if out.len() >= 2 {
            let mut by: FxMap<T, Vec<T>> = Default::default();
            for t in &out { if let Op::Table(_, i) = self.op(*t) { by.entry(*i).or_default().push(*t); } }
            if let Some((_, v)) = by.iter().find(|(_, v)| v.len() >= 2) {
                let (a, b) = (v[0], v[1]);
                let (va, i) = if let Op::Table(v, i) = self.op(a) { (v.clone(), *i) } else { unreachable!() };
                let vb = if let Op::Table(v, _) = self.op(b) { v.clone() } else { unreachable!() };
                let nv: Vec<u128> = va.iter().zip(vb.iter()).map(|(x, y)| x ^ y).collect();
                let nt = self.mk_table(nv, i, w);
                out.retain(|x| *x != a && *x != b);
                out.push(nt);
                return self.mk_xor(w, c, out);
            }
        }
        self.intern(Op::Xor(c, out.into_boxed_slice()), w)
    }

    fn has_const_seg(&self, t: T) -> bool { match self.op(t) { Op::Concat(l) => l.iter().any(|x| self.is_const(*x).is_some()), _ => false } }

    fn split_bitwise(&mut self, items: &[T], w: u16, is_and: bool) -> T {
        // split at boundaries of operands having constant segments
        let mut bs = vec![0, w];
        for t in items { if self.has_const_seg(*t) { for (l, h, _) in self.segs(*t) { bs.push(l); bs.push(h); } } }
        bs.sort_unstable(); bs.dedup();
        let mut parts = vec![];
        for i in (0..bs.len() - 1).rev() {
            let (lo, hi) = (bs[i], bs[i + 1]);
            let es: Vec<T> = items.iter().map(|t| self.mk_extract(*t, lo, hi - lo)).collect();
            parts.push(if is_and { self.mk_and(es) } else { self.mk_or(es) });
        }
        self.mk_concat(parts)
    }
    fn runs(v: u128, w: u16) -> Vec<(u16, u16, bool)> {
        let mut r: Vec<(u16, u16, bool)> = vec![]; let mut i = 0;
        while i < w { let b = (v >> i) & 1 == 1; let s = i; while i < w && ((v >> i) & 1 == 1) == b { i += 1; } r.push((s, i, b)); }
        r
    }

    fn x_and(&mut self, items: Vec<T>) -> T {
        let w = self.w(items[0]);
        let m = mask(w);
        let mut c = m;
        let mut out: Vec<T> = vec![];
        for t in items { match self.op(t) { Op::Const(v) => c &= *v, Op::And(l) => { for x in l.iter() { match self.op(*x) { Op::Const(v) => c &= *v, _ => out.push(*x) } } } _ => out.push(t) } }
        out.sort_unstable(); out.dedup();
        if c == 0 || out.is_empty() { return self.konst(c, w); }
        if w == 1 { for t in &out { if let Op::Xor(1, l) = self.op(*t) { if l.len() == 1 && out.binary_search(&l[0]).is_ok() { return self.konst(0, 1); } } } }
        if c != m {
            let rs = Self::runs(c, w);
            let base = if out.len() == 1 { out[0] } else { self.mk_and(out.clone()) };
            if let Op::Table(v, i) = self.op(base).clone() { let nv = v.iter().map(|x| x & c).collect(); return self.mk_table(nv, i, w); }
            if rs.len() <= 16 {
                let mut parts = vec![];
                for (lo, hi, b) in rs.into_iter().rev() {
                    parts.push(if b { self.mk_extract(base, lo, hi - lo) } else { self.konst(0, hi - lo) });
                }
                return self.mk_concat(parts);
            }
            let k = self.konst(c, w); out.push(k); out.sort_unstable();
            return self.intern(Op::And(out.into_boxed_slice()), w);
        }
        if out.len() == 1 { return out[0]; }
        if out.iter().any(|t| self.has_const_seg(*t)) { return self.split_bitwise(&out, w, true); }
        self.intern(Op::And(out.into_boxed_slice()), w)
    }
    fn x_or(&mut self, items: Vec<T>) -> T {
        let w = self.w(items[0]);
        let m = mask(w);
        let mut c = 0;
        let mut out: Vec<T> = vec![];
        for t in items { match self.op(t) { Op::Const(v) => c |= *v, Op::Or(l) => { for x in l.iter() { match self.op(*x) { Op::Const(v) => c |= *v, _ => out.push(*x) } } } _ => out.push(t) } }
        out.sort_unstable(); out.dedup();
        if c == m || out.is_empty() { return self.konst(c, w); }
        if w == 1 { for t in &out { if let Op::Xor(1, l) = self.op(*t) { if l.len() == 1 && out.binary_search(&l[0]).is_ok() { return self.konst(1, 1); } } } }
        if c != 0 {
            let rs = Self::runs(c, w);
            let base = if out.len() == 1 { out[0] } else { self.mk_or(out.clone()) };
            if rs.len() <= 16 {
                let mut parts = vec![];
                for (lo, hi, b) in rs.into_iter().rev() {
                    parts.push(if !b { self.mk_extract(base, lo, hi - lo) } else { self.konst(mask(hi - lo), hi - lo) });
                }
                return self.mk_concat(parts);
            }
            let k = self.konst(c, w); out.push(k); out.sort_unstable();
            return self.intern(Op::Or(out.into_boxed_slice()), w);
        }
        if out.len() == 1 { return out[0]; }
        if out.iter().any(|t| self.has_const_seg(*t)) { return self.split_bitwise(&out, w, false); }
        self.intern(Op::Or(out.into_boxed_slice()), w)
    }

    // ---- slices ----
    fn friendly(&self, t: T) -> bool { matches!(self.op(t), Op::Const(_) | Op::Concat(_) | Op::Table(_, _)) }
    fn x_extract(&mut self, t: T, lo: u16, n: u16) -> T {
        let w = self.w(t);
        debug_assert!(lo + n <= w && n > 0);
        if lo == 0 && n == w { return t; }
        match self.op(t).clone() {
            Op::Const(v) => self.konst(v >> lo, n),
            Op::Extract(x, l) => self.mk_extract(x, l + lo, n),
            Op::Concat(l) => {
                let mut parts = vec![]; let mut hi = w;
                for x in l.iter() {
                    let xw = self.w(*x); let xlo = hi - xw;
                    let a = lo.max(xlo); let b = (lo + n).min(hi);
                    if a < b { parts.push(self.mk_extract(*x, a - xlo, b - a)); }
                    hi = xlo;
                }
                self.mk_concat(parts)
            }
            Op::Xor(c, l) if l.len() == 1 || l.iter().all(|x| self.friendly(*x)) => {
                let es: Vec<T> = l.iter().map(|x| self.mk_extract(*x, lo, n)).collect();
                self.mk_xor(n, c >> lo, es)
            }
            Op::And(l) if l.iter().all(|x| self.friendly(*x)) => { let es: Vec<T> = l.iter().map(|x| self.mk_extract(*x, lo, n)).collect(); self.mk_and(es) }
            Op::Or(l) if l.iter().all(|x| self.friendly(*x)) => { let es: Vec<T> = l.iter().map(|x| self.mk_extract(*x, lo, n)).collect(); self.mk_or(es) }
            Op::Lin(c, l) if lo == 0 && l.iter().all(|x| self.friendly(x.0)) => {
                let es: Vec<(T, u128)> = l.iter().map(|x| (self.mk_extract(x.0, 0, n), x.1)).collect();
                self.mk_lin(n, c, es)
            }
            Op::Table(v, i) => { let nv: Vec<u128> = v.iter().map(|x| (x >> lo) & mask(n)).collect(); self.mk_table(nv, i, n) }
            Op::Ite(c, a, b) if self.friendly(a) && self.friendly(b) => { let x = self.mk_extract(a, lo, n); let y = self.mk_extract(b, lo, n); self.mk_ite(c, x, y) }
            Op::Sext(x) if lo + n <= self.w(x) => self.mk_extract(x, lo, n),
            Op::Sext(x) if lo == 0 => self.mk_sext(x, n),
            _ => self.intern(Op::Extract(t, lo), n),
        }
    }
    fn x_concat(&mut self, parts: Vec<T>) -> T {
        let mut fl: Vec<T> = Vec::with_capacity(parts.len());
        for p in parts { match self.op(p) { Op::Concat(l) => fl.extend_from_slice(&l.clone()), _ => fl.push(p) } }
        let mut r: Vec<T> = Vec::with_capacity(fl.len());
        for p in fl {
            if let Some(&q) = r.last() {
                if let (Some(a), Some(b)) = (self.is_const(q), self.is_const(p)) {
                    let (wa, wb) = (self.w(q), self.w(p));
                    r.pop(); let k = self.konst(a << wb | b, wa + wb); r.push(k); continue;
                }
                let (bq, lq) = match self.op(q) { Op::Extract(x, l) => (*x, *l), _ => (q, 0) };
                let (bp, lp) = match self.op(p) { Op::Extract(x, l) => (*x, *l), _ => (p, 0) };
                if bq == bp && lp + self.w(p) == lq && (bq != q || bp != p) {
                    let n = self.w(p) + self.w(q);
                    r.pop();
                    let e = self.mk_extract(bp, lp, n);
                    // e is an Extract or the base itself
                    if let Op::Concat(l) = self.op(e).clone() { r.extend_from_slice(&l); } else { r.push(e); }
                    continue;
                }
                // tables with one index fuse
                if let (Op::Table(va, ia), Op::Table(vb, ib)) = (self.op(q).clone(), self.op(p).clone()) {
                    if ia == ib { let wb = self.w(p); let n = self.w(q) + wb; if n <= 64 {
                        let nv: Vec<u128> = va.iter().zip(vb.iter()).map(|(a, b)| a << wb | b).collect();
                        r.pop(); let e = self.mk_table(nv, ia, n); r.push(e); continue; } }
                }
                // complemented slices of one base fuse
                if let (Op::Xor(ca, la), Op::Xor(cb, lb)) = (self.op(q).clone(), self.op(p).clone()) {
                    if la.len() == 1 && lb.len() == 1 {
                        let (bq, lq) = match self.op(la[0]) { Op::Extract(x, l) => (*x, *l), _ => (la[0], 0) };
                        let (bp, lp) = match self.op(lb[0]) { Op::Extract(x, l) => (*x, *l), _ => (lb[0], 0) };
                        if bq == bp && lp + self.w(p) == lq && (bq != la[0] || bp != lb[0]) {
                            let wb = self.w(p); let n = self.w(q) + wb;
                            r.pop();
                            let e = self.mk_extract(bp, lp, n);
                            let x = self.mk_xor(n, ca << wb | cb, vec![e]);
                            if let Op::Concat(l) = self.op(x).clone() { r.extend_from_slice(&l); } else { r.push(x); }
                            continue;
                        }
                    }
                }
            }
            r.push(p);
        }
        if r.len() == 1 { return r[0]; }
        let w: u16 = r.iter().map(|x| self.w(*x)).sum();
        assert!(w <= 128, "concat too wide");
        self.intern(Op::Concat(r.into_boxed_slice()), w)
    }
    pub fn mk_zext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w { return t; }
        let z = self.konst(0, w - tw);
        self.mk_concat(vec![z, t])
    }
    pub fn mk_trunc(&mut self, t: T, w: u16) -> T { self.mk_extract(t, 0, w) }
    fn x_sext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w { return t; }
        match self.op(t).clone() {
            Op::Const(v) => return self.konst(sx(v, tw) as u128, w),
            Op::Concat(l) => { if let Some(v) = self.is_const(l[0]) { let fw = self.w(l[0]); if v >> (fw - 1) == 0 { return self.mk_zext(t, w); } let k = self.konst(u128::MAX, w - tw); return self.mk_concat(vec![k, t]); } }
            Op::Sext(x) => return self.mk_sext(x, w),
            Op::Table(v, i) => { let nv = v.iter().map(|x| (sx(*x, tw) as u128) & mask(w)).collect(); return self.mk_table(nv, i, w); }
            _ => {}
        }
        self.intern(Op::Sext(t), w)
    }
    fn x_table(&mut self, v: Vec<u128>, i: T, w: u16) -> T {
        if v.iter().all(|x| *x == v[0]) { return self.konst(v[0], w); }
        if let Some(k) = self.is_const(i) { return self.konst(v[k as usize], w); }
        if w == self.w(i) && v.iter().enumerate().all(|(k, x)| k as u128 == *x) { return i; }
        // composition of tables
        if let Op::Table(v2, j) = self.op(i).clone() { let nv: Vec<u128> = v2.iter().map(|x| v[*x as usize]).collect(); return self.mk_table(nv, j, w); }
        self.intern(Op::Table(v.into(), i), w)
    }

    // ---- shifts ----
    fn x_bin(&mut self, op: B2, a: T, b: T) -> T {
        let w = self.w(a);
        if op == B2::Mul { return self.mk_mul(a, b); }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(ev2(op, x, y, w), w); }
        if let Some(k) = self.is_const(b) {
            match op {
                B2::Shl => { if k >= w as u128 { return self.konst(0, w); } if k == 0 { return a; } let k = k as u16; let e = self.mk_extract(a, 0, w - k); let z = self.konst(0, k); return self.mk_concat(vec![e, z]); }
                B2::Lshr => { if k >= w as u128 { return self.konst(0, w); } if k == 0 { return a; } let k = k as u16; let e = self.mk_extract(a, k, w - k); return self.mk_zext(e, w); }
                B2::Ashr => { let k = k.min(w as u128 - 1) as u16; if k == 0 { return a; } let e = self.mk_extract(a, k, w - k); return self.mk_sext(e, w); }
                B2::Udiv if k.is_power_of_two() => { let s = self.konst(k.trailing_zeros() as u128, w); return self.mk_bin(B2::Lshr, a, s); }
                B2::Urem if k.is_power_of_two() => { let s = self.konst(k - 1, w); return self.mk_and(vec![a, s]); }
                B2::Sdiv | B2::Srem if k >> (w - 1) == 0 => {
                    // non-negative dividend
                    if self.top_zero(a, 1) { return self.mk_bin(if op == B2::Sdiv { B2::Udiv } else { B2::Urem }, a, b); }
                }
                _ => {}
            }
        }
        if op == B2::Urem || op == B2::Udiv {
            // narrow: both operands zero-extended
            if let (Op::Concat(l), Some(k)) = (self.op(a).clone(), self.is_const(b)) {
                if self.is_const(l[0]) == Some(0) && k != 0 {
                    let fw = self.w(l[0]); let nw = w - fw;
                    if k <= mask(nw) {
                        let lo = self.mk_extract(a, 0, nw); let kk = self.konst(k, nw);
                        if fw > 0 && self.is_const(lo).is_none() { let r = self.intern(Op::Bin(op, lo, kk), nw); return self.mk_zext(r, w); }
                    }
                }
            }
        }
        self.intern(Op::Bin(op, a, b), w)
    }
    /// concat(a,b) << k, high half
    fn x_fshl(&mut self, a: T, b: T, k: T, right: bool) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(k) {
            let k = (k % w as u128) as u16;
            if k == 0 { return if right { b } else { a }; }
            let k = if right { w - k } else { k };
            let hi = self.mk_extract(a, 0, w - k);
            let lo = self.mk_extract(b, w - k, k);
            return self.mk_concat(vec![hi, lo]);
        }
        let wk = self.konst(w as u128, w);
        let km = self.mk_bin(B2::Urem, k, wk);
        let inv = self.mk_sub(wk, km);
        let zero = self.konst(0, w);
        let isz = self.mk_eq(km, zero);
        let (sa, sb) = if right { (inv, km) } else { (km, inv) };
        let x = self.mk_bin(B2::Shl, a, sa);
        let y = self.mk_bin(B2::Lshr, b, sb);
        let o = self.mk_or(vec![x, y]);
        self.mk_ite(isz, if right { b } else { a }, o)
    }

    // ---- predicates ----
    fn x_ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(v) = self.is_const(c) { return if v != 0 { a } else { b }; }
        if let Op::Xor(1, l) = self.op(c).clone() { if l.len() == 1 { return self.mk_ite(l[0], b, a); } }
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if let Op::Ite(c2, x, _) = *self.op(a) { if c2 == c { a = x; } }
        if let Op::Ite(c2, _, y) = *self.op(b) { if c2 == c { b = y; } }
        if a == b { return a; }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.mk_not(c),
                (Some(1), None) => return self.mk_or(vec![c, b]),
                (Some(0), None) => { let n = self.mk_not(c); return self.mk_and(vec![n, b]); }
                (None, Some(0)) => return self.mk_and(vec![c, a]),
                (None, Some(1)) => { let n = self.mk_not(c); return self.mk_or(vec![n, a]); }
                _ => {}
            }
        }
        // factor common xor operands
        let la: Option<(u128, Vec<T>)> = match self.op(a) { Op::Xor(c, l) => Some((*c, l.to_vec())), _ => None };
        let lb: Option<(u128, Vec<T>)> = match self.op(b) { Op::Xor(c, l) => Some((*c, l.to_vec())), _ => None };
        if la.is_some() || lb.is_some() {
            let (ca, va) = la.unwrap_or_else(|| match self.is_const(a) { Some(v) => (v, vec![]), None => (0, vec![a]) });
            let (cb, vb) = lb.unwrap_or_else(|| match self.is_const(b) { Some(v) => (v, vec![]), None => (0, vec![b]) });
            let common: Vec<T> = va.iter().filter(|x| vb.binary_search(x).is_ok()).cloned().collect();
            if !common.is_empty() {
                let ra: Vec<T> = va.iter().filter(|x| common.binary_search(x).is_err()).cloned().collect();
                let rb: Vec<T> = vb.iter().filter(|x| common.binary_search(x).is_err()).cloned().collect();
                let ta = self.mk_xor(w, ca, ra);
                let tb = self.mk_xor(w, cb, rb);
                let i = self.mk_ite(c, ta, tb);
                let mut v = common; v.push(i);
                return self.mk_xor(w, 0, v);
            }
        }
        self.intern(Op::Ite(c, a, b), w)
    }

    fn x_eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.konst(1, 1); }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst((x == y) as u128, 1); }
        if w == 1 { return self.mk_xor(1, 1, vec![a, b]); }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.is_const(b) { return self.eq_const(a, k); }
        let lin = |s: &Store, t: T| matches!(s.op(t), Op::Lin(..));
        if lin(self, a) || lin(self, b) {
            let d = self.mk_sub(a, b);
            if let Some(v) = self.is_const(d) { return self.konst((v == 0) as u128, 1); }
            if let Op::Lin(_, l) = self.op(d) { if l.len() == 1 { return self.eq_const(d, 0); } }
            else { return self.eq_const(d, 0); }
        }
        if let (Op::Xor(..), _) | (_, Op::Xor(..)) = (self.op(a), self.op(b)) {
            let x = self.mk_xor2(a, b);
            match self.op(x) { Op::Xor(c, l) if l.len() == 1 => { let (c, t) = (*c, l[0]); return self.eq_const(t, c); } Op::Xor(..) => {} _ => return self.eq_const(x, 0) }
        }
        if self.has_const_seg(a) || self.has_const_seg(b) {
            let sa = self.segs(a); let sb = self.segs(b);
            let bs = Self::bounds(&[&sa, &sb], w);
            let mut ps = vec![];
            for i in 0..bs.len() - 1 {
                let x = self.mk_extract(a, bs[i], bs[i + 1] - bs[i]);
                let y = self.mk_extract(b, bs[i], bs[i + 1] - bs[i]);
                ps.push(self.mk_eq(x, y));
            }
            return self.mk_and(ps);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Op::Eq(a, b), 1)
    }
    fn x_eq_const(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let k = k & mask(w);
        if w == 1 { return if k == 1 { a } else { self.mk_not(a) }; }
        match self.op(a).clone() {
            Op::Const(v) => return self.konst((v == k) as u128, 1),
            Op::Concat(l) => {
                let mut ps = vec![]; let mut hi = w;
                // consts first
                for x in l.iter() { let xw = self.w(*x); hi -= xw; if let Some(v) = self.is_const(*x) { if v != (k >> hi) & mask(xw) { return self.konst(0, 1); } } }
                hi = w;
                for x in l.iter() { let xw = self.w(*x); hi -= xw; if self.is_const(*x).is_none() { ps.push(self.eq_const(*x, k >> hi)); } }
                return self.mk_and(ps);
            }
            Op::Xor(c, l) if l.len() == 1 => return self.eq_const(l[0], k ^ c),
            Op::Xor(c, l) if c != 0 => { let x = self.mk_xor(w, 0, l.to_vec()); return self.eq_const(x, k ^ c); }
            Op::Lin(c, l) if l.len() == 1 => {
                let (t, co) = l[0];
                let d = k.wrapping_sub(c) & mask(w);
                if co == 1 { return self.eq_const(t, d); }
                if co == mask(w) { return self.eq_const(t, d.wrapping_neg()); }
                if let Some(vs) = self.vsa(t, 256) {
                    let m = mask(w);
                    let mut ps = vec![];
                    for v in vs { if v.wrapping_mul(co) & m == d { ps.push(self.eq_const(t, v)); } }
                    if ps.is_empty() { return self.konst(0, 1); }
                    return self.mk_or(ps);
                }
            }
            Op::Lin(c, l) if c != 0 => { let x = self.mk_lin(w, 0, l.to_vec()); return self.eq_const(x, k.wrapping_sub(c)); }
            Op::Ite(c, x, y) => {
                let (cx, cy) = (self.is_const(x), self.is_const(y));
                if cx.is_some() || cy.is_some() {
                    let ex = self.eq_const(x, k);
                    let ey = self.eq_const(y, k);
                    return self.mk_ite(c, ex, ey);
                }
            }
            Op::Table(v, i) => {
                let hits: Vec<u128> = v.iter().enumerate().filter(|(_, x)| **x == k).map(|(j, _)| j as u128).collect();
                if hits.is_empty() { return self.konst(0, 1); }
                if hits.len() <= 4 { let ps: Vec<T> = hits.into_iter().map(|h| self.eq_const(i, h)).collect(); return self.mk_or(ps); }
            }
            Op::Sext(x) => {
                let xw = self.w(x);
                let lowk = k & mask(xw);
                if (sx(lowk, xw) as u128) & mask(w) != k { return self.konst(0, 1); }
                return self.eq_const(x, lowk);
            }
            _ => {}
        }
        let kt = self.konst(k, w);
        let (x, y) = if a < kt { (a, kt) } else { (kt, a) };
        self.intern(Op::Eq(x, y), 1)
    }
    fn x_ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.konst(0, 1); }
        let w = self.w(a);
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst((x < y) as u128, 1),
            (_, Some(0)) => return self.konst(0, 1),
            (_, Some(1)) => return self.eq_const(a, 0),
            (Some(x), _) if x == mask(w) => return self.konst(0, 1),
            (Some(0), _) => { let e = self.eq_const(b, 0); return self.mk_not(e); }
            _ => {}
        }
        if w == 1 { let n = self.mk_not(a); return self.mk_and(vec![n, b]); }
        // strip a common zero prefix
        let z = |s: &Store, t: T| -> u16 { match s.op(t) { Op::Concat(l) => if s.is_const(l[0]) == Some(0) { s.w(l[0]) } else { 0 }, Op::Const(v) => w - (128 - v.leading_zeros() as u16), _ => 0 } };
        let k = z(self, a).min(z(self, b)).min(w - 1);
        if k > 0 { let x = self.mk_extract(a, 0, w - k); let y = self.mk_extract(b, 0, w - k); return self.mk_ult(x, y); }
        self.intern(Op::Ult(a, b), 1)
    }
    fn x_slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.konst(0, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst((sx(x, w) < sx(y, w)) as u128, 1); }
        if w > 1 {
            let nn = |s: &Store, t: T| s.top_zero(t, 1);
            if nn(self, a) && nn(self, b) { return self.mk_ult(a, b); }
            if self.is_const(b) == Some(0) { return self.mk_extract(a, w - 1, 1); }
            if self.is_allones_neg1(a) { let e = self.mk_extract(b, w - 1, 1); return self.mk_not(e); }
        }
        self.intern(Op::Slt(a, b), 1)
    }
    fn is_allones_neg1(&self, a: T) -> bool { self.is_allones(a) }

    // ---- value sets ----
    pub fn vsa(&self, t: T, lim: usize) -> Option<Vec<u128>> {
        let w = self.w(t);
        let fin = |mut v: Vec<u128>| { v.sort_unstable(); v.dedup(); if v.len() > lim { None } else { Some(v) } };
        match self.op(t) {
            Op::Const(v) => Some(vec![*v]),
            Op::Concat(l) => {
                let mut acc = vec![0u128];
                for x in l.iter() {
                    let s = self.vsa(*x, lim)?;
                    if acc.len() * s.len() > lim { return None; }
                    let xw = self.w(*x);
                    acc = acc.iter().flat_map(|a| s.iter().map(move |b| if xw >= 128 { *b } else { a << xw | b })).collect();
                }
                fin(acc)
            }
            Op::Ite(_, a, b) => { let mut x = self.vsa(*a, lim)?; x.extend(self.vsa(*b, lim)?); fin(x) }
            Op::Lin(c, l) => {
                let mut acc = vec![*c];
                for (x, k) in l.iter() {
                    let s = self.vsa(*x, lim)?;
                    if acc.len() * s.len() > lim * 4 { return None; }
                    acc = acc.iter().flat_map(|a| s.iter().map(move |b| a.wrapping_add(b.wrapping_mul(*k)) & mask(w))).collect();
                    acc.sort_unstable(); acc.dedup();
                }
                fin(acc)
            }
            Op::Xor(c, l) if w > 8 => {
                let mut acc = vec![*c];
                for x in l.iter() { let s = self.vsa(*x, lim)?; if acc.len() * s.len() > lim * 4 { return None; } acc = acc.iter().flat_map(|a| s.iter().map(move |b| a ^ b)).collect(); acc.sort_unstable(); acc.dedup(); }
                fin(acc)
            }
            Op::Bin(B2::Urem, _, b) => { let k = self.is_const(*b)?; if k == 0 || k as usize > lim { return None; } Some((0..k).collect()) }
            Op::Bin(o, a, b) => { let x = self.vsa(*a, lim)?; let y = self.vsa(*b, lim)?; if x.len() * y.len() > lim * 4 { return None; } fin(x.iter().flat_map(|p| y.iter().map(move |q| ev2(*o, *p, *q, w))).collect()) }
            Op::Sext(a) => { let x = self.vsa(*a, lim)?; let aw = self.w(*a); fin(x.into_iter().map(|v| (sx(v, aw) as u128) & mask(w)).collect()) }
            Op::Table(v, _) => fin(v.to_vec()),
            Op::And(l) if w > 8 => { // any constant operand bounds the set
                for x in l.iter() { if let Some(k) = self.is_const(*x) { if (k.count_ones() as usize) <= 10 { let mut v = vec![]; let mut s = k; loop { v.push(s); if s == 0 { break; } s = (s - 1) & k; } return fin(v); } } }
                None
            }
            _ => if w < 16 && (1usize << w) <= lim { Some((0..(1u128 << w)).collect()) } else { None },
        }
    }
}
