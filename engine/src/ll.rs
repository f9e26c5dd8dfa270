//! A small parser for the textual LLVM IR that rustc emits (opaque pointers).
//! Only functions reachable from the requested entry points are parsed.
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Int(u32), Ptr, Vec(u64, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Void, Other(u32) }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 1 { 1 } else { let a = self.align(); (b + a - 1) / a * a } }
            Ty::Ptr => 8,
            Ty::Vec(n, t) => { let s = (n * t.bits() + 7) / 8; s.next_power_of_two() }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut al = 1;
                for t in f { let a = if *packed { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a; o += t.size(); }
                (o + al - 1) / al * al
            }
            Ty::Void => 0,
            Ty::Other(b) => *b as u64 / 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Void => 1,
            Ty::Other(b) => *b as u64 / 8,
        }
    }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, Ty::Ptr => 64, Ty::Other(b) => *b as u64, Ty::Vec(n, t) => n * t.bits(), _ => self.size() * 8 } }
    pub fn field_off(f: &[Ty], packed: bool, i: usize) -> u64 {
        let mut o = 0;
        for (j, t) in f.iter().enumerate() { let a = if packed { 1 } else { t.align() }; o = (o + a - 1) / a * a; if j == i { return o; } o += t.size(); }
        o
    }
}

#[derive(Clone, Debug)]
pub enum K { Int(u128), Addr(u64), Zero, Undef, Agg(Vec<K>) }
#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(K) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Ty, Opd, Opd, bool),
    Icmp(String, Ty, Opd, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Cast(&'static str, Ty, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(u64, Opd, u32)>),
    Call { name: Option<String>, ptr: Option<Opd>, args: Vec<(Ty, Opd)>, ret: Ty, asm: Option<String>, normal: Option<u32> },
    Extractvalue(Ty, Opd, Vec<u32>),
    Insertvalue(Ty, Opd, Ty, Opd, Vec<u32>),
    Extractelement(Ty, Opd, Opd),
    Insertelement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Alloca(u64, u64),
    Freeze(Ty, Opd),
    Cmpxchg(Ty, Opd, Opd, Opd),
    Rmw(String, Ty, Opd, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
}
#[derive(Debug)]
pub struct Phi { pub dst: u32, pub ty: Ty, pub inc: Vec<(u32, Opd)> }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<(Option<u32>, I)> }
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub ipdom: Vec<Option<u32>>, pub bnames: Vec<String> }

pub struct Global { pub addr: u64, pub bytes: Vec<Option<u8>>, pub constant: bool, pub tls: bool, pub name: String, pub align: u64 }

pub struct Module {
    pub text: String,
    fn_pos: HashMap<String, (usize, usize)>,
    decl: HashMap<String, usize>,
    gl_pos: HashMap<String, usize>,
    types: HashMap<String, Ty>,
    attrs: HashMap<String, String>,
    pub funcs: HashMap<String, Rc<Func>>,
    pub fn_addr: HashMap<String, u64>,
    pub addr_fn: HashMap<u64, String>,
    pub globals: Vec<Global>,
    gl_idx: HashMap<String, usize>,
    next_g: u64,
    next_f: u64,
    pending_fns: Vec<String>,
}

pub struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self { P { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let e = self.i + b.len();
            if is_w(b[b.len() - 1]) && e < self.s.len() && is_w(self.s[e]) { return false; }
            self.i = e; true
        } else { false }
    }
    fn need(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?} in {:?}", t, self.rest(40), String::from_utf8_lossy(&self.s[..self.s.len().min(300)])) } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).to_string() }
    fn word(&mut self) -> String { self.ws(); let b = self.i; while self.i < self.s.len() && is_w(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[b..self.i]).to_string() }
    /// identifier after % or @
    fn ident(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let b = self.i + 1; self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[b..self.i]).to_string(); self.i += 1; r
        } else {
            let b = self.i;
            while self.i < self.s.len() && (is_w(self.s[self.i]) || self.s[self.i] == b'$' || self.s[self.i] == b'-') { self.i += 1; }
            String::from_utf8_lossy(&self.s[b..self.i]).to_string()
        }
    }
    fn num(&mut self) -> u64 { let w = self.word(); w.parse().unwrap_or_else(|_| panic!("num {:?} at {}", w, self.rest(50))) }
    fn skip_paren(&mut self) { // at '('
        self.need("("); let mut d = 1;
        while d > 0 { match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; }
    }
}
fn is_w(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' }

struct Fp { regs: HashMap<String, u32>, labels: HashMap<String, u32> }
impl Fp {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
}

const BINOPS: [&str; 13] = ["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"];
const CASTS: [&str; 9] = ["zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr", "fptoui"];
const FLAGS: [&str; 12] = ["nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "fast", "volatile", "atomic", "weak"];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut m = Module { text: String::new(), fn_pos: HashMap::new(), decl: HashMap::new(), gl_pos: HashMap::new(), types: HashMap::new(), attrs: HashMap::new(), funcs: HashMap::new(), fn_addr: HashMap::new(), addr_fn: HashMap::new(), globals: vec![], gl_idx: HashMap::new(), next_g: 0x100_0000, next_f: 0x1000, pending_fns: vec![] };
        let mut pos = 0;
        let mut cur: Option<(String, usize)> = None;
        let mut tys = vec![];
        for line in text.split_inclusive('\n') {
            let start = pos; pos += line.len();
            if cur.is_some() { if line.starts_with('}') { let (n, b) = cur.take().unwrap(); m.fn_pos.insert(n, (b, pos)); } continue; }
            if line.starts_with("define ") { cur = Some((sym_name(line), start)); }
            else if line.starts_with("declare ") { m.decl.insert(sym_name(line), start); }
            else if line.starts_with('@') { m.gl_pos.insert(sym_name(line), start); }
            else if line.starts_with('%') { tys.push(line.to_string()); }
            else if line.starts_with("attributes #") { let r = &line[11..]; let e = r.find(' ').unwrap(); m.attrs.insert(r[..e].to_string(), r.to_string()); }
        }
        for l in tys {
            let mut p = P::new(&l); p.i = 1; let n = p.ident(); p.need("="); p.need("type");
            if p.eat("opaque") { continue; }
            let t = m.ty(&mut p); m.types.insert(n, t);
        }
        m.text = text;
        m
    }
    pub fn has_fn(&self, n: &str) -> bool { self.fn_pos.contains_key(n) }
    fn line_at(&self, p: usize) -> &str { let e = self.text[p..].find('\n').map(|x| p + x).unwrap_or(self.text.len()); &self.text[p..e] }
    pub fn fn_names(&self) -> Vec<String> { self.fn_pos.keys().cloned().collect() }

    pub fn noreturn(&self, n: &str) -> bool {
        let l = if let Some((a, _)) = self.fn_pos.get(n) { self.line_at(*a) } else if let Some(a) = self.decl.get(n) { self.line_at(*a) } else { return false };
        if l.contains(" noreturn") { return true; }
        // attribute group
        for tok in l.split(' ') { if tok.starts_with('#') { if let Some(a) = self.attrs.get(tok) { if a.contains(" noreturn") { return true; } } } }
        false
    }

    fn ty(&self, p: &mut P) -> Ty {
        let c = p.peek();
        let t = match c {
            b'{' => { p.need("{"); let f = self.tylist(p, "}"); Ty::Struct(f, false) }
            b'<' => {
                p.need("<");
                if p.eat("{") { let f = self.tylist(p, "}"); p.need(">"); Ty::Struct(f, true) }
                else { let n = p.num(); p.need("x"); let t = self.ty(p); p.need(">"); Ty::Vec(n, Box::new(t)) }
            }
            b'[' => { p.need("["); let n = p.num(); p.need("x"); let t = self.ty(p); p.need("]"); Ty::Arr(n, Box::new(t)) }
            b'%' => { p.i += 1; let n = p.ident(); self.types.get(&n).cloned().unwrap_or(Ty::Void) }
            _ => {
                let w = p.word();
                match w.as_str() {
                    "ptr" => { if p.eat("addrspace") { p.skip_paren(); } Ty::Ptr }
                    "void" => Ty::Void,
                    "float" => Ty::Other(32), "double" => Ty::Other(64), "half" => Ty::Other(16), "fp128" => Ty::Other(128), "x86_fp80" => Ty::Other(128),
                    "metadata" | "token" | "label" | "opaque" => Ty::Void,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} at {}", w, p.rest(60)))),
                    _ => panic!("type {:?} at {:?}", w, p.rest(60)),
                }
            }
        };
        t
    }
    fn tylist(&self, p: &mut P, end: &str) -> Vec<Ty> {
        let mut f = vec![];
        if p.eat(end) { return f; }
        loop { f.push(self.ty(p)); if p.eat(end) { return f; } p.need(","); }
    }

    fn global_addr(&mut self, n: &str) -> u64 {
        if self.fn_pos.contains_key(n) || self.decl.contains_key(n) {
            if let Some(a) = self.fn_addr.get(n) { return *a; }
            let a = self.next_f; self.next_f += 16;
            self.fn_addr.insert(n.to_string(), a); self.addr_fn.insert(a, n.to_string());
            self.pending_fns.push(n.to_string());
            return a;
        }
        if let Some(i) = self.gl_idx.get(n) { return self.globals[*i].addr; }
        let pos = *self.gl_pos.get(n).unwrap_or_else(|| panic!("unknown global @{}", n));
        let line = self.line_at(pos).to_string();
        let mut p = P::new(&line); p.i = 1; p.ident(); p.need("=");
        let mut constant = false; let mut external = false; let mut tls = false;
        loop {
            let save = p.i;
            if p.peek() == b'"' { p.ident(); continue; }
            if !(p.peek().is_ascii_alphabetic()) { break; }
            let w = p.word();
            match w.as_str() {
                "constant" => { constant = true; break; }
                "global" => break,
                "external" | "extern_weak" => external = true,
                "thread_local" => { tls = true; if p.peek() == b'(' { p.skip_paren(); } }
                "addrspace" => p.skip_paren(),
                "alias" | "ifunc" => {
                    let _t = self.ty(&mut p); p.need(","); let t2 = self.ty(&mut p);
                    let k = self.konst(&mut p, &t2);
                    if let K::Addr(a) = k { return a; }
                    panic!("alias {}", n);
                }
                _ => { let _ = save; }
            }
        }
        let ty = self.ty(&mut p);
        let size = ty.size();
        let align = line.rfind(", align ").and_then(|i| line[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>().ok()).unwrap_or(16).max(16);
        let addr = (self.next_g + align - 1) / align * align;
        self.next_g = addr + size + 64;
        let idx = self.globals.len();
        self.gl_idx.insert(n.to_string(), idx);
        self.globals.push(Global { addr, bytes: vec![], constant, tls, name: n.to_string(), align });
        let mut bytes = vec![Some(0u8); size as usize];
        if external { for b in bytes.iter_mut() { *b = None; } }
        else { let k = self.konst(&mut p, &ty); self.fill(&mut bytes, 0, &ty, &k); }
        self.globals[idx].bytes = bytes;
        addr
    }
    fn fill(&self, out: &mut Vec<Option<u8>>, off: u64, ty: &Ty, k: &K) {
        match (ty, k) {
            (_, K::Zero) => {}
            (_, K::Undef) => for i in 0..ty.size() { out[(off + i) as usize] = None },
            (Ty::Int(_), K::Int(v)) => for i in 0..ty.size() { out[(off + i) as usize] = Some(if i < 16 { (v >> (8 * i)) as u8 } else { 0 }) },
            (_, K::Addr(a)) => for i in 0..8 { out[(off + i) as usize] = Some((a >> (8 * i)) as u8) },
            (Ty::Ptr, K::Int(a)) => for i in 0..8 { out[(off + i) as usize] = Some((a >> (8 * i)) as u8) },
            (Ty::Arr(_, t), K::Agg(v)) => for (i, x) in v.iter().enumerate() { self.fill(out, off + i as u64 * t.size(), t, x) },
            (Ty::Vec(_, t), K::Agg(v)) => for (i, x) in v.iter().enumerate() { self.fill(out, off + i as u64 * t.size(), t, x) },
            (Ty::Struct(f, pk), K::Agg(v)) => for (i, x) in v.iter().enumerate() { self.fill(out, off + Ty::field_off(f, *pk, i), &f[i], x) },
            (Ty::Other(_), K::Int(v)) => for i in 0..ty.size() { out[(off + i) as usize] = Some((v >> (8 * i)) as u8) },
            _ => panic!("init {:?} {:?}", ty, k),
        }
    }

    fn konst(&mut self, p: &mut P, ty: &Ty) -> K {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.ident(); K::Addr(self.global_addr(&n)) }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2; let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' { v.push(K::Int(92)); p.i += 2; }
                    else if p.s[p.i] == b'\\' { let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap(); v.push(K::Int(u128::from_str_radix(h, 16).unwrap())); p.i += 3; }
                    else { v.push(K::Int(p.s[p.i] as u128)); p.i += 1; }
                }
                p.i += 1; K::Agg(v)
            }
            b'<' => {
                p.need("<");
                if p.eat("{") { let v = self.klist(p, "}"); p.need(">"); K::Agg(v) } else { let v = self.klist(p, ">"); K::Agg(v) }
            }
            b'{' => { p.need("{"); let v = self.klist(p, "}"); K::Agg(v) }
            b'[' => { p.need("["); let v = self.klist(p, "]"); K::Agg(v) }
            b'-' | b'0'..=b'9' => {
                let neg = c == b'-'; if neg { p.i += 1; }
                let w = p.word();
                if w.starts_with("0x") || w.contains('.') || w.contains('e') {
                    if let Some(h) = w.strip_prefix("0x") { return K::Int(u128::from_str_radix(h.trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'M' || c == 'H' || c == 'R'), 16).unwrap_or(0)); }
                    let mut full = w.clone(); if p.i < p.s.len() && (p.s[p.i] == b'+' || p.s[p.i] == b'-') { p.i += 1; full.push_str(&p.word()); }
                    let f: f64 = w.parse().unwrap_or(0.0); return K::Int(f.to_bits() as u128);
                }
                let v: u128 = w.parse().unwrap_or_else(|_| panic!("int const {}", w));
                let wd = match ty { Ty::Int(w) => *w, _ => 64 };
                K::Int(if neg { v.wrapping_neg() & crate::term::mask(wd as u16) } else { v })
            }
            _ => {
                let w = p.word();
                match w.as_str() {
                    "true" => K::Int(1), "false" => K::Int(0), "null" => K::Int(0),
                    "undef" | "poison" => K::Undef, "zeroinitializer" | "none" => K::Zero,
                    "getelementptr" => {
                        loop { let mut any = false; for f in FLAGS { if p.eat(f) { any = true; } } if p.eat("inrange") { p.skip_paren(); any = true; } if !any { break; } }
                        p.need("(");
                        let bt = self.ty(p); p.need(","); let pt = self.ty(p);
                        let base = self.konst(p, &pt);
                        let mut idx = vec![];
                        while p.eat(",") { let t = self.ty(p); let k = self.konst(p, &t); if let K::Int(v) = k { idx.push((v, t)); } else { idx.push((0, t)); } }
                        p.need(")");
                        let mut a = match base { K::Addr(a) => a as i128, K::Int(v) => v as i128, _ => 0 };
                        let mut cur = bt;
                        for (i, (v, t)) in idx.iter().enumerate() {
                            let wd = match t { Ty::Int(w) => *w as u16, _ => 64 };
                            let v = crate::term::sx(*v, wd);
                            if i == 0 { a += v * cur.size() as i128; }
                            else { match cur.clone() { Ty::Arr(_, t) | Ty::Vec(_, t) => { a += v * t.size() as i128; cur = *t; } Ty::Struct(f, pk) => { a += Ty::field_off(&f, pk, v as usize) as i128; cur = f[v as usize].clone(); } _ => panic!("gep const") } }
                        }
                        K::Addr(a as u64)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => { p.need("("); let t = self.ty(p); let k = self.konst(p, &t); p.need("to"); self.ty(p); p.need(")"); k }
                    "splat" => { p.need("("); let t = self.ty(p); let k = self.konst(p, &t); p.need(")"); let n = match ty { Ty::Vec(n, _) => *n, _ => panic!() }; K::Agg(vec![k; n as usize]) }
                    "sub" | "add" | "xor" => {
                        loop { let mut any = false; for f in FLAGS { if p.eat(f) { any = true; } } if !any { break; } }
                        p.need("("); let t = self.ty(p); let a = self.konst(p, &t); p.need(","); let t2 = self.ty(p); let b = self.konst(p, &t2); p.need(")");
                        let g = |k: K| match k { K::Int(v) => v, K::Addr(a) => a as u128, _ => 0 };
                        let (a, b) = (g(a), g(b));
                        let m = crate::term::mask(t.bits() as u16);
                        K::Int(match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b } & m)
                    }
                    "dso_local_equivalent" | "no_cfi" => self.konst(p, ty),
                    _ => panic!("const {:?} at {:?} ", w, p.rest(80)),
                }
            }
        }
    }
    fn klist(&mut self, p: &mut P, end: &str) -> Vec<K> {
        let mut v = vec![];
        if p.eat(end) { return v; }
        loop { let t = self.ty(p); v.push(self.konst(p, &t)); if p.eat(end) { return v; } p.need(","); }
    }
    fn opd(&mut self, p: &mut P, fp: &mut Fp, ty: &Ty) -> Opd {
        if p.peek() == b'%' { p.i += 1; let n = p.ident(); Opd::Reg(fp.reg(&n)) } else { Opd::K(self.konst(p, ty)) }
    }
    fn typed(&mut self, p: &mut P, fp: &mut Fp) -> (Ty, Opd) { let t = self.ty(p); skip_attrs(p); let o = self.opd(p, fp, &t); (t, o) }
    fn label(&mut self, p: &mut P, fp: &mut Fp) -> u32 { p.need("label"); p.peek(); p.i += 1; let n = p.ident(); *fp.labels.get(&n).unwrap_or_else(|| panic!("label {}", n)) }

    pub fn load_reachable(&mut self, entries: &[String]) {
        let mut work: Vec<String> = entries.to_vec();
        let mut seen: HashSet<String> = HashSet::new();
        while let Some(n) = work.pop() {
            if !seen.insert(n.clone()) { continue; }
            if self.funcs.contains_key(&n) || !self.fn_pos.contains_key(&n) { continue; }
            if self.noreturn(&n) && !entries.contains(&n) { continue; }
            if is_intercepted(&n) { continue; }
            let f = self.parse_fn(&n);
            for b in &f.blocks { for (_, i) in &b.insts { if let I::Call { name: Some(c), .. } = i { work.push(c.clone()); } } }
            self.funcs.insert(n.clone(), Rc::new(f));
            let pf = std::mem::take(&mut self.pending_fns);
            work.extend(pf);
        }
    }

    fn parse_fn(&mut self, name: &str) -> Func {
        let (a, b) = self.fn_pos[name];
        let text = self.text[a..b].to_string();
        let mut lines: Vec<String> = vec![];
        // join multi-line switches / landingpads
        let mut acc = String::new(); let mut open = false;
        for (li, l) in text.lines().enumerate() {
            if li == 0 { lines.push(l.to_string()); continue; }
            let tr = l.trim();
            if tr.is_empty() || tr.starts_with(';') || tr == "}" { continue; }
            if open { acc.push(' '); acc.push_str(tr); if tr.starts_with(']') { open = false; lines.push(std::mem::take(&mut acc)); } continue; }
            if tr.starts_with("switch ") && tr.ends_with('[') { acc = l.to_string(); open = true; continue; }
            if (tr.starts_with("catch ") || tr == "cleanup" || tr.starts_with("filter ")) && !lines.is_empty() { continue; }
            if tr.starts_with("to label ") { let k = lines.len() - 1; let s = format!("{} {}", lines[k], tr); lines[k] = s; continue; }
            if tr.starts_with("#dbg_") { continue; }
            lines.push(l.to_string());
        }
        let mut fp = Fp { regs: HashMap::new(), labels: HashMap::new() };
        // header
        let h = lines[0].clone();
        let mut params = vec![];
        {
            let at = h.find('@').unwrap();
            let mut p = P::new(&h); p.i = at + 1; p.ident(); p.need("(");
            if !p.eat(")") {
                let mut n = 0;
                loop {
                    if p.eat("...") { p.need(")"); break; }
                    self.ty(&mut p); skip_attrs(&mut p);
                    let nm = if p.peek() == b'%' { p.i += 1; p.ident() } else { n.to_string() };
                    n += 1;
                    params.push(fp.reg(&nm));
                    if p.eat(")") { break; } p.need(",");
                }
            }
        }
        // labels
        let mut bnames = vec![];
        let first_label = { let l = &lines[1]; is_label(l) };
        if let Some(l) = &first_label { fp.labels.insert(l.clone(), 0); bnames.push(l.clone()); }
        else { let nm = params.iter().filter(|p| fp.regs.iter().any(|(k, v)| v == *p && k.bytes().all(|c| c.is_ascii_digit()))).count().to_string(); fp.labels.insert(nm.clone(), 0); bnames.push(nm); }
        let mut k = 0;
        for (i, l) in lines.iter().enumerate().skip(1) { if let Some(n) = is_label(l) { if i == 1 { continue; } k += 1; fp.labels.insert(n.clone(), k); bnames.push(n); } }
        let nb = k as usize + 1;
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        let mut cur = 0usize;
        for (i, l) in lines.iter().enumerate().skip(1) {
            if let Some(n) = is_label(l) { if i == 1 { continue; } cur = fp.labels[&n] as usize; continue; }
            self.inst(l, &mut fp, &mut blocks[cur]);
        }
        let mut f = Func { name: name.to_string(), params, nregs: fp.regs.len() as u32, blocks, ipdom: vec![], bnames };
        f.ipdom = ipdoms(&f);
        f
    }

    fn inst(&mut self, l: &str, fp: &mut Fp, blk: &mut Block) {
        let mut p = P::new(l);
        let mut dst = None;
        if p.peek() == b'%' { p.i += 1; let n = p.ident(); dst = Some(fp.reg(&n)); p.need("="); }
        let mut op = p.word();
        while ["tail", "musttail", "notail"].contains(&op.as_str()) { op = p.word(); }
        let mut disjoint = false;
        let mut flags = |p: &mut P| { loop { let mut any = false; for f in FLAGS { if p.eat(f) { any = true; if f == "disjoint" { disjoint = true; } } } if p.eat("inrange") { p.skip_paren(); any = true; } if !any { break; } } };
        if let Some(o) = BINOPS.iter().find(|x| **x == op) {
            flags(&mut p);
            let t = self.ty(&mut p); let a = self.opd(&mut p, fp, &t); p.need(","); let b = self.opd(&mut p, fp, &t);
            blk.insts.push((dst, I::Bin(o, t, a, b, disjoint))); return;
        }
        if let Some(o) = CASTS.iter().find(|x| **x == op) {
            flags(&mut p);
            let (t, a) = self.typed(&mut p, fp); p.need("to"); let t2 = self.ty(&mut p);
            blk.insts.push((dst, I::Cast(o, t, a, t2))); return;
        }
        let ins = match op.as_str() {
            "icmp" => { flags(&mut p); let pr = p.word(); let t = self.ty(&mut p); let a = self.opd(&mut p, fp, &t); p.need(","); let b = self.opd(&mut p, fp, &t); I::Icmp(pr, t, a, b) }
            "select" => { flags(&mut p); let (ct, c) = self.typed(&mut p, fp); p.need(","); let (t, a) = self.typed(&mut p, fp); p.need(","); let (_, b) = self.typed(&mut p, fp); I::Select(ct, t, c, a, b) }
            "freeze" => { let (t, a) = self.typed(&mut p, fp); I::Freeze(t, a) }
            "load" => { flags(&mut p); let t = self.ty(&mut p); p.need(","); let (_, a) = self.typed(&mut p, fp); I::Load(t, a) }
            "store" => { flags(&mut p); let (t, v) = self.typed(&mut p, fp); p.need(","); let (_, a) = self.typed(&mut p, fp); I::Store(t, v, a) }
            "getelementptr" => {
                flags(&mut p);
                let bt = self.ty(&mut p); p.need(","); let (_, base) = self.typed(&mut p, fp);
                let mut off = 0i64; let mut var = vec![]; let mut cur = bt; let mut i = 0;
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let (t, o) = self.typed(&mut p, fp);
                    let wd = t.bits() as u32;
                    let scale;
                    if i == 0 { scale = cur.size(); }
                    else {
                        match cur.clone() {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = t.size(); cur = *t; }
                            Ty::Struct(f, pk) => { if let Opd::K(K::Int(v)) = &o { off += Ty::field_off(&f, pk, *v as usize) as i64; cur = f[*v as usize].clone(); i += 1; continue; } panic!("gep struct idx") }
                            _ => panic!("gep {}", l),
                        }
                    }
                    i += 1;
                    match &o { Opd::K(K::Int(v)) => off = off.wrapping_add((crate::term::sx(*v, wd as u16) as i64).wrapping_mul(scale as i64)), Opd::K(K::Zero) => {}, _ => var.push((scale, o, wd)) }
                }
                I::Gep(base, off, var)
            }
            "phi" => {
                flags(&mut p);
                let t = self.ty(&mut p); let mut inc = vec![];
                loop { p.need("["); let o = self.opd(&mut p, fp, &t); p.need(","); p.peek(); p.i += 1; let n = p.ident(); p.need("]"); inc.push((fp.labels[&n], o)); if !p.eat(",") { break; } if p.peek() == b'!' { break; } }
                blk.phis.push(Phi { dst: dst.unwrap(), ty: t, inc }); return;
            }
            "call" | "invoke" => {
                loop {
                    flags(&mut p);
                    let s = p.i; let w = p.word();
                    if ["fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc"].contains(&w.as_str()) { continue; }
                    p.i = s; break;
                }
                skip_attrs(&mut p);
                let ret = self.ty(&mut p);
                // optional function type
                if p.peek() == b'(' { p.skip_paren(); }
                let mut asm = None; let mut name = None; let mut ptr = None;
                if p.eat("asm") {
                    while p.peek() != b'"' { p.word(); }
                    let a = p.ident(); p.need(","); p.peek(); let _c = p.ident(); asm = Some(a);
                } else if p.peek() == b'@' { p.i += 1; name = Some(p.ident()); }
                else { ptr = Some(self.opd(&mut p, fp, &Ty::Ptr)); }
                p.need("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = self.ty(&mut p);
                        if t == Ty::Void { // metadata argument
                            while p.s[p.i] != b',' && p.s[p.i] != b')' { if p.s[p.i] == b'(' { p.skip_paren(); } else { p.i += 1; } }
                            args.push((Ty::Void, Opd::K(K::Undef)));
                        } else { skip_attrs(&mut p); let o = self.opd(&mut p, fp, &t); args.push((t, o)); }
                        if p.eat(")") { break; } p.need(",");
                    }
                }
                let mut normal = None;
                if op == "invoke" { let at = l.find(" to label ").unwrap(); let mut q = P::new(l); q.i = at + 4; normal = Some(self.label(&mut q, fp)); }
                if let Some(n) = &name { if let Some(pos) = self.gl_pos.get(n) { // call through alias
                    let _ = pos; let a = self.global_addr(&n.clone()); ptr = Some(Opd::K(K::Addr(a))); name = None; } }
                I::Call { name, ptr, args, ret, asm, normal }
            }
            "extractvalue" => { let (t, a) = self.typed(&mut p, fp); let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.num() as u32); } I::Extractvalue(t, a, ix) }
            "insertvalue" => { let (t, a) = self.typed(&mut p, fp); p.need(","); let (t2, v) = self.typed(&mut p, fp); let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.num() as u32); } I::Insertvalue(t, a, t2, v, ix) }
            "extractelement" => { let (t, a) = self.typed(&mut p, fp); p.need(","); let (_, i) = self.typed(&mut p, fp); I::Extractelement(t, a, i) }
            "insertelement" => { let (t, a) = self.typed(&mut p, fp); p.need(","); let (_, v) = self.typed(&mut p, fp); p.need(","); let (_, i) = self.typed(&mut p, fp); I::Insertelement(t, a, v, i) }
            "shufflevector" => {
                let (t, a) = self.typed(&mut p, fp); p.need(","); let (_, b) = self.typed(&mut p, fp); p.need(",");
                let mt = self.ty(&mut p); let k = self.konst(&mut p, &mt);
                let n = match mt { Ty::Vec(n, _) => n, _ => panic!() };
                let m = match k { K::Agg(v) => v.iter().map(|x| if let K::Int(i) = x { Some(*i as u32) } else { None }).collect(), K::Zero => vec![Some(0); n as usize], _ => vec![None; n as usize] };
                I::Shuffle(t, a, b, m)
            }
            "alloca" => {
                let t = self.ty(&mut p); let mut n = 1u64; let mut al = 16;
                while p.eat(",") { if p.eat("align") { al = p.num().max(16); } else if p.peek() == b'!' { break; } else { let (_, o) = self.typed(&mut p, fp); if let Opd::K(K::Int(v)) = o { n = v as u64; } else { panic!("dyn alloca") } } }
                I::Alloca(t.size() * n, al)
            }
            "cmpxchg" => { flags(&mut p); let (_, a) = self.typed(&mut p, fp); p.need(","); let (t, c) = self.typed(&mut p, fp); p.need(","); let (_, n) = self.typed(&mut p, fp); I::Cmpxchg(t, a, c, n) }
            "atomicrmw" => { flags(&mut p); let o = p.word(); let (_, a) = self.typed(&mut p, fp); p.need(","); let (t, v) = self.typed(&mut p, fp); I::Rmw(o, t, a, v) }
            "fence" => I::Fence,
            "br" => {
                if p.eat("label") { p.peek(); p.i += 1; let n = p.ident(); I::Br(fp.labels[&n]) }
                else { let (_, c) = self.typed(&mut p, fp); p.need(","); let a = self.label(&mut p, fp); p.need(","); let b = self.label(&mut p, fp); I::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, c) = self.typed(&mut p, fp); p.need(","); let d = self.label(&mut p, fp); p.need("["); let mut cs = vec![];
                while !p.eat("]") { let (_, k) = self.typed(&mut p, fp); p.need(","); let lb = self.label(&mut p, fp); let v = match k { Opd::K(K::Int(v)) => v, _ => 0 }; cs.push((v, lb)); }
                I::Switch(t, c, d, cs)
            }
            "ret" => { if p.eat("void") { I::Ret(None) } else { let x = self.typed(&mut p, fp); I::Ret(Some(x)) } }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" | "cleanupret" => I::Unreachable,
            // instructions outside the supported subset: only an error if actually executed
            _ => I::Call { name: Some(format!("unsupported.instruction.{}", op)), ptr: None, args: vec![], ret: Ty::Void, asm: None, normal: None },
        };
        blk.insts.push((dst, ins));
    }
}

pub fn is_intercepted(n: &str) -> bool {
    n.starts_with("llvm.") || ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "__cxa_thread_atexit_impl"].contains(&n)
}

fn sym_name(l: &str) -> String { let at = l.find('@').unwrap(); let mut p = P::new(l); p.i = at + 1; p.ident() }
fn is_label(l: &str) -> Option<String> {
    if l.starts_with(' ') || l.starts_with('\t') { return None; }
    let b = l.as_bytes();
    if b.is_empty() { return None; }
    if b[0] == b'"' { let e = l[1..].find('"')? + 1; if b.get(e + 1) == Some(&b':') { return Some(l[1..e].to_string()); } return None; }
    let e = l.find(':')?;
    if l[..e].bytes().all(|c| is_w(c) || c == b'$' || c == b'-') { Some(l[..e].to_string()) } else { None }
}
fn skip_attrs(p: &mut P) {
    loop {
        let s = p.i;
        let c = p.peek();
        if c == b'"' { p.ident(); if p.eat("=") { p.peek(); p.ident(); } continue; }
        if !c.is_ascii_alphabetic() { return; }
        let w = p.word();
        match w.as_str() {
            "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "signext" | "zeroext" | "inreg" | "returned" | "nofree" | "immarg" | "dead_on_unwind" | "writable" | "nest" | "swiftself" | "noext" | "allocptr" | "allocalign" | "dead_on_return" => { if w == "dead_on_return" && p.peek() == b'(' { p.skip_paren(); } }
            "align" => { if p.peek() == b'(' { p.skip_paren(); } else { p.word(); } }
            "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "nofpclass" | "sret" | "byval" | "initializes" | "elementtype" | "alignstack" | "preallocated" | "inalloca" | "byref" => { if p.peek() == b'(' { p.skip_paren(); } }
            _ => { p.i = s; return; }
        }
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last().map(|x| &x.1) {
        Some(I::Br(a)) => vec![*a],
        Some(I::CondBr(_, a, c)) => vec![*a, *c],
        Some(I::Switch(_, _, d, cs)) => { let mut v = vec![*d]; v.extend(cs.iter().map(|x| x.1)); v.sort_unstable(); v.dedup(); v }
        Some(I::Call { normal: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}
/// immediate post-dominators, ignoring blocks that cannot reach a return
fn ipdoms(f: &Func) -> Vec<Option<u32>> {
    let n = f.blocks.len();
    let exit = n;
    let mut sc: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut pr: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        let mut s: Vec<usize> = succs(&f.blocks[i]).into_iter().map(|x| x as usize).collect();
        if let Some((_, I::Ret(_))) = f.blocks[i].insts.last() { s.push(exit); }
        for x in &s { pr[*x].push(i); }
        sc[i] = s;
    }
    // reverse postorder on the reverse graph from exit
    let mut order = vec![]; let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)]; seen[exit] = true;
    while let Some((b, i)) = st.pop() {
        if i < pr[b].len() { st.push((b, i + 1)); let q = pr[b][i]; if !seen[q] { seen[q] = true; st.push((q, 0)); } } else { order.push(b); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() { num[*b] = i; }
    let mut idom = vec![usize::MAX; n + 1]; idom[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for b in order.iter().rev() {
            if *b == exit { continue; }
            let mut nw = usize::MAX;
            for s in &sc[*b] {
                if !seen[*s] || idom[*s] == usize::MAX { continue; }
                if nw == usize::MAX { nw = *s; } else {
                    let (mut x, mut y) = (nw, *s);
                    while x != y { while num[x] < num[y] { x = idom[x]; } while num[y] < num[x] { y = idom[y]; } }
                    nw = x;
                }
            }
            if nw != usize::MAX && idom[*b] != nw { idom[*b] = nw; ch = true; }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == exit { None } else { Some(idom[i] as u32) }).collect()
}
