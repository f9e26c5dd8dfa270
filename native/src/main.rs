//! Runs the real code and the reference natively: replay of solver models,
//! validation of the translator, and differential search for inputs the
//! symbolic side could not decide.
#[path = "../../harness/src/spec.rs"] #[allow(dead_code)] mod spec;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
struct Job { f: String, k: u64, p: Vec<u8>, s: Vec<u8>, t: u64, r: u64, c: u64 }
fn hex(b: &[u8]) -> String { if b.is_empty() { return "-".into(); } b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
impl Job {
    fn parse(l: &str) -> Job {
        let a: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| a[i].parse::<u64>().unwrap();
        if a.len() > 2 { Job { f: a[0].into(), k: n(1), p: unhex(a[2]), s: unhex(a[3]), t: n(4), r: n(5), c: n(6) } }
        else { Job { f: a[0].into(), k: 0, p: unhex(a[1]), s: vec![], t: 0, r: 0, c: 0 } }
    }
    fn show(&self) -> String { if self.f.starts_with("lyra2") { format!("{} {} {} {} {} {} {}", self.f, self.k, hex(&self.p), hex(&self.s), self.t, self.r, self.c) } else { format!("{} {}", self.f, hex(&self.p)) } }
    fn imp(&self) -> Option<Vec<u8>> {
        let j = self.clone();
        std::panic::catch_unwind(move || match j.f.as_str() {
            "lyra2" | "lyra2m" => lyra2::lyra2::lyra2(j.k, j.p, j.s, j.t, j.r, j.c),
            "sum" | "sumdef" => lyra2::lyra2::sum(j.p),
            "re" => lyra2::lyra2re::sum(j.p),
            "rev2" => lyra2::lyra2rev2::sum(j.p),
            "rev3" => lyra2::lyra2rev3::sum(j.p),
            "z" => lyra2::lyra2z::sum(j.p),
            #[cfg(lyra2_verif)] "cube" => lyra2::verif::cubehash_sum(j.p),
            #[cfg(lyra2_verif)] "bmw" => lyra2::verif::bmw_sum(j.p),
            #[cfg(lyra2_verif)] "modsum" => lyra2::verif::lyra2mod_sum(j.p),
            _ => { eprintln!("unknown function {}", j.f); std::process::exit(3) }
        }).ok()
    }
    fn spec(&self) -> Option<Vec<u8>> {
        let lyra = |k: u64, p: &[u8], s: &[u8], t, r, c, m, v3| { let mut o = vec![0u8; if k < 1 << 24 { k as usize } else { 0 }]; if spec::lyra2(k, p, s, t, r, c, m, v3, &mut o) == spec::MUST_PANIC { None } else { Some(o) } };
        let a = || { let mut a = [0u8; 32]; a.copy_from_slice(&self.p); a };
        match self.f.as_str() {
            "lyra2" => lyra(self.k, &self.p, &self.s, self.t, self.r, self.c, spec::Rows::Mask, false),
            "lyra2m" => lyra(self.k, &self.p, &self.s, self.t, self.r, self.c, spec::Rows::Modulo, false),
            "sum" => lyra(32, &self.p, &self.p, 1, 4, 4, spec::Rows::Mask, false),
            "sumdef" => Job { f: "lyra2".into(), k: 32, p: self.p.clone(), s: self.p.clone(), t: 1, r: 4, c: 4 }.imp(),
            "modsum" => lyra(32, &self.p, &self.p, 1, 4, 4, spec::Rows::Mask, true),
            "re" => Some(spec::re(&self.p).to_vec()),
            "rev2" => Some(spec::rev2(&self.p).to_vec()),
            "rev3" => Some(spec::rev3(&self.p).to_vec()),
            "z" => Some(spec::z(&self.p).to_vec()),
            "cube" => Some(spec::cube32(&a()).to_vec()),
            "bmw" => Some(spec::bmw32(&a()).to_vec()),
            _ => std::process::exit(3),
        }
    }
}
/// agreement with the reference; for a row count that is not a power of two either reduction is accepted here
/// (which one is right is the business of a property of its own)
fn agrees(j: &Job, i: &Option<Vec<u8>>, s: &Option<Vec<u8>>) -> bool {
    if i == s { return true; }
    if j.f == "lyra2" && j.r > 2 && !j.r.is_power_of_two() { let mut m = j.clone(); m.f = "lyra2m".into(); return *i == m.spec(); }
    false
}
static SLOTS: Mutex<Vec<(usize, std::time::Instant, String)>> = Mutex::new(vec![]);
thread_local! { static ME: usize = { static N: AtomicU64 = AtomicU64::new(0); N.fetch_add(1, Relaxed) as usize } }
/// run the code under test with the watchdog looking
fn watched(j: &Job) -> Option<Vec<u8>> {
    let me = ME.with(|m| *m);
    { let mut v = SLOTS.lock().unwrap(); match v.iter_mut().find(|x| x.0 == me) { Some(x) => { x.1 = std::time::Instant::now(); x.2 = j.show(); } None => v.push((me, std::time::Instant::now(), j.show())) } }
    let r = j.imp();
    { let mut v = SLOTS.lock().unwrap(); if let Some(x) = v.iter_mut().find(|x| x.0 == me) { x.2.clear(); } }
    r
}
fn watchdog(limit: f64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let v = SLOTS.lock().unwrap();
        for x in v.iter() { if !x.2.is_empty() && x.1.elapsed().as_secs_f64() > limit { println!("HANG {}", x.2); println!("DONE 0"); std::process::exit(0); } }
    });
}
/// deterministic sweeps around the boundaries of every parameter
fn grid(f: &str, g: &mut Rng, big: bool) -> Vec<Job> {
    let mut v = vec![];
    let l = |k: u64, p: Vec<u8>, s: Vec<u8>, t: u64, r: u64, c: u64| Job { f: f.into(), k, p, s, t, r, c };
    match f {
        "lyra2" | "lyra2m" => {
            for k in 0..1200 { v.push(l(k, g.buf(8), g.buf(16), 1, 4, 1)); }
            for n in 0..900 { v.push(l(32, g.buf(n), g.buf(8), 1, 4, 4)); v.push(l(32, g.buf(8), g.buf(n), 1, 4, 4)); v.push(l(32, g.buf(n), g.buf(n), 1, 8, 3)); }
            for a in 0..70 { for b in 0..70 { v.push(l(32, g.buf(2 * a), g.buf(2 * b), 1, 4, 1)); } }
            for a in 0..20 { for b in 0..20 { v.push(l(16, g.buf(8 * a), g.buf(8 * b), 1, 3, 1)); v.push(l(16, g.buf(7 * a + 1), g.buf(9 * b), 1, 3, 1)); } }
            for t in 0..300 { for r in [3, 4, 8] { v.push(l(32, g.buf(8), g.buf(8), t, r, 1 + t % 3)); } }
            for r in 0..300 { for (t, c) in [(1, 1), (2, 2)] { v.push(l(32, g.buf(8), g.buf(8), t, r, c)); } }
            for c in 0..300 { for (t, r) in [(1, 3), (2, 4)] { v.push(l(32, g.buf(8), g.buf(8), t, r, c)); } }
            for t in 0..7 { for r in 0..20 { for c in 0..9 { v.push(l(32, g.buf(16), g.buf(8), t, r, c)); } } }
            for r in [1u64 << 5, 1 << 6, 1 << 7, 1 << 9, 1 << 10] { for t in 1..4 { v.push(l(64, g.buf(32), g.buf(32), t, r, 2)); } }
            if big {
                for x in [256u64, 257, 511, 512, 1000, 1024, 4096, 65535, 65536, 65537, 65568] {
                    v.push(l(x, g.buf(8), g.buf(8), 1, 4, 1)); v.push(l(32, g.buf(8), g.buf(8), x, 3, 1)); v.push(l(32, g.buf(8), g.buf(8), 1, x, 1)); v.push(l(32, g.buf(8), g.buf(8), 1, 3, x));
                    if x < 5000 { v.push(l(32, g.buf(x), g.buf(8), 1, 16, 16)); v.push(l(32, g.buf(8), g.buf(x), 1, 16, 16)); }
                }
                for x in [65600u64, 65700, 70000, 98304, 100000, 131072, 131200, 200000, 262200, 524300, 1 << 20] { v.push(l(x, g.buf(8), g.buf(8), 1, 4, 1)); }
                for x in [65600u64, 70000, 131100, 262200] { v.push(l(32, g.buf(8), g.buf(8), x, 3, 1)); v.push(l(32, g.buf(8), g.buf(8), 1, x, 1)); v.push(l(32, g.buf(8), g.buf(8), 1, 3, x)); }
                for x in [65537u64, 65544] { v.push(l(32, g.buf(x), g.buf(8), 1, 4, 256)); v.push(l(32, g.buf(8), g.buf(x), 1, 4, 256)); }
            }
        }
        "cube" | "bmw" | "modsum" => {
            for _ in 0..2000 { v.push(l(0, g.buf(32), vec![], 0, 0, 0)); }
            for i in 0..256usize { let mut b = vec![0; 32]; b[i / 8] = 1 << (i % 8); v.push(l(0, b, vec![], 0, 0, 0)); }
            for x in 0..256usize { v.push(l(0, vec![x as u8; 32], vec![], 0, 0, 0)); }
        }
        _ => {
            let m = if f.starts_with("sum") { 900 } else { 1100 };
            for n in 0..m { for c in 0..3u8 { let b = match c { 0 => vec![0; n], 1 => vec![0xff; n], _ => g.buf(n as u64) }; v.push(l(0, b, vec![], 0, 0, 0)); } }
            for x in 0..=255u8 { v.push(l(0, vec![x; 80], vec![], 0, 0, 0)); }
            for i in 0..640usize { let mut b = vec![0; 80]; b[i / 8] = 1 << (i % 8); v.push(l(0, b, vec![], 0, 0, 0)); }
            if big && m > 1000 { for n in [4096u64, 65535, 65536, 65537, 1 << 20] { v.push(l(0, g.buf(n), vec![], 0, 0, 0)); } }
        }
    }
    v
}
/// short histories: related calls one after the other, each against the reference
fn history(g: &mut Rng, fs: &[String], shapes: &[Job], last: &mut Vec<Job>) -> Job {
    if !shapes.is_empty() && g.b(4) == 0 { let mut j = shapes[g.b(shapes.len() as u64) as usize].clone(); if g.b(2) == 0 { j.p = g.buf(j.p.len() as u64); j.s = g.buf(j.s.len() as u64); } last.push(j.clone()); if last.len() > 12 { last.remove(0); } return j; }
    let fresh = |g: &mut Rng| { let f = fs[g.b(fs.len() as u64) as usize].clone(); let mut j = gen(&f, g, false); if f == "lyra2" { j.t = 1 + g.b(2); j.r = [4, 3, 8][g.b(3) as usize]; j.c = 1 + g.b(4); j.p.truncate(40); j.s.truncate(40); j.k %= 200; if g.b(12) == 0 { match g.b(3) { 0 => j.t = 0, 1 => j.r = g.b(3), _ => { let n = 100 + g.b(400); j.p = g.buf(n); j.r = 3; j.c = 1; } } } } j };
    let j = if last.is_empty() || g.b(4) == 0 { fresh(g) } else {
        let mut j = last[g.b(last.len() as u64) as usize].clone();
        match g.b(9) {
            0 => {}
            1 => { if !j.p.is_empty() { let i = g.b(j.p.len() as u64) as usize; j.p[i] ^= 1 << g.b(8); } }
            2 => { if !j.s.is_empty() { let i = g.b(j.s.len() as u64) as usize; j.s[i] ^= 1 << g.b(8); } }
            3 => if j.f == "lyra2" { std::mem::swap(&mut j.p, &mut j.s); },
            4 => if j.f == "lyra2" { j.k = g.b(120); },
            5 => if j.f == "lyra2" { match g.b(3) { 0 => j.t = 1 + g.b(3), 1 => j.r = [4, 8, 16][g.b(3) as usize], _ => j.c = 1 + g.b(5) } },
            6 => { let n = j.p.len() as u64; j.p = g.buf(n); }
            7 => { let q = j.p.clone(); if j.f != "lyra2" && !matches!(j.f.as_str(), "cube" | "bmw" | "modsum") { let f = fs[g.b(fs.len() as u64) as usize].clone(); if f != "lyra2" && (q.len() == 32 || !matches!(f.as_str(), "cube" | "bmw" | "modsum")) { j.f = f; } } }
            _ => j = fresh(g),
        }
        if matches!(j.f.as_str(), "cube" | "bmw" | "modsum") && j.p.len() != 32 { j = fresh(g); }
        j
    };
    last.push(j.clone()); if last.len() > 12 { last.remove(0); }
    j
}
fn show(r: &Option<Vec<u8>>) -> String { match r { None => "PANIC".into(), Some(v) => hex(v) } }

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn b(&mut self, n: u64) -> u64 { self.n() % n }
    fn buf(&mut self, n: u64) -> Vec<u8> { let m = self.b(8); (0..n).map(|_| match m { 0 => 0, 1 => 0xff, 2 => self.b(2) as u8, _ => self.n() as u8 }).collect() }
    fn len(&mut self, max: u64) -> u64 { match self.b(4) { 0 => self.b(10), 1 => 8 * self.b(1 + max / 8), 2 => { let x = 64 * self.b(1 + max / 64) + 60 + self.b(9); x.min(max) } _ => self.b(max + 1) } }
}
fn gen(f: &str, g: &mut Rng, whole: bool) -> Job {
    let mut j = Job { f: f.into(), k: 0, p: vec![], s: vec![], t: 0, r: 0, c: 0 };
    match f {
        "lyra2" | "lyra2m" => {
            j.k = match g.b(6) { 0 => g.b(8), 1 => 90 + g.b(12), 2 => 96 * g.b(6), 3 => g.b(700), _ => 8 * g.b(30) };
            j.t = match g.b(8) { 0 => g.b(40), 1 => 256 + g.b(3), _ => g.b(5) };
            j.r = match g.b(6) { 0 => g.b(40), 1 => 1 << g.b(8), 2 => 255 + g.b(4), _ => [3, 4, 8, 16, 2, 5][g.b(6) as usize] };
            if f == "lyra2m" && j.r.is_power_of_two() && g.b(4) != 0 { j.r += 1; }
            j.c = match g.b(6) { 0 => g.b(40), 1 => 255 + g.b(4), 2 => 1, _ => 1 + g.b(10) };
            while j.t * j.r * j.c > 40000 { j.t = j.t / 2; if j.r > 64 && j.c > 64 { j.c /= 8 } if j.t == 0 { j.t = 1; break; } }
            let (a, b) = (g.len(700), g.len(700)); j.p = g.buf(a); j.s = g.buf(b);
            if whole { let n = j.p.len() / 8 * 8; j.p.truncate(n); let n = j.s.len() / 8 * 8; j.s.truncate(n); }
        }
        "sum" | "sumdef" => { let n = g.len(800); j.p = g.buf(n); }
        "cube" | "bmw" | "modsum" => j.p = g.buf(32),
        _ => { let n = if g.b(3) == 0 { 80 } else { g.len(400) }; j.p = g.buf(n); }
    }
    j
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // one result line per input line: impl and reference
        "call" => for l in std::io::stdin().lock().lines() {
            let l = l.unwrap(); if l.trim().is_empty() { continue; }
            let j = Job::parse(&l); let (s, i) = (j.spec(), j.imp());
            println!("{} {}", show(&i), show(&s)); std::io::stdout().flush().unwrap();
        },
        // impl only, in one process, in order (histories)
        "hist" => for l in std::io::stdin().lock().lines() {
            let l = l.unwrap(); if l.trim().is_empty() { continue; }
            println!("{}", show(&Job::parse(&l).imp())); std::io::stdout().flush().unwrap();
        },
        // repeat a call n times in one process against the reference
        "loop" => {
            watchdog(10.0);
            let n: u64 = a[2].parse().unwrap(); let j = Job::parse(&a[3..].join(" ")); let s = j.spec();
            for i in 0..n { let r = watched(&j); if !agrees(&j, &r, &s) { println!("DIFF {} {} {}", i, show(&r), show(&s)); return; } }
            println!("OK {}", n);
        }
        // seconds taken by the code and by the reference, best of n: time <n>, the call on stdin
        "time" => {
            watchdog(60.0);
            let n: u64 = a[2].parse().unwrap(); let mut l = String::new(); std::io::stdin().lock().read_line(&mut l).unwrap(); let j = Job::parse(&l); let (mut x, mut y) = (f64::MAX, f64::MAX);
            for _ in 0..n { let t = std::time::Instant::now(); let s = j.spec(); y = y.min(t.elapsed().as_secs_f64()); let t = std::time::Instant::now(); let r = watched(&j); x = x.min(t.elapsed().as_secs_f64()); std::hint::black_box((s, r)); }
            println!("TIME {} {}", x, y);
        }
        // differential search: rand <seed> <seconds> <threads> fn...
        "rand" => {
            watchdog(10.0);
            let (seed, secs, th): (u64, f64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let fs: Vec<String> = a[5..].to_vec(); let whole = std::env::var("WHOLE").is_ok();
            let stop = AtomicBool::new(false); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            std::thread::scope(|sc| for i in 0..th { let (stop, cnt, found, fs) = (&stop, &cnt, &found, &fs); sc.spawn(move || {
                let mut g = Rng(seed.wrapping_mul(1000003).wrapping_add(i)); let mut n = 0usize;
                while !stop.load(Relaxed) && t0.elapsed().as_secs_f64() < secs {
                    let j = gen(&fs[n % fs.len()], &mut g, whole); n += 1;
                    let (s, r) = (j.spec(), watched(&j)); cnt.fetch_add(1, Relaxed);
                    if !agrees(&j, &r, &s) { found.lock().unwrap().push(j); stop.store(true, Relaxed); }
                }
            }); });
            let f = found.into_inner().unwrap();
            if let Some(j) = f.first() { println!("DIFF {}", j.show()); } println!("DONE {}", cnt.load(Relaxed));
        }
        // the sweep: grid <seed> <threads> <big> <max seconds> fn...
        "grid" => {
            watchdog(10.0);
            let (seed, th, big, secs): (u64, usize, u64, f64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let mut g = Rng(seed); let mut js = vec![]; for f in &a[6..] { js.extend(grid(f, &mut g, big != 0)); }
            let next = AtomicU64::new(0); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            std::thread::scope(|sc| for _ in 0..th { let (next, cnt, found, js) = (&next, &cnt, &found, &js); sc.spawn(move || loop {
                let i = next.fetch_add(1, Relaxed) as usize; if i >= js.len() || t0.elapsed().as_secs_f64() > secs { break; }
                let j = &js[js.len() - 1 - i]; let ta = std::time::Instant::now(); let s = j.spec(); let tb = std::time::Instant::now(); let r = watched(j); let (a, b) = ((tb - ta).as_secs_f64(), tb.elapsed().as_secs_f64()); cnt.fetch_add(1, Relaxed);
                if b > 30.0 * a + 0.03 { println!("SLOW {}", j.show()); }
                if !agrees(j, &r, &s) { let mut f = found.lock().unwrap(); if f.len() < 40 { f.push(j.show()); } }
            }); });
            for f in found.into_inner().unwrap() { println!("DIFF {}", f); } println!("DONE {}", cnt.load(Relaxed));
        }
        // outputs of a small sweep, to be compared between builds: dump <seed> fn...
        "dump" => {
            watchdog(10.0);
            let mut g = Rng(a[2].parse().unwrap()); let step: usize = a[3].parse().unwrap();
            for f in &a[4..] { for (i, j) in grid(f, &mut g, false).into_iter().enumerate() { if i % step == 0 { let r = watched(&j); println!("OUT {} = {}", j.show(), show(&r)); } } }
            println!("DONE 1");
        }
        // histories: histfuzz <seed> <seconds> <threads> fn...
        "histfuzz" => {
            watchdog(10.0);
            let (seed, secs, th): (u64, f64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()); let fs: Vec<String> = a[5..].to_vec();
            // shapes of calls the solver made up, on stdin
            let shapes: Vec<Job> = if std::env::var("SHAPES").is_ok() { std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| Job::parse(&l)).collect() } else { vec![] };
            let stop = AtomicBool::new(false); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            std::thread::scope(|sc| for i in 0..th { let (stop, cnt, found, fs, shapes) = (&stop, &cnt, &found, &fs, &shapes); sc.spawn(move || {
                let mut g = Rng(seed.wrapping_mul(31337).wrapping_add(i)); let mut last = vec![]; let mut hist: Vec<String> = vec![];
                while !stop.load(Relaxed) && t0.elapsed().as_secs_f64() < secs {
                    let j = history(&mut g, fs, shapes, &mut last); hist.push(j.show()); if hist.len() > 64 { hist.remove(0); }
                    let (s, r) = (j.spec(), watched(&j)); cnt.fetch_add(1, Relaxed);
                    if !agrees(&j, &r, &s) { found.lock().unwrap().push(hist.clone()); stop.store(true, Relaxed); }
                }
            }); });
            if let Some(h) = found.into_inner().unwrap().into_iter().next() { for x in h { println!("CALL {}", x); } println!("DIFF {}", cnt.load(Relaxed)); } println!("DONE {}", cnt.load(Relaxed));
        }
        // the given calls (stdin) at the same time on all threads: race <seconds> <threads>
        "race" => {
            watchdog(10.0);
            let (secs, th): (f64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let js: Vec<(Job, Option<Vec<u8>>)> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| { let j = Job::parse(&l); let s = j.spec(); (j, s) }).collect();
            let stop = AtomicBool::new(false); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            // first alone: what differs already is no race
            let js: Vec<_> = js.into_iter().filter(|(j, s)| { let r = watched(j); agrees(j, &r, s) }).collect();
            std::thread::scope(|sc| for i in 0..th { let (stop, cnt, found, js) = (&stop, &cnt, &found, &js); sc.spawn(move || {
                let mut n = i as usize;
                while !js.is_empty() && !stop.load(Relaxed) && t0.elapsed().as_secs_f64() < secs {
                    let (j, s) = &js[n % js.len()]; n += 1; let r = j.imp(); cnt.fetch_add(1, Relaxed);
                    if !agrees(j, &r, s) { found.lock().unwrap().push(j.show()); stop.store(true, Relaxed); }
                }
            }); });
            for f in found.into_inner().unwrap() { println!("DIFF {}", f); } println!("DONE {}", cnt.load(Relaxed));
        }
        // every single-bit change must change the result: bits <seed> <fn> (equal results are printed)
        "bits" => {
            watchdog(10.0);
            let mut g = Rng(a[2].parse().unwrap()); let mut n = 0u64; let mut shown = 0;
            for f in &a[3..] {
                let mut js = vec![];
                if f == "lyra2" { for n in (0..200).step_by(3) { let m = (n * 7) % 96; js.push(Job { f: f.clone(), k: 32, p: g.buf(n), s: g.buf(m), t: 1, r: 4, c: 1 }); js.push(Job { f: f.clone(), k: 32, p: g.buf(m), s: g.buf(n), t: 1, r: 4, c: 2 }); } for n in [300u64, 500] { js.push(Job { f: f.clone(), k: 40, p: g.buf(n), s: g.buf(n), t: 1, r: 4, c: 8 }); } }
                else if matches!(f.as_str(), "cube" | "bmw" | "modsum") { js.push(Job { f: f.clone(), k: 0, p: g.buf(32), s: vec![], t: 0, r: 0, c: 0 }); }
                else { for n in [1u64, 7, 8, 16, 31, 32, 55, 56, 63, 64, 65, 76, 80, 96, 111, 119, 120, 128, 129, 180, 256, 300] { js.push(Job { f: f.clone(), k: 0, p: g.buf(n), s: vec![], t: 0, r: 0, c: 0 }); } }
                for j in js {
                    let r0 = watched(&j); if r0.is_none() { continue; }
                    for which in 0..2 { let len = if which == 0 { j.p.len() } else { j.s.len() }; for bit in 0..8 * len {
                        // the known finding: trailing bytes of an incomplete word
                        let lim = if f == "lyra2" || f == "sum" { len / 8 * 64 } else { 8 * len }; if bit >= lim { continue; }
                        let mut q = j.clone(); if which == 0 { q.p[bit / 8] ^= 1 << (bit % 8) } else { q.s[bit / 8] ^= 1 << (bit % 8) }
                        n += 1; if watched(&q) == r0 && shown < 20 { shown += 1; println!("SAME {} | {}", j.show(), q.show()); }
                    } }
                }
            }
            println!("DONE {}", n);
        }
        // every single-bit change of the given calls (stdin): flip <seed> <seconds for random contents of the same shape> <threads>
        "flip" => {
            watchdog(10.0);
            let (seed, secs, th): (u64, f64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let js: Vec<Job> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| Job::parse(&l)).collect();
            let next = AtomicU64::new(0); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            std::thread::scope(|sc| for i in 0..th { let (next, cnt, found, js) = (&next, &cnt, &found, &js); sc.spawn(move || {
                let mut g = Rng(seed.wrapping_mul(4099).wrapping_add(i));
                loop {
                    let i = next.fetch_add(1, Relaxed) as usize;
                    if js.is_empty() || t0.elapsed().as_secs_f64() > secs + 25.0 || (i >= js.len() && t0.elapsed().as_secs_f64() > secs) { break; }
                    let mut j = js[i % js.len()].clone(); if i >= js.len() { j.p = g.buf(j.p.len() as u64); j.s = g.buf(j.s.len() as u64); }
                    let r0 = watched(&j); if r0.is_none() || r0 == Some(vec![]) { continue; }
                    let bits: Vec<(usize, usize)> = (0..2).flat_map(|w| { let len = if w == 0 { j.p.len() } else { j.s.len() }; let lim = if j.f == "lyra2" || j.f == "sum" { len / 8 * 64 } else { 8 * len }; (0..lim).map(move |b| (w, b)) }).collect();
                    // long inputs: every byte, one bit each
                    let step = if bits.len() > 16384 { 7 } else { 1 };
                    for (w, bit) in bits.into_iter().step_by(step) {
                        let mut q = j.clone(); if w == 0 { q.p[bit / 8] ^= 1 << (bit % 8) } else { q.s[bit / 8] ^= 1 << (bit % 8) }
                        if t0.elapsed().as_secs_f64() > secs + 25.0 { break; }
                        cnt.fetch_add(1, Relaxed);
                        if watched(&q) == r0 { let mut f = found.lock().unwrap(); if f.len() < 20 { f.push(format!("{} | {}", j.show(), q.show())); } break; }
                    }
                }
            }); });
            for f in found.into_inner().unwrap() { println!("SAME {}", f); } println!("DONE {}", cnt.load(Relaxed));
        }
        // brute force over the content of one configuration: brute <seed> <seconds> <threads> <job>
        "brute" => {
            watchdog(10.0);
            let (seed, secs, th): (u64, f64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let base = Job::parse(&a[5..].join(" "));
            let stop = AtomicBool::new(false); let cnt = AtomicU64::new(0); let found = Mutex::new(vec![]); let t0 = std::time::Instant::now();
            std::thread::scope(|sc| for i in 0..th { let (stop, cnt, found, base) = (&stop, &cnt, &found, &base); sc.spawn(move || {
                let mut g = Rng(seed.wrapping_mul(7919).wrapping_add(i)); let mut j = base.clone(); let mut n = 0u64;
                while n & 63 != 0 || (!stop.load(Relaxed) && t0.elapsed().as_secs_f64() < secs) {
                    n += 1; for x in j.p.iter_mut().take(8) { *x = g.n() as u8; } for x in j.s.iter_mut().take(8) { *x = g.n() as u8; }
                    let s = j.spec(); let r = watched(&j); if !agrees(&j, &r, &s) { found.lock().unwrap().push(j.clone()); stop.store(true, Relaxed); break; }
                }
                cnt.fetch_add(n, Relaxed);
            }); });
            let f = found.into_inner().unwrap();
            if let Some(j) = f.first() { println!("DIFF {}", j.show()); } println!("DONE {}", cnt.load(Relaxed));
        }
        _ => std::process::exit(2),
    }
}
