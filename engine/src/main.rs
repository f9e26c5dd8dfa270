mod term; mod ll; mod smt; mod cert; mod exec; mod jobs;
use exec::*;
use std::io::{BufRead, Write};
/// symll run <module.ll> < jobs > results
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(move || {
        let m = ll::Module::load(&a[2]);
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut e = Eng::new(m, smt::Smt::new(&["z3-new", "-in"]));
        e.rng ^= seed.wrapping_mul(0x1234_5678_9ABC_DEF1) << 1;
        if let Ok(s) = std::env::var("STEP_LIMIT") { e.step_limit = s.parse().unwrap(); }
        println!("READY"); std::io::stdout().flush().unwrap();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            if l.trim().is_empty() { continue; }
            println!("{}", jobs::run_line(&mut e, &l));
            std::io::stdout().flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}
