//! Reference semantics, written from the published descriptions of the
//! algorithms (Lyra2 v3 spec, Lyra2REv3's index chaining, CubeHash16/32-256,
//! Blue Midnight Wish-256) and not from the code under test.  Compact loops,
//! no unrolling, no shared code with /repo.

/// Returned instead of a length when the call must panic.
pub const MUST_PANIC: usize = usize::MAX;

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

#[inline(never)]
fn round(v: &mut [u64; 16]) {
    for i in 0..8 {
        let (a, b, c, d) = if i < 4 { (i, i + 4, i + 8, i + 12) } else { let j = i - 4; (j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4) };
        v[a] = v[a].wrapping_add(v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
}
fn rounds(v: &mut [u64; 16], n: usize) { for _ in 0..n { round(v); } }

#[derive(Clone, Copy, PartialEq)]
pub enum Rows { Mask, Modulo }

fn reduce(x: u64, r: u64, m: Rows) -> usize { (match m { Rows::Mask => x & (r - 1), Rows::Modulo => x % r }) as usize }

/// Lyra2.  `v3` selects the Lyra2REv3 choice of the revisited row.
/// Only whole 64-bit words of pwd and salt are absorbed (see finding F1).
pub fn lyra2(k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64, m: Rows, v3: bool, out: &mut [u8]) -> usize {
    if t < 1 || r < 3 { return MUST_PANIC; }
    let blocks = (pwd.len() + salt.len() + 48) / 64 + 1;
    if blocks as u64 * 8 > r.saturating_mul(c).saturating_mul(12) { return MUST_PANIC; }
    // absorb pad(pwd || salt || basil)
    let mut st = [0u64; 16];
    for i in 0..8 { st[8 + i] = IV[i]; }
    let (pw, sw) = (pwd.len() / 8, salt.len() / 8);
    let word = |i: usize| -> u64 {
        let mut w = 0;
        if i < pw { for b in 0..8 { w |= (pwd[8 * i + b] as u64) << (8 * b); } }
        else if i < pw + sw { for b in 0..8 { w |= (salt[8 * (i - pw) + b] as u64) << (8 * b); } }
        else {
            w = match i - pw - sw { 0 => k, 1 => pwd.len() as u64, 2 => salt.len() as u64, 3 => t, 4 => r, 5 => c, 6 => 0x80, _ => 0 };
        }
        if i == blocks * 8 - 1 { w ^= 1 << 56; }
        w
    };
    for b in 0..blocks {
        for i in 0..8 { st[i] ^= word(8 * b + i); }
        rounds(&mut st, 12);
    }
    // setup
    let (rn, cn) = (r as usize, c as usize);
    let at = |row: usize, col: usize| (row * cn + col) * 12;
    let mut mx = vec![0u64; rn * cn * 12];
    for col in 0..cn {
        let p = at(0, cn - 1 - col);
        for i in 0..12 { mx[p + i] = st[i]; }
        round(&mut st);
    }
    for col in 0..cn {
        let (p, q) = (at(0, col), at(1, cn - 1 - col));
        for i in 0..12 { st[i] ^= mx[p + i]; }
        round(&mut st);
        for i in 0..12 { mx[q + i] = mx[p + i] ^ st[i]; }
    }
    let (mut prev, mut rowa, mut step, mut window, mut gap) = (1usize, 0i64, 1i64, 2i64, 1i64);
    for row in 2..rn {
        for col in 0..cn {
            let (p, a, q) = (at(prev, col), at(rowa as usize, col), at(row, cn - 1 - col));
            for i in 0..12 { st[i] ^= mx[p + i].wrapping_add(mx[a + i]); }
            round(&mut st);
            for i in 0..12 { mx[q + i] = mx[p + i] ^ st[i]; }
            for i in 0..12 { mx[a + i] ^= st[(i + 11) % 12]; }
        }
        prev = row;
        rowa = (rowa + step) & (window - 1);
        if rowa == 0 { step = window + gap; window *= 2; gap = -gap; }
    }
    // wandering
    let (mut row, mut ra, mut index) = (0usize, 0usize, 0u64);
    for tau in 1..=t {
        let step = if tau % 2 == 1 { r / 2 - 1 } else { 0u64.wrapping_sub(1) };
        loop {
            if v3 {
                index = st[(index % 16) as usize];
                ra = reduce(st[(index % 16) as usize], r, m);
            } else {
                ra = reduce(st[0], r, m);
            }
            for col in 0..cn {
                let (p, a, q) = (at(prev, col), at(ra, col), at(row, col));
                for i in 0..12 { st[i] ^= mx[p + i].wrapping_add(mx[a + i]); }
                round(&mut st);
                for i in 0..12 { mx[q + i] ^= st[i]; }
                for i in 0..12 { mx[a + i] ^= st[(i + 11) % 12]; }
            }
            prev = row;
            row = match m {
                Rows::Mask => ((row as u64).wrapping_add(step) & (r - 1)) as usize,
                Rows::Modulo => (if tau % 2 == 1 { (row as u64 + step) % r } else { (row as u64 + r - 1) % r }) as usize,
            };
            if row == 0 { break; }
        }
    }
    // wrap-up
    let p = at(ra, 0);
    for i in 0..12 { st[i] ^= mx[p + i]; }
    rounds(&mut st, 12);
    let mut left = k as usize;
    let mut o = 0;
    loop {
        let n = if left < 96 { left } else { 96 };
        for i in 0..n { if o + i < out.len() { out[o + i] = (st[i / 8] >> (8 * (i % 8))) as u8; } }
        o += n;
        left -= n;
        if left == 0 { break; }
        rounds(&mut st, 12);
    }
    k as usize
}

#[inline(never)]
fn cube_round(x: &mut [u32; 32]) {
    for half in 0..2 {
        for i in 0..16 { x[16 + i] = x[16 + i].wrapping_add(x[i]); }
        let rot = if half == 0 { 7 } else { 11 };
        for i in 0..16 { x[i] = x[i].rotate_left(rot); }
        let sw = if half == 0 { 8 } else { 4 };
        for i in 0..16 { if i & sw == 0 { x.swap(i, i ^ sw); } }
        for i in 0..16 { x[i] ^= x[16 + i]; }
        let sw = if half == 0 { 2 } else { 1 };
        for i in 0..16 { if i & sw == 0 { x.swap(16 + i, 16 + (i ^ sw)); } }
    }
}

/// CubeHash16/32-256 of a 32-byte message.
pub fn cubehash(d: &[u8; 32], out: &mut [u8; 32]) {
    let mut x = [0u32; 32];
    x[0] = 32; x[1] = 32; x[2] = 16;
    for _ in 0..160 { cube_round(&mut x); }
    for i in 0..8 { x[i] ^= u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]); }
    for _ in 0..16 { cube_round(&mut x); }
    x[0] ^= 0x80;
    for _ in 0..16 { cube_round(&mut x); }
    x[31] ^= 1;
    for _ in 0..160 { cube_round(&mut x); }
    for i in 0..8 { let b = x[i].to_le_bytes(); for j in 0..4 { out[4 * i + j] = b[j]; } }
}

// ---- BMW-256 ----
fn sx(i: usize, x: u32) -> u32 {
    match i {
        0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
        1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
        2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
        3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
        4 => (x >> 1) ^ x,
        _ => (x >> 2) ^ x,
    }
}
const BR: [u32; 8] = [0, 3, 7, 13, 16, 19, 23, 27];
/// W[i]: (index, negated) of the five (M^H) terms, BMW submission table 2.1
const BW: [[(usize, bool); 5]; 16] = [
    [(5, false), (7, true), (10, false), (13, false), (14, false)],
    [(6, false), (8, true), (11, false), (14, false), (15, true)],
    [(0, false), (7, false), (9, false), (12, true), (15, false)],
    [(0, false), (1, true), (8, false), (10, true), (13, false)],
    [(1, false), (2, false), (9, false), (11, true), (14, true)],
    [(3, false), (2, true), (10, false), (12, true), (15, false)],
    [(4, false), (0, true), (3, true), (11, true), (13, false)],
    [(1, false), (4, true), (5, true), (12, true), (14, true)],
    [(2, false), (5, true), (6, true), (13, false), (15, true)],
    [(0, false), (3, true), (6, false), (7, true), (14, false)],
    [(8, false), (1, true), (4, true), (7, true), (15, false)],
    [(8, false), (0, true), (2, true), (5, true), (9, false)],
    [(1, false), (3, false), (6, true), (9, true), (10, false)],
    [(2, false), (4, false), (7, false), (10, false), (11, false)],
    [(3, false), (5, true), (8, false), (11, true), (12, true)],
    [(12, false), (4, true), (6, true), (9, true), (13, false)],
];

#[inline(never)]
fn bmw_f(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for (j, neg) in BW[i] {
            let x = m[j] ^ h[j];
            w = if neg { w.wrapping_sub(x) } else { w.wrapping_add(x) };
        }
        q[i] = sx(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    for j in 0..16 {
        let i = 16 + j;
        let rl = |x: u32, n: u32| if n % 32 == 0 { x } else { x.rotate_left(n % 32) };
        let mj = |x: usize| rl(m[x % 16], (x as u32 % 16) + 1);
        let add = (mj(j).wrapping_add(mj(j + 3)).wrapping_sub(mj(j + 10)).wrapping_add((i as u32).wrapping_mul(0x0555_5555))) ^ h[(j + 7) % 16];
        let mut s = add;
        if j < 2 {
            for n in 0..16 { s = s.wrapping_add(sx((n + 1) % 4, q[j + n])); }
        } else {
            for n in 0..16 {
                s = s.wrapping_add(if n >= 14 { sx(if n == 14 { 4 } else { 5 }, q[j + n]) } else if n % 2 == 0 { q[j + n] } else { q[j + n].rotate_left(BR[(n + 1) / 2]) });
            }
        }
        q[i] = s;
    }
    let mut xl = 0; let mut xh = 0;
    for i in 16..24 { xl ^= q[i]; }
    for i in 16..32 { xh ^= q[i]; }
    let mut o = [0u32; 16];
    let sh = |x: u32, s: i32| if s >= 0 { x << s } else { x >> -s };
    const A: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
    for i in 0..8 {
        o[i] = (sh(xh, A[i].0) ^ sh(q[16 + i], A[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
    }
    const B: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    for i in 0..8 {
        o[8 + i] = o[(i + 4) % 8].rotate_left(9 + i as u32).wrapping_add(xh ^ q[24 + i] ^ m[8 + i]).wrapping_add(sh(xl, B[i]) ^ q[16 + (i + 7) % 8] ^ q[8 + i]);
    }
    o
}

/// BMW-256 of a 32-byte message.
pub fn bmw(d: &[u8; 32], out: &mut [u8; 32]) {
    let mut h = [0u32; 16];
    for i in 0..16u32 { h[i as usize] = 0x4041_4243u32.wrapping_add(i * 0x0404_0404); }
    let mut m = [0u32; 16];
    for i in 0..8 { m[i] = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]); }
    m[8] = 0x80;
    m[14] = 256;
    let h1 = bmw_f(&h, &m);
    let mut f = [0u32; 16];
    for i in 0..16u32 { f[i as usize] = 0xaaaa_aaa0 + i; }
    let h2 = bmw_f(&f, &h1);
    for i in 0..8 { let b = h2[8 + i].to_le_bytes(); for j in 0..4 { out[4 * i + j] = b[j]; } }
}

// ---- third-party primitives, as published crates (trusted; see DESIGN.md) ----
pub fn blake256(d: &[u8]) -> [u8; 32] { use blake_hash::Digest; let x = blake_hash::Blake256::digest(d); let mut o = [0u8; 32]; o.copy_from_slice(&x); o }
pub fn keccak256(d: &[u8; 32]) -> [u8; 32] { use sha3::Digest; let x = sha3::Keccak256::digest(d); let mut o = [0u8; 32]; o.copy_from_slice(&x); o }
pub fn skein512_256(d: &[u8; 32]) -> [u8; 32] { use skein_hash::Digest; let x = skein_hash::Skein512::<digest::generic_array::typenum::U32>::digest(d); let mut o = [0u8; 32]; o.copy_from_slice(&x); o }
pub fn groestl256(d: &[u8; 32]) -> [u8; 32] { use sha3::Digest; let x = groestl::Groestl256::digest(d); let mut o = [0u8; 32]; o.copy_from_slice(&x); o }

pub fn lyra32(d: &[u8; 32], t: u64, r: u64, c: u64, v3: bool) -> [u8; 32] { let mut o = [0u8; 32]; lyra2(32, d, d, t, r, c, Rows::Mask, v3, &mut o); o }
pub fn cube32(d: &[u8; 32]) -> [u8; 32] { let mut o = [0u8; 32]; cubehash(d, &mut o); o }
pub fn bmw32(d: &[u8; 32]) -> [u8; 32] { let mut o = [0u8; 32]; bmw(d, &mut o); o }

pub fn re(x: &[u8]) -> [u8; 32] { groestl256(&skein512_256(&lyra32(&keccak256(&blake256(x)), 1, 8, 8, false))) }
pub fn rev2(x: &[u8]) -> [u8; 32] { bmw32(&cube32(&skein512_256(&lyra32(&cube32(&keccak256(&blake256(x))), 1, 4, 4, false)))) }
pub fn rev3(x: &[u8]) -> [u8; 32] { bmw32(&lyra32(&cube32(&lyra32(&blake256(x), 1, 4, 4, true)), 1, 4, 4, true)) }
pub fn z(x: &[u8]) -> [u8; 32] { lyra32(&blake256(x), 8, 8, 8, false) }
