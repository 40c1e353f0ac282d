//! Finite input spaces.  Everything here is deterministic; nothing is sampled.

use crate::{wmask, C, K};

/// Ordered, duplicate-free list builder (most telling values first).
struct L {
    m: u128,
    v: Vec<u128>,
    seen: std::collections::HashSet<u128>,
}
impl L {
    fn new(w: u32) -> L {
        L { m: wmask(w), v: vec![], seen: Default::default() }
    }
    fn p(&mut self, x: u128) {
        let x = x & self.m;
        if self.seen.insert(x) {
            self.v.push(x);
        }
    }
}

/// Integer values, most telling first.  `depth`: 0 ~ 20 values, 1 ~ 3 w,
/// 2 ~ 6 w, 3 ~ 12 w.
pub fn int_values(w: u32, depth: u32) -> Vec<u128> {
    let mut l = L::new(w);
    let top = 1u128 << (w - 1);
    let iota: u128 = 0x0f0e_0d0c_0b0a_0908_0706_0504_0302_0100;
    for x in [0, !0, 1, top, top.wrapping_sub(1), 2, !1, 3] {
        l.p(x);
    }
    let pat = [
        0x5555_5555_5555_5555_5555_5555_5555_5555u128,
        0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa,
        0x0123_4567_89ab_cdef_fedc_ba98_7654_3210u128.rotate_right(64),
        iota,
        0x7f,
        0x80,
        top + 1,
        top | (top >> 1),
        5,
        10,
        !4,
        !9,
        0xff,
        w as u128,
        w as u128 - 1,
    ];
    for x in pat {
        l.p(x);
    }
    if depth >= 1 {
        for k in 0..w {
            let b = 1u128 << k;
            l.p(b);
            l.p(b.wrapping_sub(1));
            l.p(b.wrapping_neg());
            if depth >= 2 {
                l.p(b + 1);
                l.p(!b);
                l.p(b.wrapping_neg().wrapping_sub(1));
                l.p(top | b);
            }
            if depth >= 3 {
                l.p(b | 1 | top);
                l.p(b.wrapping_mul(3));
                l.p(b.wrapping_mul(5));
                l.p(b.wrapping_mul(0xff));
                l.p(pat[2] >> k);
                l.p(pat[2].rotate_left(k) ^ iota);
            }
        }
        for x in 0..(if depth >= 2 { 24 } else { 12 }) {
            l.p(x);
            l.p((x as u128).wrapping_neg());
        }
        for x in [100u128, 255, 256, 1000, 0xffff, 0x10000, 0x1_0001, 0xffff_ffff, 0x1_0000_0000, 1_000_000_007] {
            l.p(x);
            l.p(x.wrapping_neg());
        }
    }
    l.v
}

/// Floating-point values (bit patterns), most telling first.  No signalling
/// NaNs.
pub fn float_values(w: u32, depth: u32) -> Vec<u128> {
    let mut l = L::new(w);
    let f = |x: f64| -> u128 {
        if w == 32 {
            (x as f32).to_bits() as u128
        } else {
            x.to_bits() as u128
        }
    };
    let (mant, expmax, bias): (u32, u128, i32) = if w == 32 { (23, 255, 127) } else { (52, 2047, 1023) };
    let sign = 1u128 << (w - 1);
    let qnan = (expmax << mant) | (1 << (mant - 1));
    let max = (expmax << mant) - 1;
    for x in [f(0.0), f(1.0), f(-1.0), qnan, expmax << mant, sign | (expmax << mant), sign, f(0.5), max, sign | max, 1 << mant, 1] {
        l.p(x);
    }
    for x in [2.0, -2.0, 3.0, -0.5, 1.5, -1.5, 2.5, 0.1, -0.1, 7.0, 10.0, 1e10, -1e10] {
        l.p(f(x));
    }
    for x in [sign | 1, sign | (1 << mant), (1 << mant) - 1, sign | ((1 << mant) - 1), sign | qnan, f(1.0) + 1, f(1.0) - 1] {
        l.p(x);
    }
    if depth >= 1 {
        for x in [
            std::f64::consts::PI,
            std::f64::consts::E,
            std::f64::consts::LN_2,
            std::f64::consts::FRAC_PI_2,
            0.25,
            0.75,
            1.0 / 3.0,
            4.0,
            100.0,
            255.0,
            256.0,
            65535.0,
            65536.0,
            16777215.0,
            16777216.0,
            16777217.0,
            2147483647.0,
            2147483648.0,
            4294967295.0,
            4294967296.0,
            9007199254740992.0,
            9007199254740991.0,
            1e20,
            1e-20,
            1e30,
            1e-30,
            123456.789,
        ] {
            l.p(f(x));
            l.p(f(-x));
        }
        let step = if depth >= 3 {
            1
        } else if depth == 2 {
            if w == 32 { 4 } else { 16 }
        } else if w == 32 {
            16
        } else {
            128
        };
        let mut e = 1u128;
        while e < expmax {
            for m in [0u128, 1, (1 << mant) - 1, 0x5_5555_5555_5555 & ((1 << mant) - 1)] {
                l.p((e << mant) | m);
                if depth >= 2 || m == 0 {
                    l.p(sign | (e << mant) | m);
                }
            }
            e += step;
        }
        // around 1, around the integer-precision boundary
        for d in -3..=3i32 {
            let e = (bias + d) as u128;
            for m in [0u128, 1, 1 << (mant - 1), (1 << mant) - 1] {
                l.p((e << mant) | m);
                l.p(sign | (e << mant) | m);
            }
        }
        for d in 0..4i32 {
            let e = (bias + mant as i32 + d - 2) as u128;
            for m in [0u128, 1, 3, (1 << mant) - 1] {
                l.p((e << mant) | m);
                l.p(sign | (e << mant) | m);
            }
        }
        if depth >= 2 {
            for k in 0..mant {
                l.p(1 << k);
                l.p(sign | (1 << k));
                l.p(f(1.0) | (1 << k));
                l.p(f(3.0) + (1 << k));
                l.p(max ^ (1 << k));
            }
        }
    }
    l.v
}

/// Per-argument alphabet for a lane-wise operation of the given arity.
pub fn alphabet(k: K, level: u32, arity: usize) -> Vec<u128> {
    match k.c {
        C::M => vec![0, k.mask()],
        C::F => {
            let d = match (level, arity) {
                (0, 1) => 1,
                (0, _) => 0,
                (1, 1) => 2,
                (1, 2) => 1,
                (2, 1) => 3,
                (2, 2) => 2,
                (3, 1) => 3,
                (3, 2) => 3,
                (_, _) => 0,
            };
            let mut v = float_values(k.w, d);
            if k.w == 64 && arity == 2 && level >= 3 {
                // every binade of one operand would be 2.7e8 pairs: thin out
                let tail: Vec<u128> = v.split_off(400).into_iter().step_by(5).collect();
                v.extend(tail);
            }
            if arity >= 3 {
                v.truncate([10, 16, 28, 32][level.min(3) as usize]);
            }
            v
        }
        C::I | C::U => {
            if k.w == 8 && (arity == 1 || (arity == 2 && level >= 1)) {
                // telling values first, then the rest: all 256
                let mut v = int_values(8, 0);
                for x in 0..256u128 {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                return v;
            }
            if k.w == 16 && arity == 1 && level >= 2 {
                return (0..65536).collect();
            }
            let d = match (level, arity) {
                (0, 1) => 1,
                (0, 2) => 0,
                (1, 1) => 2,
                (1, 2) => 1,
                (2, 1) => 3,
                (2, 2) => {
                    if k.w <= 64 {
                        3
                    } else {
                        2
                    }
                }
                (3, 1) => 3,
                (3, 2) => 3,
                (_, _) => 0,
            };
            let mut v = int_values(k.w, d);
            if arity == 1 && level >= 2 {
                small_and_lattice(k.w, &mut v);
            }
            if arity >= 3 {
                v.truncate([6, 10, 16, 24][level.min(3) as usize]);
            }
            v
        }
    }
}

/// Dense small operands of a binary operation: integers of magnitude up to 320
/// (left) and 64 (right), multiples of one half up to 64 and 32 for floats.
pub fn dense(arg: usize, k: K) -> Vec<u128> {
    match k.c {
        C::M => vec![],
        C::F => {
            let m = if arg == 0 { 128 } else { 64 };
            (-m..=m)
                .map(|x| {
                    let x = x as f64 * 0.5;
                    if k.w == 32 {
                        (x as f32).to_bits() as u128
                    } else {
                        x.to_bits() as u128
                    }
                })
                .collect()
        }
        _ if k.w == 8 => vec![],
        C::I => {
            let m: i128 = if arg == 0 { 320 } else { 64 };
            (-m..=m).map(|x| x as u128 & wmask(k.w)).collect()
        }
        C::U => {
            let m: u128 = if arg == 0 { 640 } else { 128 };
            (0..=m).collect()
        }
    }
}

/// Adds every value of magnitude below 2048 and a lattice of 2^12 values over
/// the whole range.
pub fn small_and_lattice(w: u32, v: &mut Vec<u128>) {
    let mut seen: std::collections::HashSet<u128> = v.iter().copied().collect();
    let mut p = |x: u128| {
        let x = x & wmask(w);
        if seen.insert(x) {
            v.push(x);
        }
    };
    for x in 0..2048u128 {
        p(x);
        p(x.wrapping_neg());
    }
    for c in 0..4096u128 {
        p((c << (w - 12)) | (c.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) >> 16 & wmask(w - 12)));
    }
}

/// The budget of `for_each_vec` per level.
fn budget(level: u32) -> u64 {
    [3_000, 20_000, 1_000_000, 10_000_000][level.min(3) as usize]
}

/// Whole-vector space for vectors of `n` lanes of kind `k`.
/// `f` returns false to stop.
pub fn for_each_vec(k: K, n: usize, level: u32, f: &mut dyn FnMut(&[u128]) -> bool) {
    if k.c == C::M {
        return for_each_mask(k, n, level, f);
    }
    let al = match k.c {
        C::F => float_values(k.w, if level >= 2 { 2 } else { 1 }),
        _ => {
            if k.w == 8 {
                let mut v = int_values(8, 0);
                for x in 0..256u128 {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                v
            } else {
                int_values(k.w, if level >= 2 { 2 } else { 1 })
            }
        }
    };
    for_each_vec_of(&al, k, n, budget(level), f)
}

pub fn for_each_vec_of(al: &[u128], k: K, n: usize, bud: u64, f: &mut dyn FnMut(&[u128]) -> bool) {
    let mut go = true;
    let mut v = vec![0u128; n];
    macro_rules! emit {
        () => {
            if !f(&v) {
                return;
            }
        };
    }
    // 1. cartesian product over the longest alphabet prefix that fits
    let mut s = 1usize;
    while s < al.len() && ((s + 1) as f64).powi(n as i32) <= bud as f64 {
        s += 1;
    }
    if s >= 2 {
        cart(&al[..s], n, 0, &mut v, f, &mut go);
        if !go {
            return;
        }
    }
    // 2. uniform vectors
    for &a in al {
        v.fill(a);
        emit!();
    }
    // 3. sliding windows over the whole alphabet, several strides
    for stride in [1usize, 3, 7] {
        for b in 0..al.len() {
            for j in 0..n {
                v[j] = al[(b + j * stride) % al.len()];
            }
            emit!();
        }
    }
    // 4. iota-like vectors: lane position readable from the value
    for t in 0..6u128 {
        for j in 0..n {
            let x = j as u128;
            v[j] = if k.c == C::F {
                let y = match t {
                    0 => x as f64,
                    1 => -(x as f64),
                    2 => (n - j) as f64,
                    3 => 1.0 + x as f64 / 64.0,
                    4 => (x * 3 + 1) as f64 * 0.5,
                    _ => {
                        if j % 2 == 0 {
                            x as f64
                        } else {
                            -(x as f64)
                        }
                    }
                };
                if k.w == 32 {
                    (y as f32).to_bits() as u128
                } else {
                    y.to_bits() as u128
                }
            } else {
                (match t {
                    0 => x,
                    1 => x.wrapping_neg(),
                    2 => (n - j) as u128,
                    3 => 1u128 << (j as u32 % k.w),
                    4 => x * 3 + 1,
                    _ => !(1u128 << (k.w - 1 - (j as u32 % k.w))),
                }) & k.mask()
            };
        }
        emit!();
    }
    // 5. one deviating lane: base x deviation x lane
    let q = ((bud as f64 / n as f64).sqrt() as usize).clamp(3, al.len());
    for b in 0..q {
        for d in 0..q {
            if b == d {
                continue;
            }
            for i in 0..n {
                v.fill(al[b]);
                v[i] = al[d];
                emit!();
            }
        }
    }
    // 6. two deviating lanes
    if n >= 3 {
        let pairs = (n * (n - 1) / 2) as f64;
        let q = ((bud as f64 / pairs).cbrt() as usize).clamp(2, 12.min(al.len()));
        for b in 0..q {
            for d in 0..q {
                for e in 0..q {
                    if b == d || b == e {
                        continue;
                    }
                    for i in 0..n {
                        for j in i + 1..n {
                            v.fill(al[b]);
                            v[i] = al[d];
                            v[j] = al[e];
                            emit!();
                        }
                    }
                }
            }
        }
    }
    // 7. runs: lanes p..q deviate
    if n >= 4 {
        let m = 4.min(al.len());
        for b in 0..m {
            for d in 0..m {
                if b == d {
                    continue;
                }
                for p in 0..n {
                    for e in p + 1..=n {
                        if bud < 10_000 && p != 0 && e != n {
                            continue;
                        }
                        v.fill(al[b]);
                        v[p..e].fill(al[d]);
                        emit!();
                    }
                }
            }
        }
    }
}

fn cart(al: &[u128], n: usize, d: usize, v: &mut Vec<u128>, f: &mut dyn FnMut(&[u128]) -> bool, go: &mut bool) {
    if d == n {
        *go = f(v);
        return;
    }
    for &a in al {
        v[d] = a;
        cart(al, n, d + 1, v, f, go);
        if !*go {
            return;
        }
    }
}

/// Mask vectors as n-bit numbers: all of them up to 16 lanes (8 at level 0),
/// otherwise every mask at Hamming distance <= 2 (4 from level 2) from
/// all-false and all-true, every contiguous run and its complement, and
/// periodic patterns.
pub fn mask_numbers(n: usize, level: u32, f: &mut dyn FnMut(u64) -> bool) {
    let full: u64 = if n == 64 { !0 } else { (1u64 << n) - 1 };
    let all = match level {
        0 => 8,
        1 | 2 => 16,
        _ => 16,
    };
    if n <= all {
        for m in 0..=full {
            if !f(m) {
                return;
            }
        }
        return;
    }
    let far = level >= 2;
    for inv in [0, full] {
        if !f(inv) {
            return;
        }
        for i in 0..n {
            if !f(inv ^ (1 << i)) {
                return;
            }
            for j in i + 1..n {
                if !f(inv ^ (1 << i) ^ (1 << j)) {
                    return;
                }
                if level >= 2 {
                    for l in j + 1..n {
                        let m3 = inv ^ (1 << i) ^ (1 << j) ^ (1 << l);
                        if !f(m3) {
                            return;
                        }
                        if far {
                            for q in l + 1..n {
                                if !f(m3 ^ (1 << q)) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        for p in 0..n {
            for q in p + 1..=n {
                let r = if q - p == 64 { !0 } else { ((1u64 << (q - p)) - 1) << p };
                if !f(inv ^ r) {
                    return;
                }
            }
        }
        for per in 1..=n / 2 {
            for ph in 0..per {
                let mut m = 0u64;
                let mut i = ph;
                while i < n {
                    m |= 1 << i;
                    i += per;
                }
                if !f(inv ^ m) {
                    return;
                }
            }
        }
    }
    // every value of every aligned and unaligned byte over zeros / ones
    for inv in [0, full] {
        for sh in (0..=n - 8).step_by(4) {
            for b in 0..256u64 {
                if !f(inv ^ (b << sh)) {
                    return;
                }
            }
        }
    }
}

pub fn for_each_mask(k: K, n: usize, level: u32, f: &mut dyn FnMut(&[u128]) -> bool) {
    let mut v = vec![0u128; n];
    let t = k.mask();
    mask_numbers(n, level, &mut |m| {
        for (i, x) in v.iter_mut().enumerate() {
            *x = if m >> i & 1 == 1 { t } else { 0 };
        }
        f(&v)
    });
}

/// Pairs of whole vectors for relations (equality, ordering): small cartesian
/// squares when they fit, otherwise vectors that share a prefix/suffix and
/// differ in at most two lanes.
pub fn for_each_pair(k: K, n: usize, level: u32, f: &mut dyn FnMut(&[u128], &[u128]) -> bool) {
    let al: Vec<u128> = match k.c {
        C::M => vec![0, k.mask()],
        C::F => {
            let mut v = float_values(k.w, 0);
            v.truncate([7, 10, 14, 28][level.min(3) as usize]);
            v
        }
        _ => {
            let mut v = int_values(k.w, 0);
            v.truncate([5, 8, 12, 24][level.min(3) as usize]);
            v
        }
    };
    let bud = budget(level) as f64 * 2.0;
    let mut s = 1usize;
    while s < al.len() && ((s + 1) as f64).powi(2 * n as i32) <= bud {
        s += 1;
    }
    let mut ab = vec![0u128; 2 * n];
    let mut go = true;
    if s >= 2 {
        cart(&al[..s], 2 * n, 0, &mut ab, &mut |v| f(&v[..n], &v[n..]), &mut go);
        if !go {
            return;
        }
    }
    // differ in exactly the lanes {i} / {i,j}; all other lanes equal to base
    let q = al.len();
    let mut a = vec![0u128; n];
    let mut b = vec![0u128; n];
    for x in 0..q {
        a.fill(al[x]);
        b.fill(al[x]);
        if !f(&a, &b) {
            return;
        }
    }
    for base in 0..q {
        for x in 0..q {
            for y in 0..q {
                for i in 0..n {
                    a.fill(al[base]);
                    b.fill(al[base]);
                    a[i] = al[x];
                    b[i] = al[y];
                    if !f(&a, &b) {
                        return;
                    }
                }
            }
        }
    }
    if n >= 2 {
        let npairs = (n * (n - 1) / 2) as f64;
        let r = ((bud / npairs).powf(0.25) as usize).clamp(2, al.len());
        for x in 0..r {
            for y in 0..r {
                for z in 0..r {
                    for w in 0..r {
                        if x == y || z == w {
                            continue;
                        }
                        for i in 0..n {
                            for j in i + 1..n {
                                a.fill(al[0]);
                                b.fill(al[0]);
                                a[i] = al[x];
                                b[i] = al[y];
                                a[j] = al[z];
                                b[j] = al[w];
                                if !f(&a, &b) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        // first difference at i, everything after it opposes
        for x in 0..al.len().min(6) {
            for y in 0..al.len().min(6) {
                for i in 0..n {
                    a.fill(al[x]);
                    b.fill(al[y]);
                    a[..i].fill(al[0]);
                    b[..i].fill(al[0]);
                    a[i] = al[y];
                    b[i] = al[x];
                    if !f(&a, &b) {
                        return;
                    }
                }
            }
        }
    }
}

/// Every k-subset style selection of up to `maxsel` lanes out of n.
pub fn subsets(n: usize, maxsel: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, from: usize, left: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if left == 0 {
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, i + 1, left - 1, cur, f);
            cur.pop();
        }
    }
    rec(n, 0, maxsel, &mut vec![], f)
}
