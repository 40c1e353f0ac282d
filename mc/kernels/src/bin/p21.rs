//! P21: the vectorised example programs compute what their scalar definitions say.
use engine::*;
use std::ops::Range;

/// `catch` that also sees panics of code that runs elsewhere.
fn panics(f: impl FnOnce()) -> bool {
    catch(f).is_err()
}

fn dot(e: &mut Engine) {
    type D = fn(&[f32], &[f32]) -> f32;
    for (name, f) in [("simd", dot_product_lib::simd::dot_prod as D), ("scalar", dot_product_lib::scalar::dot_prod as D)] {
        e.job(format!("dot_product {name}: complete length 4 over small integers"), move |run| {
            let al: &[f32] = if run.level >= 2 { &[-2., 0., 1., 3.] } else { &[-2., 0., 3.] };
            let n = al.len();
            let m = n.pow(4);
            let v = |mut i: usize| {
                let mut a = [0f32; 4];
                for x in a.iter_mut() {
                    *x = al[i % n];
                    i /= n;
                }
                a
            };
            for i in 0..m {
                let a = v(i);
                for j in 0..m {
                    let b = v(j);
                    let want: i64 = (0..4).map(|q| a[q] as i64 * b[q] as i64).sum();
                    let got = f(&a, &b);
                    run.point(1);
                    run.outcome(got.to_bits() as u64);
                    if got != want as f32 {
                        return run.fail(|| format!("dot({a:?}, {b:?}) = {got}, expected {want}"));
                    }
                }
            }
        });
        e.job(format!("dot_product {name}: all lengths, all positions, all offsets"), move |run| {
            let top = if run.level >= 2 { 96 } else { 36 };
            for len in 0..=top {
                let n = len * if name == "simd" { 4 } else { 1 };
                for off in 0..8 {
                    let a: Vec<f32> = (0..n + off).map(|i| (i + 1) as f32).collect();
                    for hot in 0..=n {
                        // one element is 2, all others 0; hot == n: all are 1
                        let b: Vec<f32> = (0..n + off).map(|i| if hot == n { 1. } else if i == hot + off { 2. } else { 0. }).collect();
                        let want: i64 = (off..n + off).map(|i| a[i] as i64 * b[i] as i64).sum();
                        let got = f(&a[off..], &b[off..]);
                        run.point(1);
                        run.outcome(got.to_bits() as u64);
                        if got != want as f32 {
                            return run.fail(|| format!("length {n}, offset {off}, hot {hot}: {got}, expected {want}"));
                        }
                    }
                }
            }
            run.sample(|| format!("{} lengths", top + 1));
        });
        e.job(format!("dot_product {name}: mismatched lengths panic"), move |run| {
            for i in 0..20usize {
                for j in 0..20usize {
                    let (a, b) = (vec![1f32; i], vec![1f32; j]);
                    let r = catch(|| f(&a, &b));
                    run.point(1);
                    let ok = i == j && (name != "simd" || i % 4 == 0);
                    if ok != r.is_ok() || (ok && r != Ok(i as f32)) {
                        return run.fail(|| format!("lengths {i}, {j}: {r:?}"));
                    }
                }
            }
        });
    }
}

fn slice_sums(e: &mut Engine) {
    for &(name, f) in kernels::slice_sum::SUMS {
        // `misaligned`: only slices that do not start (or only those that do) at a 32-byte
        // boundary.  `strict`: the exact sum; otherwise what follows the last aligned block of
        // eight may be left out (the known finding of sum_ver_par), and nothing else.
        let body = move |run: &Run, misaligned: bool, strict: bool| {
            let top = if run.level >= 2 { 40 } else { 16 };
            for n in 1..=top {
                let n = 8 * n;
                let buf: Vec<f32> = (0..n + 16).map(|i| (i * i % 1000 + 1) as f32).collect();
                for off in 0..16 {
                    let s = &buf[off..off + n];
                    let skew = s.as_ptr() as usize % 32;
                    if (skew != 0) != misaligned {
                        continue;
                    }
                    let want: i64 = s.iter().map(|&x| x as i64).sum();
                    let tail: i64 = s[n - skew / 4..].iter().map(|&x| x as i64).sum();
                    let got = catch(|| f(s));
                    run.point(1);
                    match got {
                        Ok(g) if g == want as f32 || (!strict && g == (want - tail) as f32) => run.outcome(g.to_bits() as u64),
                        g => return run.fail(|| format!("sum of {n} elements at address {:?}: {g:?}, expected {want}", s.as_ptr())),
                    }
                }
            }
        };
        e.job(format!("slice_sum {name}: all lengths, aligned slices"), move |run| body(run, false, true));
        e.job(format!("slice_sum {name}: all lengths, slices that are not aligned"), move |run| body(run, true, true));
        e.job(format!("slice_sum {name}: all lengths, slices that are not aligned, the tail aside"), move |run| body(run, true, false));
        e.job(format!("slice_sum {name}: the empty slice"), move |run| {
            run.point(1);
            let got = catch(|| f(&[]));
            if got != Ok(0.) {
                run.fail(|| format!("sum of no elements: {got:?}"));
            }
        });
    }
}

fn options_sum(e: &mut Engine) {
    for (name, f) in [("slice", options_pricing_lib::sum::slice as fn(&[f32]) -> f64), ("slice_scalar", options_pricing_lib::sum::slice_scalar as fn(&[f32]) -> f64)] {
        e.job(format!("options_pricing sum::{name}: all lengths, positions"), move |run| {
            for n in 0..=(if run.level >= 2 { 32 } else { 12 }) {
                let n = 8 * n;
                for off in 0..8 {
                    for hot in 0..=n {
                        let b: Vec<f32> = (0..n + off).map(|i| if hot == n { (i * 7 % 31) as f32 } else if i == hot + off { 3. } else { 0. }).collect();
                        let want: f64 = b[off..].iter().map(|&x| x as f64).sum();
                        let got = f(&b[off..]);
                        run.point(1);
                        run.outcome(got.to_bits());
                        if got != want {
                            return run.fail(|| format!("length {n} hot {hot}: {got}, expected {want}"));
                        }
                    }
                }
            }
        });
    }
}

fn fannkuch(e: &mut Engine) {
    // reference: straight from the definition
    fn model(n: usize) -> (i32, i32) {
        fn all(p: &mut [usize], count: &mut [usize], idx: &mut i64, out: &mut (i32, i32)) {
            // all permutations in the order of the benchmarks game (rotations)
            loop {
                let mut q = p.to_vec();
                let mut flips = 0;
                while q[0] != 0 {
                    let m = q[0];
                    q[..=m].reverse();
                    flips += 1;
                }
                out.1 = out.1.max(flips);
                out.0 += if *idx % 2 == 0 { flips } else { -flips };
                *idx += 1;
                let mut i = 1;
                loop {
                    if i >= p.len() {
                        return;
                    }
                    p[..=i].rotate_left(1);
                    count[i] += 1;
                    if count[i] <= i {
                        break;
                    }
                    count[i] = 0;
                    i += 1;
                }
            }
        }
        let mut out = (0, 0);
        if n > 0 {
            all(&mut (0..n).collect::<Vec<_>>(), &mut vec![0; n], &mut 0, &mut out);
        }
        out
    }
    for (alg, name) in [(0, "simd"), (1, "scalar")] {
        // The pinned compiler miscompiles the (safe, vector-free) scalar version when it
        // optimises: it does not terminate for n >= 4.  That is not this repository's code.
        if name == "scalar" && !cfg!(debug_assertions) {
            continue;
        }
        e.job(format!("fannkuch_redux {name}: every n"), move |run| {
            for n in 1..=(if run.level >= 3 { 10 } else if run.level >= 2 { 9 } else { 8 }) {
                let want = model(n);
                let got = fannkuch_redux_lib::fannkuch_redux(n, alg);
                run.point(1);
                run.outcome(got.0 as u64);
                if got != want {
                    return run.fail(|| format!("n = {n}: {got:?}, expected {want:?}"));
                }
            }
        });
    }
}

fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= abs + rel * b.abs()
}

fn spectral(e: &mut Engine) {
    fn model(n: usize) -> f64 {
        let a = |i: usize, j: usize| 1.0 / ((i + j) * (i + j + 1) / 2 + i + 1) as f64;
        let av = |v: &[f64]| (0..n).map(|i| (0..n).map(|j| a(i, j) * v[j]).sum()).collect::<Vec<f64>>();
        let atv = |v: &[f64]| (0..n).map(|i| (0..n).map(|j| a(j, i) * v[j]).sum()).collect::<Vec<f64>>();
        let mut u = vec![1.0; n];
        let mut v = u.clone();
        for _ in 0..10 {
            v = atv(&av(&u));
            u = atv(&av(&v));
        }
        let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(a, b)| a * b).sum::<f64>();
        (dot(&u, &v) / dot(&v, &v)).sqrt()
    }
    for (alg, name) in [(0, "simd"), (1, "scalar")] {
        e.job(format!("spectral_norm {name}: every n"), move |run| {
            for n in 1..=(if run.level >= 2 { 150 } else { 40 }) {
                let got = catch(|| spectral_norm_lib::spectral_norm(n, alg));
                run.point(1);
                let ok = match &got {
                    Ok(g) => n % 2 == 0 && close(*g, model(n), 1e-12, 0.),
                    Err(_) => n % 2 == 1,
                };
                if let Ok(g) = got {
                    run.outcome(g.to_bits());
                }
                if !ok {
                    return run.fail(|| format!("n = {n}: {got:?}, expected {:?}", model(n)));
                }
            }
        });
    }
}

fn matrix(e: &mut Engine) {
    use matrix_inverse_lib::Matrix4x4;
    type Inv = fn(Matrix4x4) -> Option<Matrix4x4>;
    fn mk(m: [[f32; 4]; 4]) -> Matrix4x4 {
        unsafe { std::mem::transmute(m) }
    }
    fn un(m: Matrix4x4) -> [[f32; 4]; 4] {
        unsafe { std::mem::transmute(m) }
    }
    fn det3(r: [[i32; 3]; 3]) -> i32 {
        r[0][0] * (r[1][1] * r[2][2] - r[1][2] * r[2][1]) - r[0][1] * (r[1][0] * r[2][2] - r[1][2] * r[2][0]) + r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0])
    }
    fn one(run: &Run, f: Inv, m: [[i32; 4]; 4]) -> bool {
        let mut fm = [[0f32; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                fm[i][j] = m[i][j] as f32;
            }
        }
        let mut cof = [[0i32; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                let mut r = [[0; 3]; 3];
                for (a, x) in (0..4).filter(|&x| x != i).enumerate() {
                    for (b, y) in (0..4).filter(|&y| y != j).enumerate() {
                        r[a][b] = m[x][y];
                    }
                }
                cof[i][j] = if (i + j) % 2 == 0 { 1 } else { -1 } * det3(r);
            }
        }
        let det: i32 = (0..4).map(|j| m[0][j] * cof[0][j]).sum();
        let got = f(mk(fm)).map(un);
        run.point(1);
        let ok = match got {
            None => det == 0,
            Some(g) => {
                run.outcome(g[0][0].to_bits() as u64);
                det != 0 && (0..4).all(|i| (0..4).all(|j| close(g[i][j] as f64, cof[j][i] as f64 / det as f64, 1e-5, 1e-6)))
            }
        };
        if !ok {
            run.fail(|| format!("inverse of {m:?} (determinant {det}): {got:?}"));
        }
        ok
    }
    for (name, f) in [("simd", matrix_inverse_lib::simd::inv4x4 as Inv), ("scalar", matrix_inverse_lib::scalar::inv4x4 as Inv)] {
        // first row is split over jobs so that they run in parallel
        for first in 0..9i32 {
            e.job(format!("matrix_inverse {name}: all 4x4 matrices over {{-1,0,1}}, corner {first}"), move |run| {
                // level 1: the first column and last row are free, the rest {0,1}
                let free: u32 = if run.level >= 2 { 14 } else { 9 };
                let total = 3u32.pow(free);
                for c in 0..total {
                    let mut m = [[0i32; 4]; 4];
                    let mut c = c;
                    m[0][0] = first / 3 - 1;
                    m[2][1] = first % 3 - 1;
                    let mut left = free;
                    for i in 0..4 {
                        for j in 0..4 {
                            if (i, j) == (0, 0) || (i, j) == (2, 1) {
                                continue;
                            }
                            if left > 0 {
                                m[i][j] = (c % 3) as i32 - 1;
                                c /= 3;
                                left -= 1;
                            } else {
                                m[i][j] = ((i * 3 + j * 5) % 4) as i32 - 1;
                            }
                        }
                    }
                    if !one(run, f, m) {
                        return;
                    }
                }
            });
        }
        e.job(format!("matrix_inverse {name}: all permuted diagonal matrices"), move |run| {
            let sc = [1, 2, -3, 5, 8];
            for p in 0..256usize {
                let idx = [p & 3, p >> 2 & 3, p >> 4 & 3, p >> 6];
                for s in 0..625usize {
                    let mut m = [[0; 4]; 4];
                    let mut q = s;
                    for i in 0..4 {
                        m[i][idx[i]] = sc[q % 5];
                        q /= 5;
                    }
                    if !one(run, f, m) {
                        return;
                    }
                }
            }
        });
    }
}

fn nbody(e: &mut Engine) {
    e.job("nbody simd and scalar: energy after every number of steps", |run| {
        for n in 0..=(if run.level >= 2 { 400 } else { 60 }) {
            let (a0, b0) = nbody_lib::scalar::run(n);
            let (a1, b1) = nbody_lib::simd::run(n);
            run.point(2);
            run.outcome(b1.to_bits());
            if !close(a1, a0, 1e-9, 0.) || !close(b1, b0, 1e-7, 0.) || !close(a0, -0.169075164, 1e-8, 0.) {
                return run.fail(|| format!("after {n} steps: scalar {:?}, simd {:?}", (a0, b0), (a1, b1)));
            }
        }
    });
    e.job("nbody simd: one step from every perturbed state moves every body as Newton says", |run| {
        use packed_simd::f64x4;
        // reference step in plain f64
        fn model(x: &[[f64; 3]; 5], v: &[[f64; 3]; 5], m: &[f64; 5], dt: f64) -> ([[f64; 3]; 5], [[f64; 3]; 5]) {
            let mut nv = *v;
            for i in 0..5 {
                for j in 0..5 {
                    if i == j {
                        continue;
                    }
                    let d: Vec<f64> = (0..3).map(|c| x[i][c] - x[j][c]).collect();
                    let r2: f64 = d.iter().map(|q| q * q).sum();
                    for c in 0..3 {
                        nv[i][c] -= d[c] * m[j] * dt / (r2 * r2.sqrt());
                    }
                }
            }
            let mut nx = *x;
            for i in 0..5 {
                for c in 0..3 {
                    nx[i][c] += dt * nv[i][c];
                }
            }
            (nx, nv)
        }
        let steps = [-1.0, 0.0, 1.5];
        for body in 0..5usize {
            for code in 0..(3usize.pow(6)) {
                let mut x = [[0., 0., 0.], [4., -1., 0.25], [8., 4., -0.5], [12., -15., -0.25], [15., -25., 0.5]];
                let mut v = [[0., 0., 0.], [0.5, 2., 0.], [-1., 1.5, 0.25], [1., 0.75, 0.], [1., 0.5, -0.5]];
                let m = [39., 0.04, 0.01, 0.002, 0.002];
                let mut c = code;
                for q in 0..3 {
                    x[body][q] += steps[c % 3];
                    c /= 3;
                    v[body][q] += steps[c % 3];
                    c /= 3;
                }
                let mk = |i: usize| nbody_lib::simd::Body { x: f64x4::new(x[i][0], x[i][1], x[i][2], 0.), v: f64x4::new(v[i][0], v[i][1], v[i][2], 0.), mass: m[i] };
                let mut b = [mk(0), mk(1), mk(2), mk(3), mk(4)];
                for dt in [0.01, -0.5] {
                    let old: Vec<_> = b.iter().map(|q| (q.x, q.v)).collect();
                    let ox: Vec<[f64; 3]> = old.iter().map(|q| [q.0.extract(0), q.0.extract(1), q.0.extract(2)]).collect();
                    let ov: Vec<[f64; 3]> = old.iter().map(|q| [q.1.extract(0), q.1.extract(1), q.1.extract(2)]).collect();
                    let (nx, nv) = model(&ox.try_into().unwrap(), &ov.try_into().unwrap(), &m, dt);
                    nbody_lib::simd::advance(&mut b, dt);
                    run.point(1);
                    run.outcome(b[body].x.extract(0).to_bits());
                    for i in 0..5 {
                        for q in 0..3 {
                            if !close(b[i].x.extract(q), nx[i][q], 1e-6, 1e-9) || !close(b[i].v.extract(q), nv[i][q], 1e-6, 1e-9) {
                                return run.fail(|| format!("body {i} coordinate {q} after dt {dt}: x {:?} v {:?}, expected {:?} {:?}", b[i].x, b[i].v, nx[i], nv[i]));
                            }
                        }
                    }
                }
            }
        }
    });
}

fn options(e: &mut Engine) {
    type M = fn(&[f32], &[f32], &[f32], &[f32], &[f32], &mut [f32], usize) -> f64;
    use options_pricing_lib::{scalar, simd, simd_par};
    let models: [(&'static str, M, M); 4] = [
        ("simd::black_scholes", simd::black_scholes, scalar::black_scholes),
        ("simd::binomial_put", simd::binomial_put, scalar::binomial_put),
        ("simd_par::black_scholes", simd_par::black_scholes, scalar::black_scholes),
        ("simd_par::binomial_put", simd_par::binomial_put, scalar::binomial_put),
    ];
    for (name, f, g) in models {
        // `strict`: every price is that of its own option.  Otherwise lane l of chunk c may also
        // hold the price of option c + l (the known finding of simd_par), and of no other.
        let body = move |run: &Run, strict: bool| {
            let mut opts = vec![];
            for s in [80f32, 100., 125.] {
                for x in [90f32, 98.] {
                    for t in [0.5f32, 2.] {
                        for r in [0.01f32, 0.04] {
                            for v in [0.2f32, 0.5] {
                                opts.push([s, x, t, r, v]);
                            }
                        }
                    }
                }
            }
            for blocks in 0..=(if run.level >= 2 { 8 } else { 4 }) {
                let n = blocks * 8;
                for rot in 0..(if run.level >= 2 { opts.len() } else { 8 }) {
                    let col = |c: usize| (0..n).map(|i| opts[(i * 5 + rot) % opts.len()][c]).collect::<Vec<f32>>();
                    let a = [col(0), col(1), col(2), col(3), col(4)];
                    let (mut r0, mut r1) = (vec![0f32; n], vec![0f32; n]);
                    let s0 = g(&a[0], &a[1], &a[2], &a[3], &a[4], &mut r0, n);
                    let s1 = catch(|| f(&a[0], &a[1], &a[2], &a[3], &a[4], &mut r1, n));
                    run.point(1);
                    run.values(n as u64);
                    for i in 0..n {
                        run.outcome(r1[i].to_bits() as u64);
                        let ok = |j: usize| close(r1[i] as f64, r0[j] as f64, 1e-3, 1e-3);
                        if !(ok(i) || (!strict && ok(i / 8 + i % 8))) {
                            return run.fail(|| format!("{n} options, rotation {rot}: option {i} {:?} priced {} instead of {}", opts[(i * 5 + rot) % opts.len()], r1[i], r0[i]));
                        }
                    }
                    let total = if strict { s0 } else { r1.iter().map(|&x| x as f64).sum() };
                    if !matches!(s1, Ok(s) if close(s, total, 1e-3, 1e-3)) {
                        return run.fail(|| format!("{n} options: total {s1:?} instead of {total}"));
                    }
                }
            }
        };
        e.job(format!("options_pricing {name}: every count, every option of the grid in every lane"), move |run| body(run, true));
        if name.starts_with("simd_par") {
            e.job(format!("options_pricing {name}: every count, the choice of the chunk aside"), move |run| body(run, false));
        }
    }
}

fn stencil(e: &mut Engine) {
    type S = fn(i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, &[f32; 4], &[f32], &mut [f32], &mut [f32]);
    // reference in exact integers scaled by 16: coefficients are multiples of 1/16
    fn model(t: i32, b: [i32; 6], n: [i32; 3], coef16: [i64; 4], vsq: &[i64], even: &mut [f64], odd: &mut [f64]) {
        for t in 0..t {
            let (a, o): (Vec<f64>, &mut [f64]) = if t & 1 == 0 { (even.to_vec(), &mut *odd) } else { (odd.to_vec(), &mut *even) };
            for z in b[4]..b[5] {
                for y in b[2]..b[3] {
                    for x in b[0]..b[1] {
                        let ix = |x: i32, y: i32, z: i32| ((z * n[1] + y) * n[0] + x) as usize;
                        let mut d = coef16[0] as f64 * a[ix(x, y, z)];
                        for i in 1..4 {
                            d += coef16[i as usize] as f64 * (a[ix(x + i, y, z)] + a[ix(x - i, y, z)] + a[ix(x, y + i, z)] + a[ix(x, y - i, z)] + a[ix(x, y, z + i)] + a[ix(x, y, z - i)]);
                        }
                        let p = ix(x, y, z);
                        o[p] = 2. * a[p] - o[p] + vsq[p] as f64 * d / 16.;
                    }
                }
            }
        }
    }
    for (name, f) in [("simd", stencil_lib::simd::x8 as S), ("simd_par", stencil_lib::simd_par::x8_par as S), ("scalar", stencil_lib::scalar::scalar as S)] {
        e.job(format!("stencil {name}: every small grid shape, every impulse position"), move |run| {
            let big = run.level >= 2;
            let xs: &[(i32, i32)] = &[(4, 8), (3, 8), (4, 16), (5, 8)];
            for &(x0, w) in xs {
                for nx in [x0 + w + 3, x0 + w + 4] {
                    for ny in 7..=(if big { 9 } else { 8 }) {
                        for nz in 7..=(if big { 9 } else { 7 }) {
                            for t in 0..=3 {
                                let b = [x0, x0 + w, 3, ny - 3, 3, nz - 3];
                                let n = (nx * ny * nz) as usize;
                                let step = if big { 3 } else { 17 };
                                for hot in (0..n).step_by(step).chain([n]) {
                                    // hot == n: every cell its own value
                                    let even: Vec<f64> = (0..n).map(|i| if hot == n { (i * 7 % 61) as f64 * 16. } else if i == hot { 16. } else { 0. }).collect();
                                    let odd: Vec<f64> = (0..n).map(|i| (i % 5) as f64).collect();
                                    let vsq: Vec<i64> = (0..n).map(|i| (i % 3) as i64 + 1).collect();
                                    let (mut me, mut mo) = (even.clone(), odd.clone());
                                    model(t, b, [nx, ny, nz], [8, -4, 2, -1], &vsq, &mut me, &mut mo);
                                    let mut fe: Vec<f32> = even.iter().map(|&x| x as f32).collect();
                                    let mut fo: Vec<f32> = odd.iter().map(|&x| x as f32).collect();
                                    let fv: Vec<f32> = vsq.iter().map(|&x| x as f32).collect();
                                    f(0, t, b[0], b[1], b[2], b[3], b[4], b[5], nx, ny, nz, &[0.5, -0.25, 0.125, -0.0625], &fv, &mut fe, &mut fo);
                                    run.point(1);
                                    run.values(2 * n as u64);
                                    for i in 0..n {
                                        if fe[i] as f64 != me[i] || fo[i] as f64 != mo[i] {
                                            return run.fail(|| format!("grid {nx}x{ny}x{nz}, x {}..{}, {t} steps, impulse {hot}: cell {i} even {} odd {}, expected {} {}", b[0], b[1], fe[i], fo[i], me[i], mo[i]));
                                        }
                                    }
                                    run.outcome(fo[n / 2].to_bits() as u64 ^ (fe[n / 2].to_bits() as u64) << 32);
                                }
                            }
                        }
                    }
                }
            }
        });
    }
}

fn triangles(e: &mut Engine) {
    use triangle_xform::{scalar, simd};
    fn tri(f: impl Fn(usize, usize) -> f32) -> scalar::Triangle {
        let mut t = scalar::Triangle::default();
        for k in 0..3 {
            for c in 0..3 {
                t.0[k][c] = f(k, c);
            }
        }
        t
    }
    fn expect(t: &scalar::Triangle, m: [[f32; 3]; 4]) -> scalar::Triangle {
        tri(|k, c| ((0..3).map(|q| m[q][c] as i64 * t.0[k][q] as i64).sum::<i64>() + m[3][c] as i64) as f32)
    }
    e.job("triangle_xform: pack, unpack and transform, every lane, vertex, coordinate and matrix entry", |run| {
        let lanes = simd::VecF::lanes();
        let mut mats = vec![];
        for a in 0..12 {
            for b in 0..12 {
                let mut m = [[0f32; 3]; 4];
                m[a / 3][a % 3] = 2.;
                m[b / 3][b % 3] -= 3.;
                mats.push(m);
            }
        }
        let mut m = [[0f32; 3]; 4];
        for i in 0..12 {
            m[i / 3][i % 3] = (i as f32) * 3. - 5.;
        }
        mats.push(m);
        for hot in 0..=lanes * 9 {
            let ts: Vec<scalar::Triangle> = (0..lanes).map(|l| tri(|k, c| if hot == lanes * 9 { (l * 9 + k * 3 + c) as f32 } else if hot == l * 9 + k * 3 + c { 7. } else { 0. })).collect();
            let packed = simd::Triangle::pack(&ts);
            if packed.unpack() != ts {
                return run.fail(|| format!("unpack(pack({ts:?})) = {:?}", packed.unpack()));
            }
            for &m in &mats {
                let want: Vec<_> = ts.iter().map(|t| expect(t, m)).collect();
                let v = packed.transform(m).unpack();
                let s: Vec<_> = ts.iter().map(|t| t.transform(m)).collect();
                run.point(2);
                run.outcome(v[0].0[0][0].to_bits() as u64);
                if v != want || s != want {
                    return run.fail(|| format!("{ts:?} by {m:?}: simd {v:?}, scalar {s:?}, expected {want:?}"));
                }
            }
        }
        for n in 0..2 * lanes {
            let ts = vec![scalar::Triangle::default(); n];
            run.point(1);
            if panics(|| drop(simd::Triangle::pack(&ts))) != (n != lanes) {
                return run.fail(|| format!("pack of {n} triangles"));
            }
        }
    });
}

fn mandelbrot(e: &mut Engine) {
    use mandelbrot_lib::{Algorithm, Mandelbrot};
    fn model(w: usize, h: usize, xr: &Range<f64>, yr: &Range<f64>) -> Vec<u32> {
        let (dx, dy) = ((xr.end - xr.start) / w as f64, (yr.end - yr.start) / h as f64);
        let mut out = vec![];
        for i in 0..h {
            for j in 0..w {
                let (cx, cy) = (xr.start + dx * j as f64, yr.start + dy * i as f64);
                let (mut x, mut y) = (cx, cy);
                let mut n = 50;
                for it in 0..50 {
                    if x * x + y * y > 4.0 {
                        n = it;
                        break;
                    }
                    let nx = cx + (x * x - y * y);
                    y = cy + (x * y + x * y);
                    x = nx;
                }
                out.push(n);
            }
        }
        out
    }
    fn pbm(d: &[u32]) -> Vec<u8> {
        d.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &v)| a | ((v == 50) as u8) << (7 - i))).collect()
    }
    fn ppm(d: &[u32]) -> Vec<u8> {
        let col = [[0u8, 7, 100], [32, 107, 203], [237, 255, 255], [255, 170, 0], [0, 2, 0]];
        d.iter().flat_map(|&v| if v == 50 { [0; 3] } else { col[(v % 12 * 5 / 12) as usize] }).collect()
    }
    for (name, algo) in [("simd", Algorithm::Simd), ("scalar", Algorithm::Scalar)] {
        e.job(format!("mandelbrot {name}: images are released as they were allocated"), move |run| {
            for bw in 1..=3 {
                for h in 1..=3 {
                    let before = kernels::bad_frees();
                    drop(Mandelbrot::generate((bw * 8, h), algo));
                    run.point(1);
                    if kernels::bad_frees() != before {
                        return run.fail(|| format!("{}x{h}: memory of the image is released with a layout it was not allocated with", bw * 8));
                    }
                }
            }
        });
        e.job(format!("mandelbrot {name}: every small image of every region"), move |run| {
            let regions = [(-1.5..0.5, -1.0..1.0), (-2.0..2.0, -2.0..2.0), (-0.75..-0.25, 0.0..1.0), (0.25..0.5, -0.25..0.5), (-1.25..-1.0, -0.125..0.125)];
            for bw in 1..=(if run.level >= 2 { 8 } else { 3 }) {
                let w = bw * 8;
                for h in 1..=(if run.level >= 2 { 24 } else { 8 }) {
                    for (xr, yr) in &regions {
                        let want = model(w, h, xr, yr);
                        let img = Mandelbrot::generate_region((w, h), (xr.clone(), yr.clone()), algo);
                        let (mut a, mut b) = (vec![], vec![]);
                        img.output_pbm(&mut a).unwrap();
                        img.output_ppm(&mut b).unwrap();
                        drop(img);
                        run.point(2);
                        run.values((w * h) as u64);
                        run.outcome(hash_bytes(&b));
                        let mut wa = format!("P4\n{w} {h}\n").into_bytes();
                        wa.extend(pbm(&want));
                        let mut wb = format!("P6\n{w} {h} 255\n").into_bytes();
                        wb.extend(ppm(&want));
                        if a != wa || b != wb {
                            return run.fail(|| format!("{w}x{h} of {xr:?} {yr:?}: image differs from the definition (pbm equal: {}, ppm equal: {})", a == wa, b == wb));
                        }
                    }
                }
            }
            for w in 1..40usize {
                let r = catch(|| Mandelbrot::generate((w, 2), algo));
                run.point(1);
                if r.is_ok() != (name == "scalar" || w % 8 == 0) {
                    return run.fail(|| format!("width {w}: {}", if r.is_ok() { "accepted" } else { "panics" }));
                }
            }
        });
    }
}

mod ao {
    use aobench_lib::geometry::*;
    use aobench_lib::intersection::*;
    use aobench_lib::scene::Scene;
    use aobench_lib::*;
    use engine::*;

    /// A plane at y = -1/2 and a sphere behind the camera; the occlusion
    /// samples all leave along the normal, so every point of the plane is lit.
    #[derive(Clone)]
    pub struct Open {
        plane: Plane,
        spheres: [Sphere; 1],
    }
    fn v(x: f32, y: f32, z: f32) -> V3D {
        V3D { x, y, z }
    }
    impl Default for Open {
        fn default() -> Self {
            Open { plane: Plane { p: v(0., -0.5, 0.), n: v(0., 1., 0.) }, spheres: [Sphere { center: v(0., 0., 5.), radius: 0.5 }] }
        }
    }
    impl Scene for Open {
        const NAO_SAMPLES: usize = 8;
        fn rand(&mut self) -> f32 {
            0.
        }
        fn plane(&self) -> &Plane {
            &self.plane
        }
        fn spheres(&self) -> &[Sphere] {
            &self.spheres
        }
    }

    pub fn images(e: &mut Engine) {
        type R = fn(&mut Open, usize, &mut Image);
        let rs: [(&'static str, R); 6] = [
            ("scalar", scalar::ao::<Open>),
            ("scalar_parallel", scalar_parallel::ao::<Open>),
            ("vector", vector::ao::<Open>),
            ("vector_parallel", vector_parallel::ao::<Open>),
            ("tiled", tiled::ao::<Open>),
            ("tiled_parallel", tiled_parallel::ao::<Open>),
        ];
        for (name, f) in rs {
            e.job(format!("aobench {name}: every small image of an open plane"), move |run| {
                for bw in 1..=3usize {
                    let w = bw * 8;
                    for h in 1..=(if run.level >= 2 { 16 } else { 5 }) {
                        for ns in [1usize, 2, 4] {
                            let mut img = Image::new(w, h);
                            f(&mut Open::default(), ns, &mut img);
                            run.point(1);
                            run.values(img.fdata.len() as u64);
                            run.outcome(img.fdata[0].to_bits() as u64 + h as u64);
                            for y in 0..h {
                                // rows (in units of 1/ns) strictly below the horizon are lit
                                let lit = (0..ns).filter(|q| 2 * (y * ns + q) > h * ns).count();
                                let want = lit as f32 / ns as f32;
                                for i in 0..3 * w {
                                    let got = img.fdata[y * 3 * w + i];
                                    if (got - want).abs() > 1e-4 {
                                        return run.fail(|| format!("{w}x{h}, {ns} subsamples: pixel ({}, {y}) channel {} is {got}, expected {want}", i / 3, i % 3));
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
    }

    fn cube(vals: &[f32]) -> Vec<V3D> {
        let mut o = vec![];
        for &x in vals {
            for &y in vals {
                for &z in vals {
                    o.push(v(x, y, z));
                }
            }
        }
        o
    }
    fn pack(f: impl Fn(usize) -> V3D) -> V3DxN {
        let mut r = V3DxN::default();
        for l in 0..f32xN::lanes() {
            let q = f(l);
            r.x = r.x.replace(l, q.x);
            r.y = r.y.replace(l, q.y);
            r.z = r.z.replace(l, q.z);
        }
        r
    }
    fn near(a: V3D, b: V3D, t: f32) -> bool {
        let c = |a: f32, b: f32| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= t;
        c(a.x, b.x) && c(a.y, b.y) && c(a.z, b.z)
    }

    fn meets<P: std::fmt::Debug>(run: &Run, shapes: &[P], scalar: fn(&Ray, &P, Isect) -> Isect, packet: fn(&RayxN, &P, IsectxN) -> IsectxN) {
        let os = cube(&[-2., 0., 1.]);
        let ds = cube(&[-1., 0., 1., 2.]);
        let n = f32xN::lanes();
        let all: Vec<(V3D, V3D)> = os.iter().flat_map(|&o| ds.iter().map(move |&d| (o, d))).collect();
        let shifts: &[usize] = if run.level >= 2 { &[1, 3, 64, 65, 127, 577] } else { &[1, 65] };
        for s in shapes {
            for near_t in [1e17f32, 1.5, 0.25] {
                for &sh in shifts {
                    for i in 0..all.len() {
                        let at = |l: usize| all[(i + l * sh) % all.len()];
                        let rays = RayxN { origin: pack(|l| at(l).0), dir: pack(|l| at(l).1) };
                        let mut old = IsectxN::default();
                        for l in 0..n {
                            if l % 3 != 1 {
                                old.t = old.t.replace(l, near_t);
                                old.hit = old.hit.replace(l, near_t < 1e17);
                            }
                        }
                        let r = packet(&rays, s, old);
                        run.point(n as u64);
                        for l in 0..n {
                            let (o, d) = at(l);
                            let w = scalar(&Ray { origin: o, dir: d }, s, old.get(l));
                            let g = r.get(l);
                            run.outcome(g.t.to_bits() as u64);
                            if g.hit != w.hit || (g.t - w.t).abs() > 1e-5 * w.t.abs() || !near(g.p, w.p, 1e-4) || !near(g.n, w.n, 1e-3) {
                                return run.fail(|| format!("{s:?}, ray from {o:?} along {d:?} in lane {l}, previous {:?}: packet {g:?}, single ray {w:?}", old.get(l)));
                            }
                        }
                    }
                }
            }
        }
    }

    pub fn geometry(e: &mut Engine) {
        e.job("aobench ray packets meet spheres as single rays do", |run| {
            let mut shapes = vec![];
            for c in cube(&[-1., 2.]) {
                for radius in [1., 2.] {
                    shapes.push(Sphere { center: c, radius });
                }
            }
            meets(run, &shapes, |r, s, i| r.intersect(s, i), |r, s, i| r.intersect(s, i));
        });
        e.job("aobench ray packets meet planes as single rays do", |run| {
            let mut shapes = vec![];
            for n in cube(&[0., 1.]) {
                for p in cube(&[-1., 2.]) {
                    shapes.push(Plane { p, n });
                }
            }
            meets(run, &shapes, |r, s, i| r.intersect(s, i), |r, s, i| r.intersect(s, i));
        });
        e.job("aobench vector algebra of packets is lane-wise that of single vectors", |run| {
            let vs = cube(&[-2., -1., 0., 0.5, 3.]);
            for i in 0..vs.len() {
                for j in 0..vs.len() {
                    let a = |l: usize| vs[(i + l * 7) % vs.len()];
                    let b = |l: usize| vs[(j + l * 11) % vs.len()];
                    let (pa, pb) = (pack(a), pack(b));
                    let (cr, ad, mu, dt) = (pa.cross(pb), pa + pb, pa * pb, pa.dot(pb));
                    run.point(4);
                    for l in 0..f32xN::lanes() {
                        let (x, y) = (a(l), b(l));
                        run.outcome(dt.extract(l).to_bits() as u64);
                        if !near(cr.get(l), x.cross(y), 0.) || !near(ad.get(l), x + y, 0.) || !near(mu.get(l), x * y, 0.) || dt.extract(l) != x.dot(y) {
                            return run.fail(|| format!("{x:?}, {y:?} in lane {l}: cross {:?} sum {:?} product {:?} dot {}", cr.get(l), ad.get(l), mu.get(l), dt.extract(l)));
                        }
                    }
                }
                let a = |l: usize| vs[(i + l * 7) % vs.len()];
                let nz = |l: usize| if a(l) == V3D::default() { v(1., 0., 0.) } else { a(l) };
                let nn = pack(nz).normalized();
                let un = |l: usize| nz(l).normalized();
                let ob = pack(un).ortho_basis();
                run.point(2);
                for l in 0..f32xN::lanes() {
                    if !near(nn.get(l), un(l), 1e-3) {
                        return run.fail(|| format!("normalized({:?}) = {:?}", nz(l), nn.get(l)));
                    }
                    let w = un(l).ortho_basis();
                    for q in 0..3 {
                        if !near(ob[q].get(l), w[q], 1e-3) {
                            return run.fail(|| format!("basis vector {q} of {:?}: {:?}, single {:?}", un(l), ob[q].get(l), w[q]));
                        }
                    }
                }
            }
        });
        e.job("aobench vector random numbers are the scalar generator in every lane", |run| {
            let steps = if run.level >= 2 { 1u32 << 18 } else { 1 << 12 };
            let (vs, ss) = std::thread::spawn(move || {
                let mut g = random::vector::thread_rng();
                let vs: Vec<f32xN> = (0..steps).map(|_| g.gen()).collect();
                let mut g = random::scalar::thread_rng();
                (vs, (0..steps).map(|_| g.gen()).collect::<Vec<f32>>())
            })
            .join()
            .unwrap();
            // LFSR113 as published, seeded with the lane number
            for l in 0..=f32xN::lanes() {
                let x = if l == f32xN::lanes() { 1 } else { l as u32 };
                let mut z = [x, x ^ 0xbeef_f00d, x.rotate_left(16), x.swap_bytes()];
                for i in 0..steps as usize {
                    let b = [((z[0] << 6) ^ z[0]) >> 13, ((z[1] << 2) ^ z[1]) >> 27, ((z[2] << 13) ^ z[2]) >> 21, ((z[3] << 3) ^ z[3]) >> 12];
                    z = [((z[0] & !1) << 18) ^ b[0], ((z[1] & !7) << 2) ^ b[1], ((z[2] & !15) << 7) ^ b[2], ((z[3] & !127) << 13) ^ b[3]];
                    let w = f32::from_bits(0x3f80_0000 | (z[0] ^ z[1] ^ z[2] ^ z[3]) & 0x7f_ffff) - 1.;
                    let g = if l == f32xN::lanes() { ss[i] } else { vs[i].extract(l) };
                    run.point(1);
                    run.outcome(g.to_bits() as u64);
                    if g != w {
                        return run.fail(|| format!("lane {l}, step {i}: {g}, expected {w}"));
                    }
                }
            }
        });
    }
}

fn main() {
    let mut e = Engine::from_args("P21");
    matrix(&mut e);
    dot(&mut e);
    slice_sums(&mut e);
    options_sum(&mut e);
    fannkuch(&mut e);
    spectral(&mut e);
    nbody(&mut e);
    options(&mut e);
    stencil(&mut e);
    triangles(&mut e);
    mandelbrot(&mut e);
    ao::images(&mut e);
    ao::geometry(&mut e);
    e.finish()
}
