//! P09: floating-point reductions and iterator sums/products.
use harness::packed_simd::*;
use harness::*;

fn eps(w: u32) -> f64 {
    if w == 32 { f32::EPSILON as f64 } else { f64::EPSILON }
}
fn bounds(w: u32) -> (f64, f64) {
    if w == 32 { (f32::MAX as f64, f32::MIN_POSITIVE as f64) } else { (f64::MAX, f64::MIN_POSITIVE) }
}
fn inf(w: u32, neg: bool) -> Exp {
    let s = if neg { -1.0 } else { 1.0 };
    Exp::Bits(if w == 32 { f32b(f32::INFINITY.copysign(s as f32)) } else { f64b(f64::INFINITY.copysign(s)) })
}
/// Sum in *any* association: NaN iff a NaN or both infinities occur; otherwise
/// within the standard error bound of the exact sum.
fn sum_exp(w: u32, xs: &[f64]) -> Exp {
    if xs.iter().any(|x| x.is_nan()) {
        return Exp::Nan;
    }
    let (pi, ni) = (xs.contains(&f64::INFINITY), xs.contains(&f64::NEG_INFINITY));
    let fin: f64 = xs.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
    let (max, _) = bounds(w);
    if fin > max * 0.99 {
        return Exp::Any; // intermediate overflow depends on the association
    }
    match (pi, ni) {
        (true, true) => return Exp::Nan,
        (true, false) => return inf(w, false),
        (false, true) => return inf(w, true),
        _ => {}
    }
    // small integers: exact in every association
    if xs.iter().all(|x| x.fract() == 0.0) && fin < 16777216.0 {
        return Exp::Near(xs.iter().sum(), 0.0);
    }
    // compensated f64 sum as the reference
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for x in xs {
        let t = s + x;
        c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
        s = t;
    }
    Exp::Near(s + c, 2.0 * xs.len() as f64 * eps(w) * fin)
}
fn prod_exp(w: u32, xs: &[f64]) -> Exp {
    if xs.iter().any(|x| x.is_nan()) {
        return Exp::Nan;
    }
    let zero = xs.contains(&0.0);
    let infy = xs.iter().any(|x| x.is_infinite());
    if zero && infy {
        return Exp::Nan;
    }
    let (max, minp) = bounds(w);
    let neg = xs.iter().filter(|x| x.is_sign_negative()).count() % 2 == 1;
    // worst magnitudes reachable in any association
    let big: f64 = xs.iter().filter(|x| x.is_finite()).map(|x| x.abs().log2().max(0.0)).sum();
    let small: f64 = xs.iter().filter(|x| **x != 0.0 && x.is_finite()).map(|x| x.abs().log2().min(0.0)).sum();
    if zero && big <= max.log2() - 1.0 {
        // a signed zero in every association
        return Exp::Bits(if neg { 1u128 << (w - 1) } else { 0 });
    }
    if big > max.log2() - 1.0 || small < minp.log2() + 1.0 {
        return Exp::Any;
    }
    if infy {
        return inf(w, neg);
    }
    let r: f64 = xs.iter().product();
    Exp::Near(r, 2.0 * xs.len() as f64 * eps(w) * r.abs())
}
fn pick(w: u32, v: &[u128], less: bool) -> Exp {
    let xs: Vec<(u128, f64)> = v.iter().map(|b| (*b, f_val(w, *b))).filter(|x| !x.1.is_nan()).collect();
    if xs.is_empty() {
        return Exp::Nan;
    }
    let mut best = xs[0];
    for x in &xs {
        if (x.1 < best.1) == less && x.1 != best.1 {
            best = *x;
        }
    }
    if best.1 == 0.0 {
        // sign of a zero extremum: any zero present in the vector
        let z: Vec<u128> = xs.iter().filter(|x| x.1 == 0.0).map(|x| x.0).collect();
        return Exp::Either(*z.iter().min().unwrap(), *z.iter().max().unwrap());
    }
    Exp::Bits(best.0)
}
fn model(kk: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let xs: Vec<f64> = v.iter().map(|b| f_val(kk.w, *b)).collect();
    vec![
        (0, kk, vec![sum_exp(kk.w, &xs)]),
        (1, kk, vec![prod_exp(kk.w, &xs)]),
        (2, kk, vec![pick(kk.w, v, true)]),
        (3, kk, vec![pick(kk.w, v, false)]),
    ]
}

fn main() {
    let mut e = Engine::from_args("P09");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::F, $w);
                let f = w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sum()); st(o, 1, a.product()); st(o, 2, a.min_element()); st(o, 3, a.max_element()); });
                e.whole1(format!("{}/reductions", stringify!($v)), kk, $n, f, model);
                // small-integer lanes: the sum and product are exact, so every
                // lane must be counted exactly once
                e.job(format!("{}/exact reductions", stringify!($v)), move |run| {
                    let vals: Vec<u128> = [1.0, 2.0, 0.0, -1.0, 3.0, 5.0, 0.5, -2.0].iter().map(|x| if $w == 32 { f32b(*x as f32) } else { f64b(*x) }).collect();
                    let mut inp = Block::new();
                    let mut out = Block::new();
                    let bud = [4_000, 20_000, 200_000, 2_000_000][run.level.min(3) as usize];
                    for_each_vec_of(&vals, kk, $n, bud, &mut |l| {
                        for j in 0..$n { inp.put(0, kk.bytes(), j, l[j]); }
                        f(inp.0.as_ptr(), out.0.as_mut_ptr());
                        run.point(4);
                        run.outcome(hash_bytes(&out.0[..8]));
                        for (s, ko, ex) in model(kk, l) {
                            let a = out.get(s, ko.bytes(), 0);
                            if !ex[0].ok(ko, a) {
                                run.fail(|| format!("lanes {:?}: {} is {} expected {}", l.iter().map(|x| f_val($w, *x)).collect::<Vec<_>>(), ["sum", "product", "min_element", "max_element"][s], show(ko, a), ex[0].show(ko)));
                                return false;
                            }
                        }
                        true
                    });
                });
                e.job(format!("{}/iter sum and product", stringify!($v)), |run| {
                    let base: [[$s; 4]; 4] = [[1.0, 2.0, -3.0, 0.5], [0.0, -1.0, 4.0, 8.0], [0.25, 16.0, -0.5, 3.0], [7.0, -2.0, 1.0, 0.0]];
                    let choices: Vec<[$s; $n]> = (0..4usize).map(|t| { let mut a = [0 as $s; $n]; for j in 0..$n { a[j] = base[(t + j / 4) % 4][j % 4]; } a }).collect();
                    for len in 0..=4usize {
                        let mut idx = vec![0usize; len];
                        'o: loop {
                            let vs: Vec<$v> = idx.iter().map(|i| unsafe { std::ptr::read_unaligned(choices[*i].as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for i in &idx { for j in 0..$n { ws[j] += choices[*i][j]; wp[j] *= choices[*i][j]; } }
                            let r: [$v; 4] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().product(), vs.iter().cloned().product()];
                            run.point(4);
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 2 { ws } else { wp };
                                run.outcome(got[0].to_bits() as u64);
                                // all values are small dyadic rationals: exact
                                if got != want {
                                    run.fail(|| format!("{} over vectors {:?}: {:?} expected {:?}", ["sum of refs", "sum", "product of refs", "product"][t], idx.iter().map(|i| choices[*i]).collect::<Vec<_>>(), got, want));
                                    return;
                                }
                            }
                            let mut i = 0;
                            loop {
                                if i == len { break 'o; }
                                idx[i] += 1;
                                if idx[i] < choices.len() { break; }
                                idx[i] = 0;
                                i += 1;
                            }
                        }
                    }
                });
                // longer iterators: every length up to 70, every position of a
                // distinguished item, sized and unsized iterators
                e.job(format!("{}/long iterators", stringify!($v)), |run| {
                    
                    let maxlen = [20usize, 36, 70, 140][run.level.min(3) as usize];
                    for len in 0..=maxlen {
                        for mark in 0..=len {
                            let items: Vec<[$s; $n]> = (0..len).map(|i| {
                                let mut a = [0 as $s; $n];
                                for j in 0..$n { a[j] = if i == mark { [3 as $s, 5 as $s][j % 2] } else { [1.0, 2.0, -1.0, 0.5, -2.0, 1.0, -0.5][(i + j) % 7] }; }
                                a
                            }).collect();
                            let vs: Vec<$v> = items.iter().map(|a| unsafe { std::ptr::read_unaligned(a.as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for c in &items { for j in 0..$n { ws[j] += c[j]; wp[j] *= c[j]; } }
                            let r: [$v; 6] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().filter(|_| true).sum(),
                                vs.iter().product(), vs.iter().cloned().product(), vs.iter().cloned().filter(|_| true).product()];
                            run.point(6);
                            run.values(6 * ($n - 1));
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 3 { ws } else { wp };
                                run.outcome(hash_bytes(unsafe { std::slice::from_raw_parts(x as *const $v as *const u8, std::mem::size_of::<$v>()) }));
                                if got != want {
                                    run.fail(|| format!("{} of {len} vectors {items:?}: {got:?} expected {want:?}", ["sum of refs", "sum", "sum of filtered refs", "product of refs", "product", "product of filtered"][t]));
                                    return;
                                }
                            }
                        }
                    }
                });
                // long iterators: lengths around every power of two
                e.job(format!("{}/very long iterators", stringify!($v)), |run| {
                    let top = [8u32, 10, 12, 16][run.level.min(3) as usize];
                    let mut lens = vec![];
                    for b in 5..=top { lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1, 3 << (b - 1)]); }
                    lens.extend([100, 1000]);
                    for len in lens {
                        for mark in [0, 1, len / 2, len - 2, len - 1] {
                            let items: Vec<[$s; $n]> = (0..len).map(|i| {
                                let mut a = [1 as $s; $n];
                                for j in 0..$n { if i == mark { a[j] = [3 as $s, 5 as $s][j % 2]; } else if i % 3 == 0 { a[j] = -1.0; } }
                                a
                            }).collect();
                            let vs: Vec<$v> = items.iter().map(|a| unsafe { std::ptr::read_unaligned(a.as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for c in &items { for j in 0..$n { ws[j] += c[j]; wp[j] *= c[j]; } }
                            let r: [$v; 6] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().filter(|_| true).sum(),
                                vs.iter().product(), vs.iter().cloned().product(), vs.iter().cloned().filter(|_| true).product()];
                            run.point(6);
                            run.values(6 * ($n - 1));
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 3 { ws } else { wp };
                                run.outcome(hash_bytes(unsafe { std::slice::from_raw_parts(x as *const $v as *const u8, std::mem::size_of::<$v>()) }));
                                if got != want {
                                    run.fail(|| format!("{} of {len} vectors of ones and minus ones, item {mark} being 3s and 5s: {got:?} expected {want:?}", ["sum of refs", "sum", "sum of filtered refs", "product of refs", "product", "product of filtered"][t]));
                                    return;
                                }
                            }
                        }
                    }
                });
            }
            reg(&mut e);
        }};
    }
    floats!(ty);
    e.note("sum/product accepted in any association; exact on small-integer lanes; NaN/infinity propagation exact; min/max_element ignore NaN lanes unless all are NaN");
    e.finish()
}
