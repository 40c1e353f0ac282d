//! P05: elementary functions and estimates: each lane approximates the real
//! function of that lane, whatever the other lanes hold.
use harness::packed_simd::*;
use harness::*;

fn lims(w: u32) -> (f64, f64) {
    // (MAX, MIN_POSITIVE)
    if w == 32 {
        (f32::MAX as f64, f32::MIN_POSITIVE as f64)
    } else {
        (f64::MAX, f64::MIN_POSITIVE)
    }
}
/// distance between neighbouring values of width w around r
fn ulp(w: u32, r: f64) -> f64 {
    let (emin, m) = if w == 32 { (-126, 23) } else { (-1022, 52) };
    let e = if r == 0.0 { emin } else { ((r.abs().to_bits() >> 52) as i32 - 1023).max(emin) };
    if w == 64 && e - m < -1022 {
        return f64::from_bits(1);
    }
    2f64.powi(e - m)
}
const ULPS: f64 = 4.0;

/// "within a few ulp of r"; `exact`: a zero result must have r's sign
fn approx(w: u32, r: f64, exact: bool) -> Exp {
    let (max, _) = lims(w);
    if r.is_nan() {
        return Exp::Nan;
    }
    if r == 0.0 && exact {
        return Exp::Bits(if w == 32 { f32b(r as f32) } else { f64b(r) });
    }
    if r.is_infinite() || r.abs() > max * (1.0 - 1e-6) {
        if r.is_infinite() || r.abs() > 1.000001 * max {
            let i = if w == 32 { f32b(f32::INFINITY.copysign(r as f32)) } else { f64b(f64::INFINITY.copysign(r)) };
            return Exp::Bits(i);
        }
        return Exp::Any; // straddles the overflow threshold
    }
    Exp::Near(r, ULPS * ulp(w, r))
}
fn arg(k: K, b: u128) -> f64 {
    f_val(k.w, b)
}
fn special(x: f64) -> bool {
    x == 0.0 || x.is_infinite() || x.abs() == 1.0
}
macro_rules! exact_fn {
    ($($name:ident)*) => { $(
        fn $name(k: K, _: K, t: &[u128; 3]) -> Exp {
            let x = arg(k, t[0]);
            approx(k.w, x.$name(), special(x))
        }
    )* };
}
exact_fn!(sin cos exp ln tanh);
fn powf(k: K, _: K, t: &[u128; 3]) -> Exp {
    let (x, y) = (arg(k, t[0]), arg(k, t[1]));
    approx(k.w, x.powf(y), special(x) || special(y))
}
/// sin(pi x) or cos(pi x): near the exact value, or near the function of the
/// once-rounded product x * PI, or between the two.
fn trig_pi(k: K, x: f64, cosine: bool) -> Exp {
    if x.is_nan() || x.is_infinite() {
        return Exp::Nan;
    }
    let f = |y: f64| if cosine { y.cos() } else { y.sin() };
    // exact: x mod 2 is exact, and so is the folding to [-1/4, 1/4]
    let mut r = x % 2.0;
    if r > 1.0 { r -= 2.0 } else if r < -1.0 { r += 2.0 }
    let p = std::f64::consts::PI;
    let e = if cosine {
        let a = r.abs();
        if a <= 0.25 { (a * p).cos() } else if a <= 0.75 { ((0.5 - a) * p).sin() } else { -((1.0 - a) * p).cos() }
    } else {
        let a = r.abs();
        let v = if a <= 0.25 { (a * p).sin() } else if a <= 0.75 { ((0.5 - a) * p).cos() } else { ((1.0 - a) * p).sin() };
        v.copysign(v * r)
    };
    let y = if k.w == 32 { (x as f32 * std::f32::consts::PI) as f64 } else { x * p };
    if !y.is_finite() {
        // the product overflows: NaN, or the exact value from a better method
        return Exp::NearOrNan(e, ULPS * ulp(k.w, e));
    }
    if x == 0.0 {
        return approx(k.w, f(y), true);
    }
    let g = f(y);
    let (lo, hi) = (e.min(g), e.max(g));
    let tol = ULPS * ulp(k.w, lo.abs().max(hi.abs()));
    if hi - lo > 0.1 {
        // far apart (huge arguments): only the neighbourhoods of the two
        return Exp::Near2(e, g, tol);
    }
    let (lo, hi) = (lo - ULPS * ulp(k.w, lo), hi + ULPS * ulp(k.w, hi));
    Exp::Near(lo / 2.0 + hi / 2.0, (hi - lo) / 2.0 * (1.0 + 1e-9))
}
fn sin_pi(k: K, _: K, t: &[u128; 3]) -> Exp {
    trig_pi(k, arg(k, t[0]), false)
}
fn cos_pi(k: K, _: K, t: &[u128; 3]) -> Exp {
    trig_pi(k, arg(k, t[0]), true)
}
/// estimates: relative error below 2^-10, inputs whose result is normal
fn est(k: K, r: f64) -> Exp {
    let (max, minp) = lims(k.w);
    if r.is_nan() || r.is_infinite() || r.abs() > max * 0.9 || r.abs() < minp * 2.0 {
        return Exp::Any;
    }
    Exp::Near(r, r.abs() / 1024.0)
}
fn normal(k: K, x: f64) -> bool {
    x.abs() >= lims(k.w).1 && x.is_finite()
}
fn recpre(k: K, _: K, t: &[u128; 3]) -> Exp {
    let x = arg(k, t[0]);
    if normal(k, x) { est(k, 1.0 / x) } else { Exp::Any }
}
fn rsqrte(k: K, _: K, t: &[u128; 3]) -> Exp {
    let x = arg(k, t[0]);
    if normal(k, x) && x > 0.0 { est(k, 1.0 / x.sqrt()) } else { Exp::Any }
}
fn sqrte(k: K, _: K, t: &[u128; 3]) -> Exp {
    let x = arg(k, t[0]);
    if normal(k, x) && x > 0.0 { est(k, x.sqrt()) } else { Exp::Any }
}

/// The same lane value must give the same result in every lane position and
/// beside every neighbour (checked against the splat of that value).
fn independent(e: &mut Engine, id: String, kk: K, n: usize, f: F, outs: usize) {
    e.job(id, move |run| {
        let al = float_values(kk.w, if run.level >= 2 { 2 } else { 1 });
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), 64);
        // splat results
        let mut res: Vec<Vec<u128>> = vec![];
        for &a in &al {
            for j in 0..n {
                inp.put(0, kk.bytes(), j, a);
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(1);
            run.values((n * outs) as u64 - 1);
            run.outcome(hash_bytes(&out.0[..64]));
            res.push((0..outs).map(|s| out.get(s, kk.bytes(), 0)).collect());
        }
        for stride in [1usize, 5, 11] {
            for b in 0..al.len() {
                for j in 0..n {
                    inp.put(0, kk.bytes(), j, al[(b + j * stride) % al.len()]);
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.point(1);
                for s in 0..outs {
                    for j in 0..n {
                        let want = res[(b + j * stride) % al.len()][s];
                        let got = out.get(s, kk.bytes(), j);
                        let ok = got == want || (f_is_nan(kk.w, got) && f_is_nan(kk.w, want))
                            || (f_val(kk.w, got) - f_val(kk.w, want)).abs() <= 2.0 * ULPS * ulp(kk.w, f_val(kk.w, want));
                        if !ok {
                            let x = al[(b + j * stride) % al.len()];
                            run.fail(|| format!("function #{s} of {} is {} in lane {j} of a mixed vector but {} in a uniform one", show(kk, x), show(kk, got), show(kk, want)));
                            return;
                        }
                    }
                }
            }
        }
    });
}

/// Dense sweep of a unary function: the whole bit-pattern range of the lane
/// type on a fixed lattice (even points: low bits zero; odd points: low bits
/// from a multiplicative lattice).
fn sweep(e: &mut Engine, id: String, kk: K, n: usize, f: F, model: fn(K, K, &[u128; 3]) -> Exp) {
    e.job(id, move |run| {
        let bits = match (kk.w, run.level) {
            (32, 0) | (64, 0) => 12,
            (32, 1) => 19,
            (32, 2) => 25,
            (32, _) => 30,
            (_, 1) => 18,
            (_, 2) => 23,
            _ => 24,
        };
        let low = kk.w - bits;
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), 64);
        let mut x = [0u128; 64];
        let mut i = 0u64;
        while i < 1 << bits {
            for j in 0..n {
                let c = i + j as u64;
                let h = c.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                let fill = (h ^ h >> 29) & ((1u64 << low) - 1);
                x[j] = ((c << low) | if c & 1 == 0 { 0 } else { fill }) as u128 & kk.mask();
                inp.put(0, kk.bytes(), j, x[j]);
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(1);
            run.values(n as u64 - 1);
            if i & 1023 == 0 {
                run.outcome(hash_bytes(&out.0[..64]));
            }
            for j in 0..n {
                let e = model(kk, kk, &[x[j], 0, 0]);
                let got = out.get(0, kk.bytes(), j);
                if !e.ok(kk, got) {
                    run.fail(|| format!("argument {} in lane {j}: got {} expected {}", show(kk, x[j]), show(kk, got), e.show(kk)));
                    return;
                }
            }
            i += n as u64;
        }
    });
}

/// arguments where the functions change regime
fn landmarks(w: u32) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    let nb = |v: &mut Vec<u128>, x: f64| {
        for s in [x, -x] {
            let b = if w == 32 { f32b(s as f32) } else { f64b(s) };
            v.extend([b, b + 1, b.wrapping_sub(1) & wmask(w), b + 3]);
        }
    };
    let pi = std::f64::consts::PI;
    for i in 1..=16 {
        nb(&mut v, i as f64 * pi / 4.0);
        nb(&mut v, i as f64 / 4.0);
        nb(&mut v, i as f64);
    }
    for i in 0..60 {
        nb(&mut v, pi * 2f64.powi(i));
        nb(&mut v, 2f64.powi(i) + 0.5);
        nb(&mut v, 1.0 + 2f64.powi(-i / 2));
        nb(&mut v, 1.0 - 2f64.powi(-i / 2 - 1));
        nb(&mut v, i as f64 * 1.7 + 0.3);
        nb(&mut v, i as f64 * 12.7 + 0.3);
        nb(&mut v, 0.5 - 2f64.powi(-i / 2 - 2));
        nb(&mut v, 0.5 + 2f64.powi(-i / 2 - 2));
    }
    let l2 = std::f64::consts::LN_2;
    for x in [l2, 88.0, 88.72, 88.73, 87.33, 103.2, 103.98, 709.0, 709.78, 709.79, 708.4, 744.4, 745.13, 745.2, 9.01, 9.1, 20.0, 22.0, 0.625, 1.0 / 3.0, 10.0, 100.0, 1e22, 16777215.0, 16777216.0, 9007199254740991.0, 0.1, 0.7, 1e-5, 1e-3, 2.718281828459045] {
        nb(&mut v, x);
    }
    v
}
fn un_alpha(_: usize, k: K, lv: u32, _: usize) -> Vec<u128> {
    let mut v = float_values(k.w, lv.min(2));
    if lv >= 1 {
        v.extend(landmarks(k.w));
    }
    v.sort();
    v.dedup();
    v
}
fn pow_alpha(_: usize, k: K, lv: u32, _: usize) -> Vec<u128> {
    let mut v = float_values(k.w, if lv >= 2 { 1 } else { 0 });
    let f = |x: f64| if k.w == 32 { f32b(x as f32) } else { f64b(x) };
    for x in [1.0, 2.0, 3.0, 4.0, 5.0, 0.5, 0.25, 1.5, 0.1, 0.9, 1.1, 10.0, 100.0, 16777215.0, 16777217.0, 4503599627370497.0, 1.0 / 3.0, 127.5, 0.9999, 1.0001, 1023.0, -126.0, 149.0] {
        v.push(f(x));
        v.push(f(-x));
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let mut e = Engine::from_args("P05");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::F, $w);
                macro_rules! un {
                    ($name:ident) => {
                        e.lw_alpha(format!("{}/{}", stringify!($v), stringify!($name)), &[(kk, A::V)], kk, $n, 1,
                            w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.$name()); }), always, $name, un_alpha);
                        sweep(e, format!("{}/{} sweep", stringify!($v), stringify!($name)), kk, $n,
                            w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.$name()); }), $name);
                    };
                }
                un!(sin); un!(cos); un!(exp); un!(ln); un!(tanh); un!(sin_pi); un!(cos_pi); un!(recpre); un!(rsqrte); un!(sqrte);
                e.lw_alpha(format!("{}/sin_cos_pi.0", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sin_cos_pi().0); }), always, sin_pi, un_alpha);
                e.lw_alpha(format!("{}/sin_cos_pi.1", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sin_cos_pi().1); }), always, cos_pi, un_alpha);
                sweep(e, format!("{}/sin_cos_pi.0 sweep", stringify!($v)), kk, $n, w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sin_cos_pi().0); }), sin_pi);
                sweep(e, format!("{}/sin_cos_pi.1 sweep", stringify!($v)), kk, $n, w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sin_cos_pi().1); }), cos_pi);
                e.lw_alpha(format!("{}/powf", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.powf(b)); }), always, powf, pow_alpha);
                independent(e, format!("{}/lane independence", stringify!($v)), kk, $n,
                    w!(|p, o| { let a: $v = ld(p, 0);
                        st(o, 0, a.sin()); st(o, 1, a.cos()); st(o, 2, a.exp()); st(o, 3, a.ln()); st(o, 4, a.tanh());
                        st(o, 5, a.recpre()); st(o, 6, a.rsqrte()); st(o, 7, a.sqrte()); }), 8);
                independent(e, format!("{}/lane independence of pi forms", stringify!($v)), kk, $n,
                    w!(|p, o| { let a: $v = ld(p, 0); let (s, c) = a.sin_cos_pi();
                        st(o, 0, a.sin_pi()); st(o, 1, a.cos_pi()); st(o, 2, s); st(o, 3, c);
                        st(o, 4, a.powf($v::splat(1.5))); st(o, 5, $v::splat(1.5).powf(a)); }), 6);
            }
            reg(&mut e);
        }};
    }
    floats!(ty);
    e.note("tolerance: 4 ulp of the result; for the pi forms the rounding of x * PI is allowed on top; estimates 2^-10 relative on normal results");
    e.finish()
}
