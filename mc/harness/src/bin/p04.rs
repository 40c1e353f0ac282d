//! P04: floating-point lane arithmetic (IEEE-754), min/max, fused multiply-add,
//! classification, constants.
use harness::packed_simd::*;
use harness::*;

fn bin(k: K, t: &[u128; 3], f: fn(f32, f32) -> f32, g: fn(f64, f64) -> f64) -> Exp {
    if k.w == 32 {
        let r = f(f32::from_bits(t[0] as u32), f32::from_bits(t[1] as u32));
        if r.is_nan() {
            Exp::Nan
        } else {
            Exp::Bits(f32b(r))
        }
    } else {
        let r = g(f64::from_bits(t[0] as u64), f64::from_bits(t[1] as u64));
        if r.is_nan() {
            Exp::Nan
        } else {
            Exp::Bits(f64b(r))
        }
    }
}
fn add(k: K, _: K, t: &[u128; 3]) -> Exp {
    bin(k, t, |a, b| a + b, |a, b| a + b)
}
fn sub(k: K, _: K, t: &[u128; 3]) -> Exp {
    bin(k, t, |a, b| a - b, |a, b| a - b)
}
fn mul(k: K, _: K, t: &[u128; 3]) -> Exp {
    bin(k, t, |a, b| a * b, |a, b| a * b)
}
fn div(k: K, _: K, t: &[u128; 3]) -> Exp {
    bin(k, t, |a, b| a / b, |a, b| a / b)
}
fn rem(k: K, _: K, t: &[u128; 3]) -> Exp {
    bin(k, t, |a, b| a % b, |a, b| a % b)
}
fn minmax(k: K, t: &[u128; 3], want_less: bool) -> Exp {
    let (a, b) = (f_val(k.w, t[0]), f_val(k.w, t[1]));
    match (a.is_nan(), b.is_nan()) {
        (true, true) => Exp::Nan,
        (true, false) => Exp::Bits(t[1]),
        (false, true) => Exp::Bits(t[0]),
        _ if a == b => Exp::Either(t[0], t[1]),
        _ => Exp::Bits(if (a < b) == want_less { t[0] } else { t[1] }),
    }
}
fn min(k: K, _: K, t: &[u128; 3]) -> Exp {
    minmax(k, t, true)
}
fn max(k: K, _: K, t: &[u128; 3]) -> Exp {
    minmax(k, t, false)
}
fn un(k: K, t: &[u128; 3], f: fn(f32) -> f32, g: fn(f64) -> f64) -> Exp {
    if f_is_nan(k.w, t[0]) {
        return Exp::Nan;
    }
    if k.w == 32 {
        let r = f(f32::from_bits(t[0] as u32));
        if r.is_nan() {
            Exp::Nan
        } else {
            Exp::Bits(f32b(r))
        }
    } else {
        let r = g(f64::from_bits(t[0] as u64));
        if r.is_nan() {
            Exp::Nan
        } else {
            Exp::Bits(f64b(r))
        }
    }
}
fn neg(k: K, _: K, t: &[u128; 3]) -> Exp {
    un(k, t, |a| -a, |a| -a)
}
fn abs(k: K, _: K, t: &[u128; 3]) -> Exp {
    un(k, t, |a| a.abs(), |a| a.abs())
}
fn sqrt(k: K, _: K, t: &[u128; 3]) -> Exp {
    un(k, t, |a| a.sqrt(), |a| a.sqrt())
}
fn fused(k: K, t: &[u128; 3]) -> u128 {
    if k.w == 32 {
        let v: Vec<f32> = t.iter().map(|x| f32::from_bits(*x as u32)).collect();
        f32b(v[0].mul_add(v[1], v[2]))
    } else {
        let v: Vec<f64> = t.iter().map(|x| f64::from_bits(*x as u64)).collect();
        f64b(v[0].mul_add(v[1], v[2]))
    }
}
fn unfused(k: K, t: &[u128; 3]) -> u128 {
    if k.w == 32 {
        let v: Vec<f32> = t.iter().map(|x| f32::from_bits(*x as u32)).collect();
        f32b(v[0] * v[1] + v[2])
    } else {
        let v: Vec<f64> = t.iter().map(|x| f64::from_bits(*x as u64)).collect();
        f64b(v[0] * v[1] + v[2])
    }
}
fn mul_add(k: K, _: K, t: &[u128; 3]) -> Exp {
    let r = fused(k, t);
    if f_is_nan(k.w, r) {
        Exp::Nan
    } else {
        Exp::Bits(r)
    }
}
fn mul_adde(k: K, _: K, t: &[u128; 3]) -> Exp {
    let (a, b) = (fused(k, t), unfused(k, t));
    match (f_is_nan(k.w, a), f_is_nan(k.w, b)) {
        (true, true) => Exp::Nan,
        (false, false) => Exp::Either(a, b),
        (true, false) => Exp::NearOrNan(f_val(k.w, b), 0.0),
        (false, true) => Exp::NearOrNan(f_val(k.w, a), 0.0),
    }
}
fn boolmask(o: K, b: bool) -> Exp {
    Exp::Bits(if b { o.mask() } else { 0 })
}
fn is_nan(k: K, o: K, t: &[u128; 3]) -> Exp {
    boolmask(o, f_is_nan(k.w, t[0]))
}
fn is_inf(k: K, o: K, t: &[u128; 3]) -> Exp {
    boolmask(o, f_val(k.w, t[0]).is_infinite())
}
fn is_fin(k: K, o: K, t: &[u128; 3]) -> Exp {
    boolmask(o, f_val(k.w, t[0]).is_finite())
}

macro_rules! op {
    ($e:ident $v:ident $s:ident $k:ident $n:literal $name:ident $op:tt $aop:tt) => {
        $e.lw(format!("{}/{} vec,vec", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::V)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), always, $name);
        $e.lw(format!("{}/{} vec,scalar", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::S)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $s) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), always, $name);
        $e.lw(format!("{}/{} scalar,vec", stringify!($v), stringify!($name)), &[($k, A::S), ($k, A::V)], $k, $n, 1,
            w!(|p, o| { let (a, b): ($s, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); }), always, $name);
    };
}

/// level 3: every one of the 2^32 single-precision values in every job.
/// `f` maps 64 bytes of lanes to up to 6 result slots; `r` is the model.
fn sweep32(e: &mut Engine, id: String, n: usize, f: F, outs: usize, r: fn(u32, usize) -> (u32, bool)) {
    for part in 0..16u64 {
        e.job(format!("{id} part {part}/16"), move |run| {
            if run.level < 3 {
                run.point(0);
                run.outcome(1);
                return;
            }
            let mut inp = Block::new();
            let mut out = Block::new();
            crumb(inp.0.as_ptr(), 64);
            let lo = part << 28;
            let mut x = lo;
            while x < lo + (1 << 28) {
                for j in 0..n {
                    inp.0[4 * j..4 * j + 4].copy_from_slice(&((x as u32) + j as u32).to_le_bytes());
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                for s in 0..outs {
                    for j in 0..n {
                        let v = x as u32 + j as u32;
                        let o = 64 * s + 4 * j;
                        let got = u32::from_le_bytes([out.0[o], out.0[o + 1], out.0[o + 2], out.0[o + 3]]);
                        let (want, nan) = r(v, s);
                        let ok = if nan { f32::from_bits(got).is_nan() } else { got == want };
                        // signalling NaN inputs: only NaN-ness is specified
                        if !ok {
                            run.fail(|| format!("input lane {:?}({v:#010x}) result{s}: got {:?}({got:#010x}) expected {}", f32::from_bits(v), f32::from_bits(got), if nan { "NaN".to_string() } else { format!("{:?}({want:#010x})", f32::from_bits(want)) }));
                            return;
                        }
                    }
                }
                run.point(outs as u64);
                run.values((outs * (n - 1)) as u64);
                run.outcome(hash_bytes(&out.0[..64]));
                x += n as u64;
            }
        });
    }
}
fn sweep_model(v: u32, s: usize) -> (u32, bool) {
    let x = f32::from_bits(v);
    let fl = |r: f32| (r.to_bits(), r.is_nan());
    let bm = |b: bool| (if b { !0 } else { 0 }, false);
    match s {
        0 => fl(x.abs()),
        1 => fl(-x),
        2 => fl(x.sqrt()),
        3 => bm(x.is_nan()),
        4 => bm(x.is_infinite()),
        5 => bm(x.is_finite()),
        6 => fl(x + 1.5),
        _ => fl(x * 3.0),
    }
}

fn main() {
    let mut e = Engine::from_args("P04");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::F, $w);
                let mk = k(C::M, $w);
                op!(e $v $s kk $n add + +=);
                op!(e $v $s kk $n sub - -=);
                op!(e $v $s kk $n mul * *=);
                op!(e $v $s kk $n div / /=);
                op!(e $v $s kk $n rem % %=);
                e.lw(format!("{}/min", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.min(b)); }), always, min);
                e.lw(format!("{}/max", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.max(b)); }), always, max);
                e.lw(format!("{}/neg", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, -a); }), always, neg);
                e.lw(format!("{}/abs", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.abs()); }), always, abs);
                e.lw(format!("{}/sqrt", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.sqrt()); }), always, sqrt);
                e.lw(format!("{}/mul_add", stringify!($v)), &[(kk, A::V), (kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b, c): ($v, $v, $v) = (ld(p, 0), ld(p, 1), ld(p, 2)); st(o, 0, a.mul_add(b, c)); }), always, mul_add);
                e.lw(format!("{}/mul_adde", stringify!($v)), &[(kk, A::V), (kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b, c): ($v, $v, $v) = (ld(p, 0), ld(p, 1), ld(p, 2)); st(o, 0, a.mul_adde(b, c)); }), always, mul_adde);
                e.lw(format!("{}/is_nan", stringify!($v)), &[(kk, A::V)], mk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.is_nan()); }), always, is_nan);
                e.lw(format!("{}/is_infinite", stringify!($v)), &[(kk, A::V)], mk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.is_infinite()); }), always, is_inf);
                e.lw(format!("{}/is_finite", stringify!($v)), &[(kk, A::V)], mk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.is_finite()); }), always, is_fin);
                e.job(format!("{}/constants", stringify!($v)), |run| {
                    use std::$s::consts as sc;
                    let cs: [(&str, $v, $s); 22] = [
                        ("EPSILON", $v::EPSILON, $s::EPSILON), ("MIN", $v::MIN, $s::MIN), ("MIN_POSITIVE", $v::MIN_POSITIVE, $s::MIN_POSITIVE),
                        ("MAX", $v::MAX, $s::MAX), ("INFINITY", $v::INFINITY, $s::INFINITY), ("NEG_INFINITY", $v::NEG_INFINITY, $s::NEG_INFINITY),
                        ("PI", $v::PI, sc::PI), ("FRAC_PI_2", $v::FRAC_PI_2, sc::FRAC_PI_2), ("FRAC_PI_3", $v::FRAC_PI_3, sc::FRAC_PI_3),
                        ("FRAC_PI_4", $v::FRAC_PI_4, sc::FRAC_PI_4), ("FRAC_PI_6", $v::FRAC_PI_6, sc::FRAC_PI_6), ("FRAC_PI_8", $v::FRAC_PI_8, sc::FRAC_PI_8),
                        ("FRAC_1_PI", $v::FRAC_1_PI, sc::FRAC_1_PI), ("FRAC_2_PI", $v::FRAC_2_PI, sc::FRAC_2_PI), ("FRAC_2_SQRT_PI", $v::FRAC_2_SQRT_PI, sc::FRAC_2_SQRT_PI),
                        ("SQRT_2", $v::SQRT_2, sc::SQRT_2), ("FRAC_1_SQRT_2", $v::FRAC_1_SQRT_2, sc::FRAC_1_SQRT_2), ("E", $v::E, sc::E),
                        ("LOG2_E", $v::LOG2_E, sc::LOG2_E), ("LOG10_E", $v::LOG10_E, sc::LOG10_E), ("LN_2", $v::LN_2, sc::LN_2), ("LN_10", $v::LN_10, sc::LN_10)];
                    for (name, v, s) in cs {
                        let l: [$s; $n] = unsafe { std::mem::transmute(v) };
                        run.point(1);
                        run.outcome(s.to_bits() as u64);
                        run.sample(|| format!("{name} = {:?}", l));
                        run.check(l.iter().all(|x| x.to_bits() == s.to_bits()), || format!("constant {name}: {:?}, expected {:?} in every lane", l, s));
                    }
                    let l: [$s; $n] = unsafe { std::mem::transmute($v::NAN) };
                    run.check(l.iter().all(|x| x.is_nan()), || format!("constant NAN: {:?}", l));
                });
            }
            reg(&mut e);
        }};
    }
    floats!(ty);
    if e.level >= 3 {
        macro_rules! sw {
            ($($v:ident $n:literal)*) => { $(
                sweep32(&mut e, format!("{}/all 2^32 values", stringify!($v)), $n,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.abs()); st(o, 1, -a); st(o, 2, a.sqrt()); st(o, 3, a.is_nan()); st(o, 4, a.is_infinite()); st(o, 5, a.is_finite()); st(o, 6, a + 1.5); st(o, 7, a * 3.0); }), 8, sweep_model);
            )* };
        }
        sw!(f32x2 2 f32x4 4 f32x8 8 f32x16 16);
    }
    e.note("spaces: signed zeros, subnormals, infinities, quiet NaNs, extremes, every (level 2) binade; pairs and triples of a prefix of that list");
    e.finish()
}
