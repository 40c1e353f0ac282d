//! P15: lane-wise numeric casts and lossless conversions.
use harness::packed_simd::*;
use harness::*;

fn alpha(from: K, to: K, level: u32) -> Vec<u128> {
    let mut v = match from.c {
        C::M => return vec![0, from.mask()],
        C::F => float_values(from.w, [1, 1, 3, 3][level.min(3) as usize]),
        _ => alphabet(from, if to.c == C::M && level == 2 { 1 } else { level }, 1),
    };
    let mut push = |x: u128| v.push(x & from.mask());
    if from.c == C::F {
        let f = |x: f64| if from.w == 32 { f32b(x as f32) } else { f64b(x) };
        for s in [1.0, -1.0] {
            for b in 0..=127 {
                let p = 2f64.powi(b) * s;
                for d in [0.0, 0.5, -0.5, 0.25, 0.75, -0.75, 1.0, -1.0, 1.5] {
                    push(f(p + d));
                }
                let bits = f(p);
                push(bits + 1);
                push(bits - 1);
                push(bits - 2);
            }
            for i in 0..40 {
                push(f((i as f64 * 0.25) * s));
            }
        }
        if from.w == 64 && to.c == C::F && to.w == 32 {
            // ties and near-ties of the narrowing
            for e in (-155..129).chain([-149, -150, -151, -126, -127, 127]) {
                let base = ((1023 + e) as u64) << 52;
                for m in [0u64, 1, 0x0fff_ffff, 0x1000_0000, 0x1000_0001, 0x3000_0000, 0x2fff_ffff, 0xf_ffff_efff_ffff, 0xf_ffff_f000_0000, 0xf_ffff_efff_fffe, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000] {
                    push((base | m) as u128);
                    push((base | m | 1 << 63) as u128);
                }
            }
        }
    } else if to.c == C::F {
        let mant = if to.w == 32 { 24 } else { 53 };
        for kx in mant..from.w {
            let half = 1u128 << (kx - mant);
            let b = 1u128 << kx;
            for x in [b + half, b + half + 1, b + half - 1, b + 3 * half, b + 3 * half - 1, b + 3 * half + 1, 2 * (b - 1) + 1, b.wrapping_shl(1).wrapping_sub(half), b.wrapping_shl(1).wrapping_sub(half + 1)] {
                push(x);
                push(x.wrapping_neg());
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

/// None = outside the specified domain.
fn model(from: K, to: K, x: u128) -> Option<Exp> {
    let bits = |v: u128| Some(Exp::Bits(v & to.mask()));
    let fl = |v32: f32, v64: f64| {
        if to.w == 32 {
            if v32.is_nan() { Some(Exp::Nan) } else { Some(Exp::Bits(f32b(v32))) }
        } else if v64.is_nan() {
            Some(Exp::Nan)
        } else {
            Some(Exp::Bits(f64b(v64)))
        }
    };
    if to.c == C::M {
        let t = match from.c {
            C::F => f_val(from.w, x) != 0.0,
            _ => x != 0,
        };
        return bits(if t { !0 } else { 0 });
    }
    match (from.c, to.c) {
        (C::M, C::F) => fl(if x != 0 { -1.0 } else { 0.0 }, if x != 0 { -1.0 } else { 0.0 }),
        (C::M, _) => bits(if x != 0 { !0 } else { 0 }),
        (C::F, C::F) => {
            if from.w == 32 {
                let y = f32::from_bits(x as u32);
                fl(y, y as f64)
            } else {
                let y = f64::from_bits(x as u64);
                fl(y as f32, y)
            }
        }
        (C::F, _) => {
            let y = f_val(from.w, x);
            if !y.is_finite() {
                return None;
            }
            let t = y.trunc();
            let lim = 2f64.powi(to.w as i32 - (to.c == C::I) as i32);
            if t >= lim || (to.c == C::I && t < -lim) || (to.c == C::U && t < 0.0) {
                return None;
            }
            bits(if t < 0.0 { t as i128 as u128 } else { t as u128 })
        }
        (C::I, C::F) => {
            let y = from.sext(x);
            fl(y as f32, y as f64)
        }
        (C::U, C::F) => fl(x as f32, x as f64),
        (C::I, _) => bits(from.sext(x) as u128),
        _ => bits(x),
    }
}

fn explore(run: &Run, from: K, to: K, n: usize, outs: usize, f: F) {
    let lw = Lanewise { args: vec![(from, A::V)], out: to, n, f, outs };
    let tuples: Vec<[u128; 3]> = alpha(from, to, run.level).into_iter().filter(|x| model(from, to, *x).is_some()).map(|x| [x, 0, 0]).collect();
    lw.explore(run, &tuples, &|t| model(from, to, t[0]).unwrap());
}

/// Does `B: From<A>` exist?  (autoref specialisation; decided by the compiler
/// for the library as it is now)
struct Probe<A, B>(std::marker::PhantomData<(A, B)>);
trait Absent {
    fn conv(&self) -> Option<F>;
}
impl<A, B> Absent for &Probe<A, B> {
    fn conv(&self) -> Option<F> {
        None
    }
}
trait Present {
    fn conv(&self) -> Option<F>;
}
impl<A, B: From<A>> Present for Probe<A, B> {
    fn conv(&self) -> Option<F> {
        fn f<A, B: From<A>>(p: *const u8, o: *mut u8) {
            unsafe { st(o, 0, B::from(ld::<A>(p, 0))) }
        }
        Some(f::<A, B> as F)
    }
}
/// Is every value of `from` a value of `to`?  None: not a numeric question.
fn lossless(from: K, to: K) -> Option<bool> {
    let mant = |w: u32| if w == 32 { 24 } else { 53 };
    Some(match (from.c, to.c) {
        (C::M, C::M) => true,
        (C::M, _) | (_, C::M) => return None,
        (C::I, C::I) | (C::U, C::U) | (C::F, C::F) => to.w >= from.w,
        (C::U, C::I) => to.w > from.w,
        (C::I, C::U) | (C::F, _) => false,
        (C::I, C::F) => from.w - 1 <= mant(to.w),
        (C::U, C::F) => from.w <= mant(to.w),
    })
}

fn main() {
    let mut e = Engine::from_args("P15");
    macro_rules! cast {
        ($to:ident $tc:ident $tw:literal $from:ident $fc:ident $fw:literal $n:literal) => {{
            e.job(format!("cast {} -> {}", stringify!($from), stringify!($to)), |run| {
                explore(run, k(C::$fc, $fw), k(C::$tc, $tw), $n, 2, w!(|p, o| { let v: $from = ld(p, 0); let r: $to = v.cast(); st(o, 0, r); st(o, 1, $to::from_cast(v)); }))
            });
        }};
    }
    cast_pairs!(cast);
    macro_rules! from {
        ($to:ident $tc:ident $tw:literal $from:ident $fc:ident $fw:literal $n:literal) => {{
            e.job(format!("From<{}> for {}", stringify!($from), stringify!($to)), |run| {
                explore(run, k(C::$fc, $fw), k(C::$tc, $tw), $n, 2, w!(|p, o| { let v: $from = ld(p, 0); let r: $to = v.into(); st(o, 0, r); st(o, 1, <$to as From<$from>>::from(v)); }))
            });
        }};
    }
    from_pairs!(from);
    // every From between vectors of equal lane count that exists now, listed
    // above or not
    let mut found: Vec<(&'static str, &'static str, K, K, usize, F)> = vec![];
    let mut probed = 0u64;
    macro_rules! probe {
        ($to:ident $tc:ident $tw:literal $from:ident $fc:ident $fw:literal $n:literal) => {{
            let pr = Probe::<$from, $to>(std::marker::PhantomData);
            probed += 1;
            if let Some(f) = (&pr).conv() {
                found.push((stringify!($from), stringify!($to), k(C::$fc, $fw), k(C::$tc, $tw), $n, f));
            }
        }};
    }
    cast_pairs!(probe);
    e.job("every From is lossless", move |run| {
        for &(a, b, from, to, n, f) in &found {
            if lossless(from, to) == Some(false) {
                run.fail(|| format!("From<{a}> for {b} exists, but {b} cannot represent every lane value of {a}"));
                return;
            }
            explore(run, from, to, n, 1, f);
            if run.failed() {
                return;
            }
        }
        run.point(probed);
        run.outcome(found.len() as u64);
    });
    // level 3: every 32-bit lane value
    if e.level >= 3 {
        macro_rules! int {
            ($($v:ident $s:ident $to:ident $t:ident)*) => { $(
                e.job(format!("cast {} -> {} of all 2^32 values", stringify!($v), stringify!($to)), |run| {
                    let m = wmask(8 * std::mem::size_of::<$t>() as u32);
                    sweep32(run, 4, std::mem::size_of::<$t>(), w!(|p, o| { let a: $v = ld(p, 0); let r: $to = a.cast(); st(o, 0, r); }), |x| x, |x| [x as $s as $t as u128 & m]);
                });
            )* };
        }
        int!(i32x4 i32 i8x4 i8 i32x4 i32 u8x4 u8 i32x4 i32 i16x4 i16 i32x4 i32 u16x4 u16 i32x4 i32 u32x4 u32 i32x4 i32 i64x4 i64 i32x4 i32 u64x4 u64 i32x4 i32 i128x4 i128 i32x4 i32 u128x4 u128 u32x4 u32 i8x4 i8 u32x4 u32 u8x4 u8 u32x4 u32 i16x4 i16 u32x4 u32 u16x4 u16 u32x4 u32 i32x4 i32 u32x4 u32 i64x4 i64 u32x4 u32 u64x4 u64 u32x4 u32 i128x4 i128 u32x4 u32 u128x4 u128);
        macro_rules! trunc {
            ($($v:ident $s:ident $to:ident $t:ident)*) => { $(
                e.job(format!("cast {} -> {} of all 2^32 values", stringify!($v), stringify!($to)), |run| {
                    let m = wmask(8 * std::mem::size_of::<$t>() as u32);
                    // values whose truncation does not fit are replaced by zero
                    let (lo, hi) = (<$t>::MIN as f64, 2f64.powi(8 * std::mem::size_of::<$t>() as i32 - (<$t>::MIN != 0) as i32));
                    let fix = move |x: u32| { let y = (f32::from_bits(x) as f64).trunc(); if y >= lo && y < hi { x } else { 0 } };
                    sweep32(run, 4, std::mem::size_of::<$t>(), w!(|p, o| { let a: $v = ld(p, 0); let r: $to = a.cast(); st(o, 0, r); }), fix, |x| [f32::from_bits(x) as $t as u128 & m]);
                });
            )* };
        }
        trunc!(f32x4 f32 i8x4 i8 f32x4 f32 u8x4 u8 f32x4 f32 i16x4 i16 f32x4 f32 u16x4 u16 f32x4 f32 i32x4 i32 f32x4 f32 u32x4 u32 f32x4 f32 i64x4 i64 f32x4 f32 u64x4 u64 f32x4 f32 i128x4 i128 f32x4 f32 u128x4 u128);
        macro_rules! float {
            ($($v:ident $s:ident $to:ident $t:ident)*) => { $(
                e.job(format!("cast {} -> {} of all 2^32 values", stringify!($v), stringify!($to)), |run| {
                    // NaNs are left to the boundary space
                    let fix = |x: u32| if stringify!($s) == "f32" && f32::from_bits(x).is_nan() { 0 } else { x };
                    sweep32(run, 4, std::mem::size_of::<$t>(), w!(|p, o| { let a: $v = ld(p, 0); let r: $to = a.cast(); st(o, 0, r); }), fix,
                        |x| [if stringify!($s) == "f32" { f32::from_bits(x) as $t } else { x as $s as $t }.to_bits() as u128]);
                });
            )* };
        }
        float!(i32x4 i32 f32x4 f32 i32x4 i32 f64x4 f64 u32x4 u32 f32x4 f32 u32x4 u32 f64x4 f64 f32x4 f32 f64x4 f64);
    }
    e.finish()
}
