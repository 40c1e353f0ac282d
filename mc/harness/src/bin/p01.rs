//! P01: integer lane arithmetic.
use harness::packed_simd::*;
use harness::*;

fn add(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].wrapping_add(t[1]) & k.mask())
}
fn sub(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].wrapping_sub(t[1]) & k.mask())
}
fn mul(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].wrapping_mul(t[1]) & k.mask())
}
fn div(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(if k.c == C::I { (k.sext(t[0]) / k.sext(t[1])) as u128 & k.mask() } else { t[0] / t[1] })
}
fn rem(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(if k.c == C::I { (k.sext(t[0]) % k.sext(t[1])) as u128 & k.mask() } else { t[0] % t[1] })
}
fn neg(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].wrapping_neg() & k.mask())
}
fn lt(k: K, a: u128, b: u128) -> bool {
    if k.c == C::I {
        k.sext(a) < k.sext(b)
    } else {
        a < b
    }
}
fn min(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(if lt(k, t[0], t[1]) { t[0] } else { t[1] })
}
fn max(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(if lt(k, t[0], t[1]) { t[1] } else { t[0] })
}
/// division is defined: divisor non-zero and the quotient representable
fn divisible(k: K, t: &[u128; 3]) -> bool {
    t[1] != 0 && !(k.c == C::I && t[1] == k.mask() && t[0] == 1u128 << (k.w - 1))
}

macro_rules! op {
    ($e:ident $v:ident $s:ident $k:ident $n:literal $name:ident $op:tt $aop:tt $valid:ident) => {
        $e.lw(format!("{}/{} vec,vec", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::V)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), $valid, $name);
        $e.lw(format!("{}/{} vec,scalar", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::S)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $s) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), $valid, $name);
        $e.lw(format!("{}/{} scalar,vec", stringify!($v), stringify!($name)), &[($k, A::S), ($k, A::V)], $k, $n, 1,
            w!(|p, o| { let (a, b): ($s, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); }), $valid, $name);
    };
}

fn main() {
    let mut e = Engine::from_args("P01");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                op!(e $v $s kk $n add + += always);
                op!(e $v $s kk $n sub - -= always);
                op!(e $v $s kk $n mul * *= always);
                op!(e $v $s kk $n div / /= divisible);
                op!(e $v $s kk $n rem % %= divisible);
                e.lw(format!("{}/min", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.min(b)); }), always, min);
                e.lw(format!("{}/max", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.max(b)); }), always, max);
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    macro_rules! sty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                e.lw(format!("{}/neg", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, -a); }), always, neg);
            }
            reg(&mut e);
        }};
    }
    sints!(sty);
    // every pair of 16-bit lanes (level 2: two types), every 32-bit lane negated (level 3)
    if e.level >= 2 && (e.level >= 3 || !cfg!(debug_assertions)) {
        macro_rules! all16 {
            ($($v:ident $s:ident $n:literal)*) => { $(
                for part in 0..4 { e.job(format!("{}/all 2^32 pairs, part {part} of 4", stringify!($v)), move |run| {
                    pairs16(run, part, 4, $n,
                        w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1));
                            st(o, 0, a + b); st(o, 1, a - b); st(o, 2, a * b); st(o, 3, a.min(b)); st(o, 4, a.max(b)); st(o, 5, a / b); st(o, 6, a % b); }),
                        |a, b| if b == 0 || (<$s>::MIN != 0 && a == 0x8000 && b == 0xffff) { 1 } else { b },
                        |a, b| { let (a, b) = (a as $s, b as $s);
                            [a.wrapping_add(b) as u16, a.wrapping_sub(b) as u16, a.wrapping_mul(b) as u16, if a < b { a } else { b } as u16, if a > b { a } else { b } as u16, (a / b) as u16, (a % b) as u16] });
                }); }
            )* };
        }
        all16!(i16x8 i16 8 u16x8 u16 8);
        if e.level >= 3 {
            all16!(i16x2 i16 2 i16x4 i16 4 i16x16 i16 16 i16x32 i16 32 u16x2 u16 2 u16x4 u16 4 u16x16 u16 16 u16x32 u16 32);
        }
        macro_rules! all32 {
            ($($v:ident $n:literal)*) => { $(
                e.job(format!("{}/neg of all 2^32 values", stringify!($v)), |run| {
                    sweep32(run, $n, 4, w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, -a); }), |x| x, |x| [x.wrapping_neg() as u128]);
                });
            )* };
        }
        if e.level >= 3 {
            all32!(i32x2 2 i32x4 4 i32x8 8 i32x16 16);
        }
    }
    e.note("spaces: 8-bit lanes all 65536 operand pairs (level>=1), 16-bit lanes all 2^32 pairs (i16x8, u16x8 from level 2 in optimised builds, all types at level 3), wider lanes the boundary alphabet squared and all small operands; every pair in every lane, as splat, and one-lane deviations");
    e.finish()
}
