//! P02: bitwise operators, shifts and rotates of integer and mask vectors.
use harness::packed_simd::*;
use harness::*;

fn and(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0] & t[1] & k.mask())
}
fn or(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits((t[0] | t[1]) & k.mask())
}
fn xor(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits((t[0] ^ t[1]) & k.mask())
}
fn not(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(!t[0] & k.mask())
}
fn shl(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits((t[0] << t[1] as u32) & k.mask())
}
fn shr(k: K, _: K, t: &[u128; 3]) -> Exp {
    let n = t[1] as u32;
    Exp::Bits(if k.c == C::I { (k.sext(t[0]) >> n) as u128 & k.mask() } else { t[0] >> n })
}
fn rotl(k: K, _: K, t: &[u128; 3]) -> Exp {
    // the amount counts modulo the lane width (a power of two)
    let n = (t[1] & (k.w as u128 - 1)) as u32;
    let r = if n == 0 { t[0] } else { (t[0] << n) | (t[0] >> (k.w - n)) };
    Exp::Bits(r & k.mask())
}
fn rotr(k: K, o: K, t: &[u128; 3]) -> Exp {
    let n = (t[1] & (k.w as u128 - 1)) as u32;
    rotl(k, o, &[t[0], (k.w - n) as u128, 0])
}
/// second argument: every in-range shift amount
fn shift_alpha(i: usize, k: K, lv: u32, _ar: usize) -> Vec<u128> {
    if i == 0 {
        let mut v = alphabet(k, lv, if lv >= 1 && k.w > 8 { 1 } else { 2 });
        if lv >= 1 && k.w == 8 {
            v = (0..256).collect();
        }
        if k.w == 16 && lv < 3 {
            v = int_values(16, 3);
        }
        v
    } else {
        (0..k.w as u128).collect()
    }
}
/// scalar shift amounts are u32 whatever the lane type
fn shift_alpha_s(i: usize, k: K, lv: u32, ar: usize) -> Vec<u128> {
    if i == 0 {
        shift_alpha(0, k, lv, ar)
    } else {
        // bounded below by `in_range`
        (0..128).collect()
    }
}
fn in_range(k: K, t: &[u128; 3]) -> bool {
    t[1] < k.w as u128
}
fn rot_alpha(i: usize, k: K, lv: u32, ar: usize) -> Vec<u128> {
    if i == 0 {
        return shift_alpha(0, k, lv, ar);
    }
    let mut v: Vec<u128> = (0..2 * k.w as u128 + 2).map(|x| x & k.mask()).collect();
    for x in int_values(k.w, if lv >= 2 { 1 } else { 0 }) {
        v.push(x);
    }
    for x in 1..=k.w as u128 + 1 {
        v.push(x.wrapping_neg() & k.mask());
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! op {
    ($e:ident $v:ident $s:ident $k:ident $ks:expr; $n:literal $name:ident $op:tt $aop:tt) => {
        $e.lw(format!("{}/{} vec,vec", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::V)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), always, $name);
    };
}
macro_rules! ops {
    ($e:ident $v:ident $s:ident $k:ident $n:literal $name:ident $op:tt $aop:tt) => {
        $e.lw(format!("{}/{} vec,scalar", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::S)], $k, $n, 2,
            w!(|p, o| { let (a, b): ($v, $s) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), always, $name);
        $e.lw(format!("{}/{} scalar,vec", stringify!($v), stringify!($name)), &[($k, A::S), ($k, A::V)], $k, $n, 1,
            w!(|p, o| { let (a, b): ($s, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a $op b); }), always, $name);
    };
}
/// mask (op) bool: the scalar slot holds 0 or all-ones, read as != 0
macro_rules! opb {
    ($e:ident $v:ident $k:ident $n:literal $name:ident $op:tt $aop:tt) => {
        $e.lw(format!("{}/{} vec,bool", stringify!($v), stringify!($name)), &[($k, A::V), ($k, A::S)], $k, $n, 2,
            w!(|p, o| { let a: $v = ld(p, 0); let b = ld::<u8>(p, 1) != 0; st(o, 0, a $op b); let mut x = a; x $aop b; st(o, 1, x); }), always, $name);
        $e.lw(format!("{}/{} bool,vec", stringify!($v), stringify!($name)), &[($k, A::S), ($k, A::V)], $k, $n, 1,
            w!(|p, o| { let a = ld::<u8>(p, 0) != 0; let b: $v = ld(p, 1); st(o, 0, a $op b); }), always, $name);
    };
}

/// Mask operators are additionally explored over whole mask vectors.
fn mask_whole(e: &mut Engine, id: &str, kk: K, n: usize, f: F) {
    e.job(format!("{id}/all bitwise on whole masks"), move |run| {
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), 128);
        let lv = run.level;
        let other: [u64; 5] = [0, !0, 0x5555_5555_5555_5555, 0xf0f0_3c3c_00ff_9669, 1];
        mask_numbers(n, lv.min(1), &mut |m| {
            for (qi, &q) in other.iter().enumerate() {
                for j in 0..n {
                    inp.put(0, kk.bytes(), j, if m >> j & 1 == 1 { kk.mask() } else { 0 });
                    inp.put(1, kk.bytes(), j, if q >> j & 1 == 1 { kk.mask() } else { 0 });
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.point(4);
                run.outcome(m ^ (qi as u64) << 40);
                for j in 0..n {
                    let (a, b) = (m >> j & 1 == 1, q >> j & 1 == 1);
                    for (s, ex) in [a & b, a | b, a ^ b, !a].iter().enumerate() {
                        let got = out.get(s, kk.bytes(), j);
                        let want = if *ex { kk.mask() } else { 0 };
                        if got != want {
                            run.fail(|| format!("masks a={m:#x} b={q:#x} (bit i = lane i): {} lane {j}: got {got:#x} expected {want:#x}", ["a&b", "a|b", "a^b", "!a"][s]));
                            return false;
                        }
                    }
                }
            }
            true
        });
    });
}

fn main() {
    let mut e = Engine::from_args("P02");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                op!(e $v $s kk kk; $n and & &=);
                op!(e $v $s kk kk; $n or | |=);
                op!(e $v $s kk kk; $n xor ^ ^=);
                ops!(e $v $s kk $n and & &=);
                ops!(e $v $s kk $n or | |=);
                ops!(e $v $s kk $n xor ^ ^=);
                e.lw(format!("{}/not", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, !a); }), always, not);
                e.lw_alpha(format!("{}/shl vec,vec", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 2,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a << b); let mut x = a; x <<= b; st(o, 1, x); }), always, shl, shift_alpha);
                e.lw_alpha(format!("{}/shr vec,vec", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 2,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a >> b); let mut x = a; x >>= b; st(o, 1, x); }), always, shr, shift_alpha);
                let ks = k(C::U, 32);
                e.lw_alpha(format!("{}/shl vec,u32", stringify!($v)), &[(kk, A::V), (ks, A::S)], kk, $n, 2,
                    w!(|p, o| { let (a, b): ($v, u32) = (ld(p, 0), ld(p, 1)); st(o, 0, a << b); let mut x = a; x <<= b; st(o, 1, x); }), in_range, shl, shift_alpha_s);
                e.lw_alpha(format!("{}/shr vec,u32", stringify!($v)), &[(kk, A::V), (ks, A::S)], kk, $n, 2,
                    w!(|p, o| { let (a, b): ($v, u32) = (ld(p, 0), ld(p, 1)); st(o, 0, a >> b); let mut x = a; x >>= b; st(o, 1, x); }), in_range, shr, shift_alpha_s);
                e.lw_alpha(format!("{}/rotate_left", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.rotate_left(b)); }), always, rotl, rot_alpha);
                e.lw_alpha(format!("{}/rotate_right", stringify!($v)), &[(kk, A::V), (kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a.rotate_right(b)); }), always, rotr, rot_alpha);
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    macro_rules! mty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::M, $w);
                op!(e $v $s kk kk; $n and & &=);
                op!(e $v $s kk kk; $n or | |=);
                op!(e $v $s kk kk; $n xor ^ ^=);
                opb!(e $v kk $n and & &=);
                opb!(e $v kk $n or | |=);
                opb!(e $v kk $n xor ^ ^=);
                e.lw(format!("{}/not", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, !a); }), always, not);
                mask_whole(e, stringify!($v), kk, $n,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, a & b); st(o, 1, a | b); st(o, 2, a ^ b); st(o, 3, !a); }));
            }
            reg(&mut e);
        }};
    }
    masks!(mty);
    // level 3: every pair of 16-bit lanes
    if e.level >= 3 {
        macro_rules! all16 {
            ($($v:ident $s:ident $n:literal)*) => { $(
                e.job(format!("{}/all 2^32 pairs", stringify!($v)), |run| {
                    pairs16(run, 0, 1, $n,
                        w!(|p, o| { let (a, b, c): ($v, $v, $v) = (ld(p, 0), ld(p, 1), ld(p, 2));
                            st(o, 0, a & b); st(o, 1, a | b); st(o, 2, a ^ b); st(o, 3, a << c); st(o, 4, a >> c); st(o, 5, a.rotate_left(b)); st(o, 6, a.rotate_right(b)); st(o, 7, !a); }),
                        |_, b| b,
                        |a, b| [a & b, a | b, a ^ b, a << (b & 15), ((a as $s) >> (b & 15)) as u16, a.rotate_left(b as u32 & 15), a.rotate_right(b as u32 & 15), !a]);
                });
            )* };
        }
        all16!(i16x2 i16 2 i16x4 i16 4 i16x8 i16 8 i16x16 i16 16 i16x32 i16 32 u16x2 u16 2 u16x4 u16 4 u16x8 u16 8 u16x16 u16 16 u16x32 u16 32);
    }
    e.note("spaces: every in-range shift amount, rotate amounts 0..2w+2, -1..-w-1 and boundary values; all 2^n masks up to 16 lanes, distance <=2, runs and periodic patterns beyond");
    e.finish()
}
