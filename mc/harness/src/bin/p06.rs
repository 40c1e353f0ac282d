//! P06: vertical comparisons and mask selection.
use harness::packed_simd::*;
use harness::*;
use std::cmp::Ordering;

fn ord(k: K, a: u128, b: u128) -> Option<Ordering> {
    match k.c {
        C::I => Some(k.sext(a).cmp(&k.sext(b))),
        C::U => Some(a.cmp(&b)),
        C::M => Some((a != 0).cmp(&(b != 0))),
        C::F => f_val(k.w, a).partial_cmp(&f_val(k.w, b)),
    }
}
fn bm(o: K, b: bool) -> Exp {
    Exp::Bits(if b { o.mask() } else { 0 })
}
fn eq(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, ord(k, t[0], t[1]) == Some(Ordering::Equal))
}
fn ne(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, ord(k, t[0], t[1]) != Some(Ordering::Equal))
}
fn lt(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, ord(k, t[0], t[1]) == Some(Ordering::Less))
}
fn gt(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, ord(k, t[0], t[1]) == Some(Ordering::Greater))
}
fn le(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, matches!(ord(k, t[0], t[1]), Some(Ordering::Less | Ordering::Equal)))
}
fn ge(k: K, o: K, t: &[u128; 3]) -> Exp {
    bm(o, matches!(ord(k, t[0], t[1]), Some(Ordering::Greater | Ordering::Equal)))
}

/// every mask (see `mask_numbers`) x several value pairs, lanes compared bitwise
fn select_job(e: &mut Engine, id: String, mk: K, vk: K, n: usize, f: F) {
    e.job(id, move |run| {
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), 192);
        let vals: Vec<(Vec<u128>, Vec<u128>)> = {
            let mut r = vec![];
            let t = vk.mask();
            if vk.c == C::M {
                r.push((vec![t; n], vec![0; n]));
                r.push((vec![0; n], vec![t; n]));
                r.push(((0..n).map(|i| if i % 2 == 0 { t } else { 0 }).collect(), (0..n).map(|i| if i % 3 == 0 { t } else { 0 }).collect()));
            } else {
                r.push(((0..n as u128).map(|i| (i + 1) & t).collect(), (0..n as u128).map(|i| !(i + 1) & t).collect()));
                r.push((vec![t; n], vec![0; n]));
                let al = if vk.c == C::F { float_values(vk.w, 0) } else { int_values(vk.w, 0) };
                r.push(((0..n).map(|i| al[i % al.len()]).collect(), (0..n).map(|i| al[(i * 5 + 3) % al.len()]).collect()));
            }
            r
        };
        mask_numbers(n, run.level.min(1), &mut |m| {
            for (a, b) in &vals {
                for j in 0..n {
                    inp.put(0, mk.bytes(), j, if m >> j & 1 == 1 { mk.mask() } else { 0 });
                    inp.put(1, vk.bytes(), j, a[j]);
                    inp.put(2, vk.bytes(), j, b[j]);
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.point(1);
                run.values(n as u64 - 1);
                run.outcome(hash_bytes(&out.0[..64]));
                for j in 0..n {
                    let want = if m >> j & 1 == 1 { a[j] } else { b[j] };
                    let got = out.get(0, vk.bytes(), j);
                    if got != want {
                        run.fail(|| format!("mask bits {m:#b} (bit i = lane i), a={:x?} b={:x?}: lane {j} got {got:#x} expected {want:#x}", a, b));
                        return false;
                    }
                }
            }
            run.sample(|| format!("mask {m:#b}: lane 0 = {:#x}", out.get(0, vk.bytes(), 0)));
            true
        });
    });
}

fn main() {
    let mut e = Engine::from_args("P06");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                let mk = k(C::M, $w);
                macro_rules! cmp {
                    ($f:ident) => {
                        e.lw(format!("{}/{}", stringify!($v), stringify!($f)), &[(kk, A::V), (kk, A::V)], mk, $n, 1,
                            w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); let m: $m = a.$f(b); st(o, 0, m); }), always, $f);
                    };
                }
                cmp!(eq); cmp!(ne); cmp!(lt); cmp!(le); cmp!(gt); cmp!(ge);
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    floats!(ty);
    masks!(ty);
    macro_rules! sel {
        ($m:ident $mw:literal $v:ident $c:ident $w:literal $n:literal) => {{
            fn reg(e: &mut Engine) {
                select_job(e, format!("{}.select({})", stringify!($m), stringify!($v)), k(C::M, $mw), k(C::$c, $w), $n,
                    w!(|p, o| { let m: $m = ld(p, 0); let (a, b): ($v, $v) = (ld(p, 1), ld(p, 2)); st(o, 0, m.select(a, b)); }));
            }
            reg(&mut e);
        }};
    }
    select_pairs!(sel);
    // level 3: every pair of 16-bit lanes
    if e.level >= 3 {
        macro_rules! all16 {
            ($($v:ident $s:ident $n:literal)*) => { $(
                e.job(format!("{}/all 2^32 pairs", stringify!($v)), |run| {
                    pairs16(run, 0, 1, $n,
                        w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1));
                            st(o, 0, a.eq(b)); st(o, 1, a.ne(b)); st(o, 2, a.lt(b)); st(o, 3, a.le(b)); st(o, 4, a.gt(b)); st(o, 5, a.ge(b)); }),
                        |_, b| b,
                        |a, b| { let (a, b) = (a as $s, b as $s); let m = |x: bool| if x { 0xffff } else { 0 };
                            [m(a == b), m(a != b), m(a < b), m(a <= b), m(a > b), m(a >= b)] });
                });
            )* };
        }
        all16!(i16x2 i16 2 i16x4 i16 4 i16x8 i16 8 i16x16 i16 16 i16x32 i16 32 u16x2 u16 2 u16x4 u16 4 u16x8 u16 8 u16x16 u16 16 u16x32 u16 32);
    }
    e.note("select: every mask type x every vector type of equal lane count; all 2^n masks up to 16 lanes");
    e.finish()
}
