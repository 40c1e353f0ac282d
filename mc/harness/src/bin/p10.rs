//! P10: mask reductions (all / any / none) and bitmasks.
use harness::packed_simd::*;
use harness::*;

fn mask_model(_: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let o = k(C::U, 8);
    let b = |x: bool| vec![Exp::Bits(x as u128)];
    let all = v.iter().all(|x| *x != 0);
    let any = v.iter().any(|x| *x != 0);
    let mut bits = 0u128;
    for (i, x) in v.iter().enumerate() {
        if *x != 0 {
            bits |= 1 << i;
        }
    }
    // slot 3: bitmask, zero-extended to 64 bits; slot 4: its size in bits
    vec![(0, o, b(all)), (1, o, b(any)), (2, o, b(!any)), (3, k(C::U, 64), vec![Exp::Bits(bits)]), (4, o, vec![Exp::Bits(if v.len() <= 8 { 8 } else { v.len() as u128 })])]
}
fn int_model(kk: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let mut bits = 0u128;
    for (i, x) in v.iter().enumerate() {
        if x >> (kk.w - 1) & 1 == 1 {
            bits |= 1 << i;
        }
    }
    vec![(0, k(C::U, 64), vec![Exp::Bits(bits)])]
}

/// level 3: all 2^32 masks of 32-lane types
fn all32(e: &mut Engine, id: &str, kk: K, f: F) {
    for part in 0..64u64 {
        e.job(format!("{id}/all 2^32 masks part {part}/64"), move |run| {
            let mut inp = Block::new();
            let mut out = Block::new();
            let kb = kk.bytes();
            crumb(inp.0.as_ptr(), 64);
            for m in part << 26..(part + 1) << 26 {
                // Gray-code order: one lane changes per step
                let g = (m ^ (m >> 1)) as u32;
                if m == part << 26 {
                    for j in 0..32 {
                        inp.put(0, kb, j, if g >> j & 1 == 1 { kk.mask() } else { 0 });
                    }
                } else {
                    let j = m.trailing_zeros() as usize;
                    inp.put(0, kb, j, if g >> j & 1 == 1 { kk.mask() } else { 0 });
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.point(4);
                let bits = u64::from_le_bytes(out.0[192..200].try_into().unwrap());
                let want = ((g == !0) as u8, (g != 0) as u8, (g == 0) as u8, g as u64);
                let got = (out.0[0], out.0[64], out.0[128], bits);
                if got != want {
                    run.fail(|| format!("mask bits {g:#034b} (bit i = lane i): (all, any, none, bitmask) = {:?} expected {:?}", got, want));
                    return;
                }
            }
            run.outcome(part);
            run.outcome(part + 77);
        });
    }
}

fn main() {
    let mut e = Engine::from_args("P10");
    macro_rules! mty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let f = w!(|p, o| { let a: $v = ld(p, 0);
                    st(o, 0, a.all() as u8); st(o, 1, a.any() as u8); st(o, 2, a.none() as u8);
                    let bits: $b = a.bitmask(); st(o, 3, bits as u64); st(o, 4, std::mem::size_of_val(&bits) as u8 * 8); });
                e.whole1(format!("{}/all any none bitmask", stringify!($v)), k(C::M, $w), $n, f, mask_model);
                if e.level >= 3 && $n == 32 {
                    all32(e, stringify!($v), k(C::M, $w), f);
                }
            }
            reg(&mut e);
        }};
    }
    masks!(mty);
    macro_rules! ity {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                e.whole1(format!("{}/bitmask", stringify!($v)), k(C::$c, $w), $n,
                    w!(|p, o| { let a: $v = ld(p, 0); let bits: $b = a.bitmask(); st(o, 0, bits as u64); }), int_model);
                // masks made by a comparison, reduced without being stored
                e.job(format!("{}/reductions of comparisons", stringify!($v)), |run| {
                    let mut b = Block::new();
                    let kk = k(C::$c, $w);
                    crumb(b.0.as_ptr(), 64);
                    mask_numbers($n, run.level.min(1), &mut |m| {
                        for j in 0..$n { b.put(0, kk.bytes(), j, if m >> j & 1 == 1 { 7 } else { 9 }); }
                        let v: $v = unsafe { ld(b.0.as_ptr(), 0) };
                        let full: u64 = if $n == 64 { !0 } else { (1u64 << ($n % 64)) - 1 };
                        let got = (v.eq($v::splat(7)).all(), v.eq($v::splat(7)).any(), v.eq($v::splat(7)).none(), v.eq($v::splat(7)).bitmask() as u64);
                        let want = (m == full, m != 0, m == 0, m);
                        run.point(4);
                        run.outcome(m);
                        run.check(got == want, || format!("lanes equal where bits of {m:#b}: (all, any, none, bitmask) = {:?} expected {:?}", got, want));
                        !run.failed()
                    });
                });
            }
            reg(&mut e);
        }};
    }
    ints!(ity);
    e.note("all 2^n masks for n<=16 (n<=8 at level 0); distance <=3, runs, periodic and byte patterns for 32 and 64 lanes; all 2^32 masks of the 32-lane types at level 3");
    e.finish()
}
