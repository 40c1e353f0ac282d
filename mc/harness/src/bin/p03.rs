//! P03: bit counting and byte order.
use harness::packed_simd::*;
use harness::*;

fn ones(_: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].count_ones() as u128)
}
fn zeros(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits((k.w - t[0].count_ones()) as u128)
}
fn lz(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits((t[0].leading_zeros() - (128 - k.w)) as u128)
}
fn tz(k: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0].trailing_zeros().min(k.w) as u128)
}
fn swapped(kk: K, v: &[u128]) -> Vec<u128> {
    let kb = kk.bytes();
    let mut by: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()[..kb].to_vec()).collect();
    by.reverse();
    by.chunks(kb)
        .map(|c| {
            let mut b = [0u8; 16];
            b[..kb].copy_from_slice(c);
            u128::from_le_bytes(b)
        })
        .collect()
}
fn swap_model(kk: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let s: Vec<Exp> = swapped(kk, v).into_iter().map(Exp::Bits).collect();
    let id: Vec<Exp> = v.iter().map(|x| Exp::Bits(*x)).collect();
    // swap, to_be, from_be on a little-endian target; to_le, from_le; swap twice
    vec![(0, kk, s.clone()), (1, kk, s.clone()), (2, kk, s), (3, kk, id.clone()), (4, kk, id.clone()), (5, kk, id)]
}

fn main() {
    assert!(cfg!(target_endian = "little"));
    let mut e = Engine::from_args("P03");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                e.lw(format!("{}/count_ones", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.count_ones()); }), always, ones);
                e.lw(format!("{}/count_zeros", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.count_zeros()); }), always, zeros);
                e.lw(format!("{}/leading_zeros", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.leading_zeros()); }), always, lz);
                e.lw(format!("{}/trailing_zeros", stringify!($v)), &[(kk, A::V)], kk, $n, 1,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.trailing_zeros()); }), always, tz);
                e.whole1(format!("{}/byte order", stringify!($v)), kk, $n,
                    w!(|p, o| { let a: $v = ld(p, 0);
                        st(o, 0, a.swap_bytes()); st(o, 1, a.to_be()); st(o, 2, $v::from_be(a));
                        st(o, 3, a.to_le()); st(o, 4, $v::from_le(a)); st(o, 5, a.swap_bytes().swap_bytes()); }), swap_model);
                // every byte value at every byte position of the vector
                e.job(format!("{}/byte order, every byte at every position", stringify!($v)), move |run| {
                    let f = w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.swap_bytes()); });
                    let nb = $n * $w / 8;
                    let mut inp = Block::new();
                    let mut out = Block::new();
                    crumb(inp.0.as_ptr(), 64);
                    for pos in 0..nb {
                        for val in 0..256u32 {
                            for bg in [0u8, 0xff, 0xa5] {
                                for i in 0..nb { inp.0[i] = bg ^ (i as u8 & if bg == 0xa5 { 0x3f } else { 0 }); }
                                inp.0[pos] = val as u8;
                                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                                run.point(1);
                                run.values(nb as u64 - 1);
                                run.outcome(hash_bytes(&out.0[..64]));
                                for i in 0..nb {
                                    if out.0[i] != inp.0[nb - 1 - i] {
                                        run.fail(|| format!("bytes {:02x?}: byte {} of swap_bytes is {:02x}, expected {:02x}", &inp.0[..nb], i, out.0[i], inp.0[nb - 1 - i]));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                });
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    // level 3: every 32-bit lane value
    if e.level >= 3 {
        macro_rules! all32 {
            ($($v:ident $s:ident $n:literal)*) => { $(
                e.job(format!("{}/bit counts of all 2^32 values", stringify!($v)), |run| {
                    sweep32(run, $n, 4,
                        w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.count_ones()); st(o, 1, a.count_zeros()); st(o, 2, a.leading_zeros()); st(o, 3, a.trailing_zeros()); }),
                        |x| x,
                        |x| [x.count_ones() as u128, 32 - x.count_ones() as u128, x.leading_zeros() as u128, x.trailing_zeros() as u128]);
                });
            )* };
        }
        all32!(i32x2 i32 2 i32x4 i32 4 i32x8 i32 8 i32x16 i32 16 u32x2 u32 2 u32x4 u32 4 u32x8 u32 8 u32x16 u32 16);
    }
    e.finish()
}
