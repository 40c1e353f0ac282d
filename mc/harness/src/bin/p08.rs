//! P08: integer, bitwise and min/max reductions; iterator sums and products.
use harness::packed_simd::*;
use harness::*;

fn model(kk: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let m = kk.mask();
    let b = |x: u128| vec![Exp::Bits(x & m)];
    let sum = v.iter().fold(0u128, |a, x| a.wrapping_add(*x));
    let prod = v.iter().fold(1u128, |a, x| a.wrapping_mul(*x));
    let (mn, mx) = if kk.c == C::I {
        (v.iter().map(|x| kk.sext(*x)).min().unwrap() as u128, v.iter().map(|x| kk.sext(*x)).max().unwrap() as u128)
    } else {
        (*v.iter().min().unwrap(), *v.iter().max().unwrap())
    };
    let and = v.iter().fold(m, |a, x| a & x);
    let or = v.iter().fold(0, |a, x| a | x);
    let xor = v.iter().fold(0, |a, x| a ^ x);
    vec![(0, kk, b(sum)), (1, kk, b(prod)), (2, kk, b(mn)), (3, kk, b(mx)), (4, kk, b(and)), (5, kk, b(or)), (6, kk, b(xor))]
}
fn mask_model(_: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    let o = k(C::U, 8);
    let b = |x: bool| vec![Exp::Bits(x as u128)];
    vec![
        (0, o, b(v.iter().all(|x| *x != 0))),
        (1, o, b(v.iter().any(|x| *x != 0))),
        (2, o, b(v.iter().filter(|x| **x != 0).count() % 2 == 1)),
    ]
}

fn main() {
    let mut e = Engine::from_args("P08");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                e.whole1(format!("{}/reductions", stringify!($v)), kk, $n,
                    w!(|p, o| { let a: $v = ld(p, 0);
                        st(o, 0, a.wrapping_sum()); st(o, 1, a.wrapping_product()); st(o, 2, a.min_element()); st(o, 3, a.max_element());
                        st(o, 4, a.and()); st(o, 5, a.or()); st(o, 6, a.xor()); }), model);
                // iterator Sum/Product over every sequence of up to 4 (5 at level 2) vectors
                e.job(format!("{}/iter sum and product", stringify!($v)), |run| {
                    let kk = k(C::$c, $w);
                    let al = int_values($w, 0);
                    let choices: Vec<[$s; $n]> = (0..4usize).map(|t| {
                        let mut a = [0 as $s; $n];
                        for j in 0..$n { a[j] = al[(t * 3 + j * (t + 1)) % al.len()] as $s; }
                        a
                    }).collect();
                    let maxlen = if run.level >= 2 { 5 } else { 4 };
                    for len in 0..=maxlen {
                        let mut idx = vec![0usize; len];
                        'o: loop {
                            let vs: Vec<$v> = idx.iter().map(|i| unsafe { std::ptr::read_unaligned(choices[*i].as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for i in &idx { for j in 0..$n { ws[j] = ws[j].wrapping_add(choices[*i][j]); wp[j] = wp[j].wrapping_mul(choices[*i][j]); } }
                            let r: [$v; 4] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().product(), vs.iter().cloned().product()];
                            run.point(4);
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 2 { ws } else { wp };
                                if t == 0 { run.outcome(got[0] as u64); }
                                if got != want {
                                    run.fail(|| format!("{} over vectors {:?}: {:?} expected {:?}", ["sum of refs", "sum", "product of refs", "product"][t], idx.iter().map(|i| choices[*i]).collect::<Vec<_>>(), got, want));
                                    return;
                                }
                            }
                            let mut i = 0;
                            loop {
                                if i == len { break 'o; }
                                idx[i] += 1;
                                if idx[i] < choices.len() { break; }
                                idx[i] = 0;
                                i += 1;
                            }
                        }
                    }
                    let _ = kk;
                });
                // longer iterators: every length up to 70, every position of a
                // distinguished item, sized and unsized iterators
                e.job(format!("{}/long iterators", stringify!($v)), |run| {
                    let al = int_values($w, 0);
                    let maxlen = [20usize, 36, 70, 140][run.level.min(3) as usize];
                    for len in 0..=maxlen {
                        for mark in 0..=len {
                            let items: Vec<[$s; $n]> = (0..len).map(|i| {
                                let mut a = [0 as $s; $n];
                                for j in 0..$n { a[j] = if i == mark { [3 as $s, 5 as $s][j % 2] } else { al[(1 + i % 7 + j) % al.len()] as $s }; }
                                a
                            }).collect();
                            let vs: Vec<$v> = items.iter().map(|a| unsafe { std::ptr::read_unaligned(a.as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for c in &items { for j in 0..$n { ws[j] = ws[j].wrapping_add(c[j]); wp[j] = wp[j].wrapping_mul(c[j]); } }
                            let r: [$v; 6] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().filter(|_| true).sum(),
                                vs.iter().product(), vs.iter().cloned().product(), vs.iter().cloned().filter(|_| true).product()];
                            run.point(6);
                            run.values(6 * ($n - 1));
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 3 { ws } else { wp };
                                run.outcome(hash_bytes(unsafe { std::slice::from_raw_parts(x as *const $v as *const u8, std::mem::size_of::<$v>()) }));
                                if got != want {
                                    run.fail(|| format!("{} of {len} vectors {items:?}: {got:?} expected {want:?}", ["sum of refs", "sum", "sum of filtered refs", "product of refs", "product", "product of filtered"][t]));
                                    return;
                                }
                            }
                        }
                    }
                });
                // long iterators: lengths around every power of two
                e.job(format!("{}/very long iterators", stringify!($v)), |run| {
                    let top = [8u32, 10, 12, 16][run.level.min(3) as usize];
                    let mut lens = vec![];
                    for b in 5..=top { lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1, 3 << (b - 1)]); }
                    lens.extend([100, 1000]);
                    for len in lens {
                        for mark in [0, 1, len / 2, len - 2, len - 1] {
                            let items: Vec<[$s; $n]> = (0..len).map(|i| {
                                let mut a = [1 as $s; $n];
                                for j in 0..$n { if i == mark { a[j] = [3 as $s, 5 as $s][j % 2]; } else if i % 3 == 0 { a[j] = (0 as $s).wrapping_sub(1); } }
                                a
                            }).collect();
                            let vs: Vec<$v> = items.iter().map(|a| unsafe { std::ptr::read_unaligned(a.as_ptr() as *const $v) }).collect();
                            let mut ws = [0 as $s; $n];
                            let mut wp = [1 as $s; $n];
                            for c in &items { for j in 0..$n { ws[j] = ws[j].wrapping_add(c[j]); wp[j] = wp[j].wrapping_mul(c[j]); } }
                            let r: [$v; 6] = [vs.iter().sum(), vs.iter().cloned().sum(), vs.iter().filter(|_| true).sum(),
                                vs.iter().product(), vs.iter().cloned().product(), vs.iter().cloned().filter(|_| true).product()];
                            run.point(6);
                            run.values(6 * ($n - 1));
                            for (t, x) in r.iter().enumerate() {
                                let got: [$s; $n] = unsafe { std::mem::transmute(*x) };
                                let want = if t < 3 { ws } else { wp };
                                run.outcome(hash_bytes(unsafe { std::slice::from_raw_parts(x as *const $v as *const u8, std::mem::size_of::<$v>()) }));
                                if got != want {
                                    run.fail(|| format!("{} of {len} vectors of ones and minus ones, item {mark} being 3s and 5s: {got:?} expected {want:?}", ["sum of refs", "sum", "sum of filtered refs", "product of refs", "product", "product of filtered"][t]));
                                    return;
                                }
                            }
                        }
                    }
                });
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    macro_rules! mty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                e.whole1(format!("{}/and or xor", stringify!($v)), k(C::M, $w), $n,
                    w!(|p, o| { let a: $v = ld(p, 0); st(o, 0, a.and() as u8); st(o, 1, a.or() as u8); st(o, 2, a.xor() as u8); }), mask_model);
            }
            reg(&mut e);
        }};
    }
    masks!(mty);
    e.finish()
}
