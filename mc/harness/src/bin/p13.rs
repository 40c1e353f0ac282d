//! P13: shuffles with constant indices.
use harness::packed_simd::*;
use harness::*;

struct G {
    kk: K,
    n: usize,
    m: usize,
    two: bool,
}

fn explore(run: &Run, g: &G, list: &[(&[u32], F)]) {
    let kb = g.kk.bytes();
    let total = 2 * g.n;
    // inputs: each source lane alone set, each alone clear, position codes
    let mut inputs: Vec<Vec<u128>> = vec![];
    let ones = g.kk.mask();
    for i in 0..total {
        let mut v = vec![0; total];
        v[i] = ones;
        inputs.push(v);
        let mut v = vec![ones; total];
        v[i] = 0;
        inputs.push(v);
    }
    if g.kk.c != C::M {
        for s in [0x0102_0408_1020_4080_0103_0509_1121_4181u128, 0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c834] {
            inputs.push((0..total).map(|i| s.rotate_left(i as u32).wrapping_mul(2 * i as u128 + 3) & ones).collect());
        }
        inputs.push((0..total).map(|i| (i as u128 * 3 + 1) & ones).collect());
    }
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 2 * SLOT);
    for v in &inputs {
        for i in 0..g.n {
            inp.put(0, kb, i, v[i]);
            inp.put(1, kb, i, v[g.n + i]);
        }
        for (idx, f) in list {
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(1);
            run.values(g.m as u64 - 1);
            run.outcome(hash_bytes(&out.0[..g.m * kb]));
            for j in 0..g.m {
                let a = out.get(0, kb, j);
                let want = v[idx[j] as usize];
                if a != want {
                    run.fail(|| {
                        format!(
                            "shuffle of {} with indices {idx:?} over source lanes {:x?}: lane {j} is {a:x}, expected {want:x}",
                            if g.two { "two vectors" } else { "one vector" },
                            &v[..if g.two { total } else { g.n }]
                        )
                    });
                    return;
                }
            }
        }
    }
    run.sample(|| format!("{} index lists, e.g. {:?}, x {} inputs", list.len(), list[list.len() / 2].0, inputs.len()));
}

fn main() {
    let mut e = Engine::from_args("P13");
    macro_rules! sh {
        (one $src:ty, $dst:ty, $a:ident, $b:ident, $i:tt) => {{
            let r: $dst = shuffle!($a, $i);
            r
        }};
        (two $src:ty, $dst:ty, $a:ident, $b:ident, $i:tt) => {{
            let r: $dst = shuffle!($a, $b, $i);
            r
        }};
    }
    let mut used: std::collections::HashSet<String> = Default::default();
    macro_rules! grp {
        ($src:ty, $dst:ty, $c:ident, $w:literal, $n:literal, $m:literal, $form:ident, [$($idx:tt)*]) => {{
            const L: &[(&[u32], F)] = &[$((&$idx, {
                fn f(p: *const u8, o: *mut u8) {
                    unsafe {
                        let a: $src = ld(p, 0);
                        let _b: $src = ld(p, 1);
                        st(o, 0, sh!($form $src, $dst, a, _b, $idx));
                    }
                }
                f as F
            })),*];
            let mut id = format!("{} -> {} ({})", stringify!($src), stringify!($dst), stringify!($form));
            if !used.insert(id.clone()) { id.push_str(" all index lists"); }
            let g = G { kk: k(C::$c, $w), n: $n, m: $m, two: stringify!($form) == "two" };
            e.job(id, move |run| explore(run, &g, L));
        }};
    }
    include!("../p13_table.in");
    e.job("operands evaluated once", |run| {
        use std::cell::Cell;
        let c = Cell::new(0);
        let v = || {
            c.set(c.get() + 1);
            i32x4::new(c.get(), 10, 20, 30)
        };
        let r = shuffle!(v(), [3, 2, 1, 0]);
        run.point(1);
        run.outcome(1);
        run.check(c.get() == 1 && r == i32x4::new(30, 20, 10, 1), || format!("one-vector form evaluated its operand {} times: {r:?}", c.get()));
        c.set(0);
        let r = shuffle!(v(), v(), [0, 4, 1, 5]);
        run.point(1);
        run.outcome(2);
        run.check(c.get() == 2 && r == i32x4::new(1, 2, 10, 10), || format!("two-vector form evaluated its operands {} times: {r:?}", c.get()));
    });
    e.job("operands evaluated once and in order, every arm", |run| {
        use std::cell::Cell;
        let c = Cell::new(0u8);
        macro_rules! arm {
            ($v:ident, $n:literal, $one:tt, $two:tt) => {{
                let v = || {
                    c.set(c.get() + 1);
                    let mut r = $v::splat(0);
                    for i in 0..$n { r = r.replace(i, c.get() * 64 + i as u8); }
                    r
                };
                c.set(0);
                let r: $v = shuffle!(v(), $one);
                let ok = c.get() == 1 && (0..$n).all(|i| r.extract(i) == 64 + ($n - 1 - i) as u8);
                run.point(2);
                run.outcome($n);
                run.check(ok, || format!("one-vector form with {} indices: operand evaluated {} times, result {r:?}", $n, c.get()));
                c.set(0);
                let r: $v = shuffle!(v(), v(), $two);
                let ok = c.get() == 2 && (0..$n).all(|i| r.extract(i) == 64 * (1 + i % 2) as u8 + (i / 2) as u8);
                run.check(ok, || format!("two-vector form with {} indices: operands evaluated {} times, result {r:?}", $n, c.get()));
            }};
        }
        arm!(u8x2, 2, [1, 0], [0, 2]);
        arm!(u8x4, 4, [3, 2, 1, 0], [0, 4, 1, 5]);
        arm!(u8x8, 8, [7, 6, 5, 4, 3, 2, 1, 0], [0, 8, 1, 9, 2, 10, 3, 11]);
        arm!(u8x16, 16, [15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 16, 1, 17, 2, 18, 3, 19, 4, 20, 5, 21, 6, 22, 7, 23]);
        arm!(u8x32, 32, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 32, 1, 33, 2, 34, 3, 35, 4, 36, 5, 37, 6, 38, 7, 39, 8, 40, 9, 41, 10, 42, 11, 43, 12, 44, 13, 45, 14, 46, 15, 47]);
        arm!(u8x64, 64, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 64, 1, 65, 2, 66, 3, 67, 4, 68, 5, 69, 6, 70, 7, 71, 8, 72, 9, 73, 10, 74, 11, 75, 12, 76, 13, 77, 14, 78, 15, 79, 16, 80, 17, 81, 18, 82, 19, 83, 20, 84, 21, 85, 22, 86, 23, 87, 24, 88, 25, 89, 26, 90, 27, 91, 28, 92, 29, 93, 30, 94, 31, 95]);
    });
    e.finish()
}
