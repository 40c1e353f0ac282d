//! P14: shuffles with run-time indices.
use harness::packed_simd::*;
use harness::*;

fn explore(run: &Run, kk: K, n: usize, f: F) {
    let kb = kk.bytes();
    let ones = kk.mask();
    let mut inputs: Vec<Vec<u128>> = vec![];
    if kk.c == C::M {
        // bit k of the lane number: together they identify every lane
        let mut bit = 0;
        while 1 << bit < n {
            inputs.push((0..n).map(|i| if i >> bit & 1 == 1 { ones } else { 0 }).collect());
            bit += 1;
        }
        inputs.push(vec![ones; n]);
        inputs.push(vec![0; n]);
        inputs.push((0..n).map(|i| if (i ^ (i >> 1) ^ (i >> 2)) & 1 == 1 { ones } else { 0 }).collect());
    } else {
        inputs.push((0..n).map(|i| (0x0102_0408_1020_4080_0103_0509_1121_4181u128.rotate_left(i as u32).wrapping_mul(2 * i as u128 + 3) & ones) ^ i as u128).collect());
        inputs.push((0..n).map(|i| (!(i as u128 * 2)) & ones).collect());
    }
    let al: Vec<u128> = (0..n as u128).collect();
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 2 * SLOT);
    for v in &inputs {
        for (i, x) in v.iter().enumerate() {
            inp.put(0, kb, i, *x);
        }
        let mut visit = |idx: &[u128]| -> bool {
            for (i, x) in idx.iter().enumerate() {
                inp.put(1, kb, i, *x);
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(1);
            run.values(n as u64 - 1);
            run.outcome(hash_bytes(&out.0[..n * kb]));
            for j in 0..n {
                let a = out.get(0, kb, j);
                let want = v[idx[j] as usize];
                if a != want {
                    run.fail(|| format!("{v:x?} shuffled by indices {idx:?}: lane {j} is {a:x}, expected {want:x}"));
                    return false;
                }
            }
            true
        };
        // complete when n^n fits the budget (always for n <= 4)
        let bud = [2_000, 10_000, 20_000_000, 20_000_000][run.level.min(3) as usize];
        let mut go = true;
        if (n as f64).powi(n as i32) <= bud as f64 {
            let mut c = vec![vec![]; n];
            c.fill(al.clone());
            product(&c, &mut |i| {
                if go {
                    go = visit(i)
                }
            });
            if !go {
                return;
            }
            continue;
        }
        // otherwise: bases x (one/two deviating lanes x all values)
        let nn = n as u128;
        let mut bases: Vec<Vec<u128>> = vec![];
        for s in 0..n {
            bases.push((0..n).map(|i| ((i + s) % n) as u128).collect());
            bases.push((0..n).map(|i| ((2 * n - 1 - i + s) % n) as u128).collect());
            bases.push(vec![s as u128; n]);
            bases.push((0..n).map(|i| (i ^ s) as u128).collect());
            bases.push((0..n).map(|i| ((i * (2 * s + 1)) % n) as u128).collect());
            bases.push((0..n).map(|i| ((i / 2 + (i % 2) * n / 2 + s) % n) as u128).collect());
            bases.push((0..n).map(|i| ((i * 2 + i * 2 / n + s) % n) as u128).collect());
        }
        bases.sort();
        bases.dedup();
        for b in &bases {
            if !visit(b) {
                return;
            }
        }
        let nb = if run.level >= 3 || (run.level == 2 && n <= 16) { bases.len() } else { [4, 6, 16][run.level.min(2) as usize] };
        let step = (bases.len() / nb).max(1);
        for b in bases.iter().step_by(step) {
            let mut x = b.clone();
            for i in 0..n {
                for val in 0..nn {
                    x[i] = val;
                    if !visit(&x) {
                        return;
                    }
                }
                x[i] = b[i];
            }
        }
        // two deviating lanes from the identity
        let mut x: Vec<u128> = al.clone();
        for i in 0..n {
            for j in i + 1..n {
                let vals: Vec<u128> = if n <= 16 || run.level >= 3 { al.clone() } else { vec![0, nn - 1, i as u128, j as u128, nn / 2] };
                for &a in &vals {
                    for &b in &vals {
                        x[i] = a;
                        x[j] = b;
                        if !visit(&x) {
                            return;
                        }
                    }
                }
                x[i] = al[i];
                x[j] = al[j];
            }
        }
        // every contiguous block moved to every place
        for len in 1..=n {
            for from in 0..=n - len {
                for to in 0..=n - len {
                    if run.level < 2 && (from + to + len) % 5 != 0 {
                        continue;
                    }
                    for i in 0..n {
                        x[i] = if i >= to && i < to + len { (from + i - to) as u128 } else { 0 };
                    }
                    if !visit(&x) {
                        return;
                    }
                }
            }
        }
    }
}

/// The whole-vector space shuffled by a few index vectors.
fn values(run: &Run, kk: K, n: usize, f: F) {
    let kb = kk.bytes();
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 2 * SLOT);
    let mut lists: Vec<Vec<usize>> = vec![
        (0..n).collect(),
        (0..n).rev().collect(),
        (0..n).map(|i| (i + 1) % n).collect(),
        (0..n).map(|i| i ^ 1 & (n - 1)).collect(),
        (0..n).map(|i| i / 2).collect(),
        vec![n - 1; n],
    ];
    lists.sort();
    lists.dedup();
    for_each_vec(kk, n, run.level.min(1), &mut |v| {
        for (i, x) in v.iter().enumerate() {
            inp.put(0, kb, i, *x);
        }
        for l in &lists {
            for (i, x) in l.iter().enumerate() {
                inp.put(1, kb, i, *x as u128);
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(1);
            run.values(n as u64 - 1);
            for j in 0..n {
                let a = out.get(0, kb, j);
                if a != v[l[j]] {
                    run.fail(|| format!("{v:x?} shuffled by indices {l:?}: lane {j} is {a:x}, expected {:x}", v[l[j]]));
                    return false;
                }
            }
        }
        run.outcome(hash_bytes(&out.0[..n * kb]));
        true
    });
}

fn main() {
    let mut e = Engine::from_args("P14");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/shuffle1_dyn", stringify!($v)), |run| {
                explore(run, k(C::$c, $w), $n, w!(|p, o| { let v: $v = ld(p, 0); let i: $ix = ld(p, 1); st(o, 0, v.shuffle1_dyn(i)); }))
            });
            e.job(format!("{}/shuffle1_dyn of all values", stringify!($v)), |run| {
                values(run, k(C::$c, $w), $n, w!(|p, o| { let v: $v = ld(p, 0); let i: $ix = ld(p, 1); st(o, 0, v.shuffle1_dyn(i)); }))
            });
        }};
    }
    ints!(ty);
    floats!(ty);
    masks!(ty);
    macro_rules! pty {
        ($v:ty, $n:literal, $ix:ident) => {{
            e.job(format!("{}/shuffle1_dyn", stringify!($v)), |run| {
                explore(run, k(C::U, 64), $n, w!(|p, o| { let v: $v = ld(p, 0); let i: $ix = ld(p, 1); st(o, 0, v.shuffle1_dyn(i)); }))
            });
            e.job(format!("{}/shuffle1_dyn of all values", stringify!($v)), |run| {
                values(run, k(C::U, 64), $n, w!(|p, o| { let v: $v = ld(p, 0); let i: $ix = ld(p, 1); st(o, 0, v.shuffle1_dyn(i)); }))
            });
        }};
    }
    pty!(cptrx2<u8>, 2, usizex2);
    pty!(cptrx4<u8>, 4, usizex4);
    pty!(cptrx8<u8>, 8, usizex8);
    pty!(mptrx2<u32>, 2, usizex2);
    pty!(mptrx4<u32>, 4, usizex4);
    pty!(mptrx8<u32>, 8, usizex8);
    e.finish()
}
