//! P11: construction, lane access, replacement, arrays, default, layout.
use harness::packed_simd::*;
use harness::*;

/// slots: 0 new, 1 From<array>, 2 Into<array>, 3 extract of each lane,
/// 4 extract_unchecked of each lane, 5 array via std From, 6 transmuted copy
fn build_model(kk: K, v: &[u128]) -> Vec<(usize, K, Vec<Exp>)> {
    (0..7).map(|s| (s, kk, v.iter().map(|x| Exp::Bits(*x)).collect())).collect()
}
fn splat_oracle(_: K, _: K, t: &[u128; 3]) -> Exp {
    Exp::Bits(t[0])
}

fn bad_indices(n: usize) -> Vec<usize> {
    let mut v = vec![];
    for i in n..2 * n + 3 {
        v.push(i);
    }
    for s in 0..64 {
        for d in [0usize, 1, n - 1] {
            let x = (1usize << s).wrapping_add(d);
            if x >= n {
                v.push(x);
            }
            let y = (n << s.min(56)).wrapping_add(d);
            if y >= n {
                v.push(y);
            }
        }
    }
    v.push(usize::MAX);
    v.push(usize::MAX - n + 1);
    v.push(isize::MAX as usize);
    v.sort();
    v.dedup();
    v
}

/// get: slot0 = vector, slot1 = index -> slot0 element (safe), slot 1 element (unchecked, only if valid)
/// set: slot0 = vector, slot1 = index, slot2 = element -> slot0 (safe), slot1 (unchecked if valid), slot2 original afterwards
#[allow(clippy::too_many_arguments)]
fn access(run: &Run, kk: K, n: usize, get: F, set: F) {
    let kb = kk.bytes();
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), SLOT * 3);
    let vals: Vec<u128> = match kk.c {
        C::M => vec![0, kk.mask()],
        C::F => float_values(kk.w, 0),
        _ => int_values(kk.w, 0),
    };
    // background vectors
    let mut bg: Vec<Vec<u128>> = vec![];
    for s in [1usize, 3, 5] {
        for o in 0..(if kk.c == C::M { 2 } else { 4 }) {
            bg.push((0..n).map(|j| vals[(o + j * s) % vals.len()]).collect());
        }
    }
    for a in [0, 1] {
        bg.push(vec![vals[a]; n]);
    }
    for b in &bg {
        for (j, x) in b.iter().enumerate() {
            inp.put(0, kb, j, *x);
        }
        for i in 0..n {
            inp.put(1, 8, 0, i as u128);
            get(inp.0.as_ptr(), out.0.as_mut_ptr());
            run.point(2);
            for s in 0..2 {
                let a = out.get(s, kb, 0);
                run.outcome(a as u64 ^ i as u64);
                if a != b[i] {
                    run.fail(|| format!("{}({i}) of {:x?}: got {:x}", ["extract", "extract_unchecked"][s], b, a));
                    return;
                }
            }
            for x in &vals {
                inp.put(2, kb, 0, *x);
                set(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.point(2);
                for s in 0..3 {
                    for j in 0..n {
                        let want = if j == i && s < 2 { *x } else { b[j] };
                        let a = out.get(s, kb, j);
                        if a != want {
                            run.fail(|| {
                                format!("{}({i}, {x:x}) on {:x?}: lane {j} is {:x}, expected {:x}", ["replace", "replace_unchecked", "operand after replace"][s], b, a, want)
                            });
                            return;
                        }
                    }
                }
            }
        }
    }
    for i in bad_indices(n) {
        for b in bg.iter().take(2) {
            for (j, x) in b.iter().enumerate() {
                inp.put(0, kb, j, *x);
            }
            inp.put(1, 8, 0, i as u128);
            inp.put(2, kb, 0, vals[1]);
            run.point(2);
            if catch(|| get(inp.0.as_ptr(), out.0.as_mut_ptr())).is_ok() {
                run.fail(|| format!("extract({i}) of a {n}-lane vector did not panic"));
                return;
            }
            if catch(|| set(inp.0.as_ptr(), out.0.as_mut_ptr())).is_ok() {
                run.fail(|| format!("replace({i}, ..) of a {n}-lane vector did not panic"));
                return;
            }
        }
    }
}

/// Explicit-state exploration: states = vectors over a 2-value alphabet
/// reachable from `splat(a)` by single-lane replacements; every transition is
/// executed on the real type and compared with an array model.
fn histories(run: &Run, kk: K, n: usize, set: F) {
    let kb = kk.bytes();
    let al: [u128; 2] = match kk.c {
        C::M => [0, kk.mask()],
        C::F => {
            if kk.w == 32 {
                [f32b(-0.0), f32b(1.5)]
            } else {
                [f64b(-0.0), f64b(1.5)]
            }
        }
        _ => [1u128 << (kk.w - 1), kk.mask() >> 1],
    };
    let depth = if n <= 8 || (n <= 16 && run.level >= 2) {
        n
    } else if run.level >= 3 {
        3
    } else if run.level >= 1 {
        2
    } else {
        1
    };
    let mut seen: std::collections::HashSet<u64> = Default::default();
    let mut frontier = vec![0u64];
    seen.insert(0);
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), SLOT * 3);
    for _ in 0..=depth {
        let mut next = vec![];
        for &s in &frontier {
            for j in 0..n {
                inp.put(0, kb, j, al[(s >> j & 1) as usize]);
            }
            for i in 0..n {
                for b in 0..2u64 {
                    inp.put(1, 8, 0, i as u128);
                    inp.put(2, kb, 0, al[b as usize]);
                    set(inp.0.as_ptr(), out.0.as_mut_ptr());
                    run.point(1);
                    let t = (s & !(1 << i)) | b << i;
                    for j in 0..n {
                        if out.get(0, kb, j) != al[(t >> j & 1) as usize] {
                            run.fail(|| format!("after a history reaching lane pattern {s:#b}, replace({i}, {:x}) left lane {j} = {:x}", al[b as usize], out.get(0, kb, j)));
                            return;
                        }
                    }
                    run.outcome(t);
                    if seen.insert(t) {
                        next.push(t);
                    }
                }
            }
        }
        frontier = next;
    }
    if n <= depth && seen.len() as u64 != 1 << n {
        run.fail(|| "HARNESS-ERROR: state space not covered".into());
    }
}

fn main() {
    let mut e = Engine::from_args("P11");
    macro_rules! common {
        ($e:ident $v:ident $s:ident $c:ident $w:literal $n:tt $zero:expr, $get:expr, $set:expr) => {
            $e.job(format!("{}/lane access", stringify!($v)), |run| access(run, k(C::$c, $w), $n, $get, $set));
            $e.job(format!("{}/replace histories", stringify!($v)), |run| histories(run, k(C::$c, $w), $n, $set));
            $e.job(format!("{}/shape", stringify!($v)), |run| {
                run.point(4);
                run.outcome($n);
                run.outcome(99);
                run.check($v::lanes() == $n, || format!("lanes() = {}", $v::lanes()));
                const L: usize = $v::lanes();
                run.check(L == $n, || format!("const lanes() = {L}"));
                run.check(<$v as SimdVector>::LANES == $n, || format!("SimdVector::LANES = {}", <$v as SimdVector>::LANES));
                // the alias and the array-parameterised type are the same type
                let _: fn(Simd<[$s; $n]>) -> $v = |x| x;
                let _: fn(<$v as SimdVector>::Element) -> $s = |x| x;
                run.check(std::mem::size_of::<$v>() == $n * $w / 8, || format!("size {}", std::mem::size_of::<$v>()));
                run.check(std::mem::align_of::<$v>() == $n * $w / 8, || format!("align {}", std::mem::align_of::<$v>()));
                let d: [u8; $n * $w / 8] = unsafe { std::mem::transmute($v::default()) };
                run.check(d.iter().all(|x| *x == 0), || format!("default() = {d:?}"));
            });
        };
    }
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:tt $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::$c, $w);
                e.whole1(format!("{}/construct", stringify!($v)), kk, $n,
                    w!(|p, o| {
                        let a: [$s; $n] = ld(p, 0);
                        let v: $v = ld(p, 0);
                        st(o, 0, new_call!($n $v, a));
                        st(o, 1, $v::from(a));
                        let b: [$s; $n] = v.into();
                        st(o, 2, b);
                        let mut c = [a[0]; $n];
                        let mut d = [a[0]; $n];
                        for i in 0..$n { c[i] = v.extract(i); d[i] = v.extract_unchecked(i); }
                        st(o, 3, c);
                        st(o, 4, d);
                        let b: [$s; $n] = <[$s; $n]>::from($v::from(a));
                        st(o, 5, b);
                        let mut r = $v::default();
                        for i in 0..$n { r = r.replace(i, a[i]); }
                        st(o, 6, r);
                    }), build_model);
                e.lw(format!("{}/splat", stringify!($v)), &[(kk, A::S)], kk, $n, 2,
                    w!(|p, o| { let s: $s = ld(p, 0); st(o, 0, $v::splat(s)); st(o, 1, { let v = $v::splat(s); v }); }), always, splat_oracle);
                common!(e $v $s $c $w $n 0 as $s,
                    w!(|p, o| { let v: $v = ld(p, 0); let i: usize = ld(p, 1); st(o, 0, v.extract(i)); if i < $n { st(o, 1, v.extract_unchecked(i)); } }),
                    w!(|p, o| { let v: $v = ld(p, 0); let i: usize = ld(p, 1); let x: $s = ld(p, 2);
                        st(o, 0, v.replace(i, x)); if i < $n { st(o, 1, v.replace_unchecked(i, x)); } st(o, 2, v); }));
            }
            reg(&mut e);
        }};
    }
    ints!(ty);
    floats!(ty);
    macro_rules! mty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:tt $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                let kk = k(C::M, $w);
                e.whole1(format!("{}/construct", stringify!($v)), kk, $n,
                    w!(|p, o| {
                        let r: [$u; $n] = ld(p, 0);
                        let mut a = [false; $n];
                        let mut ma = [$s::new(false); $n];
                        for i in 0..$n { a[i] = r[i] != 0; ma[i] = $s::new(a[i]); }
                        let v: $v = ld(p, 0);
                        st(o, 0, new_call!($n $v, a));
                        st(o, 1, $v::from(ma));
                        let b: [$s; $n] = v.into();
                        st(o, 2, b);
                        let t = !(0 as $u);
                        let mut c = [0 as $u; $n];
                        let mut d = [0 as $u; $n];
                        for i in 0..$n { c[i] = if v.extract(i) { t } else { 0 }; d[i] = if v.extract_unchecked(i) { t } else { 0 }; }
                        st(o, 3, c);
                        st(o, 4, d);
                        let mut q = [0 as $u; $n];
                        for i in 0..$n { q[i] = if b[i].test() { t } else { 0 }; }
                        st(o, 5, q);
                        let mut r = $v::default();
                        for i in 0..$n { r = r.replace(i, a[i]); }
                        st(o, 6, r);
                    }), build_model);
                e.lw(format!("{}/splat", stringify!($v)), &[(kk, A::S)], kk, $n, 1,
                    w!(|p, o| { let s: $u = ld(p, 0); st(o, 0, $v::splat(s != 0)); }), always, splat_oracle);
                common!(e $v $s M $w $n 0,
                    w!(|p, o| { let v: $v = ld(p, 0); let i: usize = ld(p, 1); let t = !(0 as $u);
                        st(o, 0, if v.extract(i) { t } else { 0 }); if i < $n { st(o, 1, if v.extract_unchecked(i) { t } else { 0 }); } }),
                    w!(|p, o| { let v: $v = ld(p, 0); let i: usize = ld(p, 1); let x: $u = ld(p, 2);
                        st(o, 0, v.replace(i, x != 0)); if i < $n { st(o, 1, v.replace_unchecked(i, x != 0)); } st(o, 2, v); }));
            }
            reg(&mut e);
        }};
    }
    masks!(mty);
    e.finish()
}
