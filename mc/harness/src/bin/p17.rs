//! P17: vectors of pointers: address arithmetic, comparison, construction,
//! lane access, hashing.
use engine::mem::Fenced;
use harness::packed_simd::*;
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const U: K = k(C::U, 64);
const S: K = k(C::I, 64);
const M: K = k(C::M, 64);

fn addresses(level: u32) -> Vec<u128> {
    let mut v = int_values(64, if level >= 2 { 2 } else { 1 });
    v.truncate([40, 120, 300, 1000][level.min(3) as usize]);
    for x in [0x7fff_ffff_f000u128, 0x7fff_ffff_f001, 0x5555_5555_4003, 0xffff_8000_0000_0000] {
        v.push(x);
    }
    v
}
fn pairs(a: &[u128], b: &[u128]) -> Vec<[u128; 3]> {
    let mut t = vec![];
    for x in a {
        for y in b {
            t.push([*x, *y, 0]);
        }
    }
    t
}

/// wrapping_offset / wrapping_add / wrapping_sub, any address, any count.
fn arith(run: &Run, n: usize, size: usize, which: usize, f: F) {
    let a = addresses(run.level);
    let mut c = a.clone();
    for i in 0..40u128 {
        c.push(i.wrapping_mul(7) & !0u64 as u128);
        c.push(i.wrapping_mul(7).wrapping_neg() & !0u64 as u128);
    }
    let lw = Lanewise { args: vec![(U, A::V), (S, A::V)], out: U, n, f, outs: 1 };
    let sz = size as u64;
    lw.explore(run, &pairs(&a, &c), &|t| {
        let (p, c) = (t[0] as u64, t[1] as u64);
        let d = c.wrapping_mul(sz);
        Exp::Bits(if which == 2 { p.wrapping_sub(d) } else { p.wrapping_add(d) } as u128)
    });
}
/// offset / add / sub / offset_from inside one real allocation.
fn inbounds(run: &Run, n: usize, size: usize, which: usize, f: F) {
    let mem = Fenced::new(2);
    let base = mem.lo() as usize;
    let count = mem.len() / size;
    let mut ix: Vec<usize> = vec![0, 1, 2, 3, 5, 7, 8, count / 2, count / 2 + 1, count - 2, count - 1, count];
    if run.level >= 2 {
        ix.extend((0..count).step_by((count / 40).max(1)));
    }
    ix.sort();
    ix.dedup();
    let mut t: Vec<[u128; 3]> = vec![];
    for &i in &ix {
        for &j in &ix {
            let p = (base + i * size) as u128;
            match which {
                0 => t.push([p, (j as i64 - i as i64) as u64 as u128, 0]),
                1 if j >= i => t.push([p, (j - i) as u128, 0]),
                2 if j <= i => t.push([p, (i - j) as u128, 0]),
                3 => t.push([p, (base + j * size) as u128, 0]),
                _ => {}
            }
        }
    }
    let lw = Lanewise { args: vec![(U, A::V), (if which == 3 { U } else { S }, A::V)], out: if which == 3 { S } else { U }, n, f, outs: 1 };
    let sz = size as u64;
    lw.explore(run, &t, &|t| {
        let (p, c) = (t[0] as u64, t[1] as u64);
        Exp::Bits(match which {
            0 | 1 => p.wrapping_add(c.wrapping_mul(sz)),
            2 => p.wrapping_sub(c.wrapping_mul(sz)),
            _ => ((p as i64 - c as i64) / sz as i64) as u64,
        } as u128)
    });
}
fn distance(run: &Run, n: usize, size: usize, f: F) {
    let a = addresses(run.level);
    let lw = Lanewise { args: vec![(U, A::V), (U, A::V)], out: S, n, f, outs: 1 };
    lw.explore(run, &pairs(&a, &a), &|t| {
        let d = (t[0] as u64).wrapping_sub(t[1] as u64) as i64;
        Exp::Bits((d / size as i64) as u64 as u128)
    });
}
fn compare(run: &Run, n: usize, which: usize, f: F) {
    let a = addresses(run.level);
    let lw = Lanewise { args: vec![(U, A::V), (U, A::V)], out: M, n, f, outs: 1 };
    lw.explore(run, &pairs(&a, &a), &|t| {
        let (x, y) = (t[0], t[1]);
        let r = match which {
            0 => x == y,
            1 => x != y,
            2 => x < y,
            3 => x <= y,
            4 => x > y,
            5 => x >= y,
            _ => x == 0,
        };
        Exp::Bits(if r { M.mask() } else { 0 })
    });
}
/// slots: 0 ==, 1 !=, 2 hashes equal
fn whole(run: &Run, n: usize, f: F) {
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 2 * SLOT);
    for_each_pair(U, n, run.level, &mut |a, b| {
        for j in 0..n {
            inp.put(0, 8, j, a[j]);
            inp.put(1, 8, j, b[j]);
        }
        f(inp.0.as_ptr(), out.0.as_mut_ptr());
        run.point(3);
        let r = [out.get(0, 1, 0), out.get(1, 1, 0), out.get(2, 1, 0)];
        run.outcome(r[0] as u64 * 4 + r[1] as u64 * 2 + r[2] as u64);
        let eq = (a == b) as u128;
        let ok = r[0] == eq && r[1] == 1 - eq && (eq == 0 || r[2] == 1);
        if !ok {
            run.fail(|| format!("{a:x?} vs {b:x?}: ==:{} !=:{} equal hashes:{}", r[0], r[1], r[2]));
        }
        ok
    });
}
fn access(run: &Run, n: usize, f: F, g: F) {
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 3 * SLOT);
    let al = addresses(0);
    for b in 0..al.len() {
        for j in 0..n {
            inp.put(0, 8, j, al[(b + j * 3) % al.len()]);
        }
        for i in 0..n {
            inp.put(1, 8, 0, i as u128);
            inp.put(2, 8, 0, al[(b + 1) % al.len()]);
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            g(inp.0.as_ptr(), out.0[SLOT..].as_mut_ptr());
            run.point(6);
            run.outcome(out.get(0, 8, 0) as u64);
            // slot 0: extract, 1: replace, 2: new, 3: From, 4: Into, 5: splat, 6: default, 7: null
            for j in 0..n {
                let x = inp.get(0, 8, j);
                let nv = inp.get(2, 8, 0);
                let want = [if j == 0 { inp.get(0, 8, i) } else { out.get(0, 8, j) }, if j == i { nv } else { x }, x, x, x, nv, 0, 0];
                for (s, w) in want.iter().enumerate() {
                    if out.get(s, 8, j) != *w {
                        run.fail(|| format!("{} lane {j} (index {i}): {:x} expected {:x}", ["extract", "replace", "new", "from array", "into array", "splat", "default", "null"][s], out.get(s, 8, j), w));
                        return;
                    }
                }
            }
        }
    }
    for i in (n..4 * n).chain([1 << 32, 1 << 63, (1 << 32) + 1, usize::MAX]) {
        inp.put(1, 8, 0, i as u128);
        run.point(2);
        // f does extract (forms selected by slot 3)
        for form in 0..2 {
            inp.put(3, 8, 0, form + 1);
            let r = catch(|| f(inp.0.as_ptr(), out.0.as_mut_ptr()));
            inp.put(3, 8, 0, 0);
            if r.is_ok() {
                run.fail(|| format!("{}({i}) on {n} lanes did not panic", ["extract", "replace"][form as usize]));
                return;
            }
        }
    }
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn main() {
    let mut e = Engine::from_args("P17");
    macro_rules! cmp {
        ($v:ident, $pm:ident, $n:tt, $t:ty) => {{
            type V = $v<$t>;
            let nm = |s: &str| format!("{}<{}>/{}", stringify!($v), stringify!($t), s);
            e.job(nm("eq"), |r| compare(r, $n, 0, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.eq(c)); })));
            e.job(nm("ne"), |r| compare(r, $n, 1, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.ne(c)); })));
            e.job(nm("lt"), |r| compare(r, $n, 2, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.lt(c)); })));
            e.job(nm("le"), |r| compare(r, $n, 3, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.le(c)); })));
            e.job(nm("gt"), |r| compare(r, $n, 4, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.gt(c)); })));
            e.job(nm("ge"), |r| compare(r, $n, 5, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.ge(c)); })));
            e.job(nm("is_null"), |r| compare(r, $n, 6, w!(|p, o| { let a: V = ld(p, 0); st(o, 0, a.is_null()); })));
            e.job(nm("== != hash"), |r| whole(r, $n, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1);
                st(o, 0, (a == c) as u8); st(o, 1, (a != c) as u8); st(o, 2, (h(&a) == h(&c) && h(&a) == h(&ld::<[usize; $n]>(p, 0))) as u8); })));
            e.job(nm("construct and access"), |r| access(r, $n,
                w!(|p, o| { let a: V = ld(p, 0); let i: usize = ld(p, 1); let x: *$pm $t = ld(p, 2); let arr: [*$pm $t; $n] = ld(p, 0);
                    let form: usize = ld(p, 3);
                    if form != 2 { let y = a.extract(i); if form == 0 { assert!(y == a.extract_unchecked(i)); } st(o, 0, y); }
                    if form != 1 { let y = a.replace(i, x); if form == 0 { assert!(y == a.replace_unchecked(i, x)); } st(o, 1, y); }
                    st(o, 2, new_call!($n V, arr)); }),
                w!(|p, o| { let a: V = ld(p, 0); let x: *$pm $t = ld(p, 2); let arr: [*$pm $t; $n] = ld(p, 0);
                    assert_eq!(V::lanes(), $n);
                    st(o, 2, V::from(arr)); let b: [*$pm $t; $n] = a.into(); st(o, 3, b); st(o, 4, V::splat(x)); st(o, 5, V::default()); st(o, 6, V::null()); })));
        }};
    }
    macro_rules! ptr {
        ($v:ident, $pm:ident, $n:tt, $uv:ident, $iv:ident; $($t:ty),*) => {{
            $({
                type V = $v<$t>;
                let nm = |s: &str| format!("{}<{}>/{}", stringify!($v), stringify!($t), s);
                let size = std::mem::size_of::<$t>();
                e.job(nm("wrapping_offset"), move |r| arith(r, $n, size, 0, w!(|p, o| { let a: V = ld(p, 0); let c: $iv = ld(p, 1); st(o, 0, a.wrapping_offset(c)); })));
                e.job(nm("wrapping_add"), move |r| arith(r, $n, size, 1, w!(|p, o| { let a: V = ld(p, 0); let c: $uv = ld(p, 1); st(o, 0, a.wrapping_add(c)); })));
                e.job(nm("wrapping_sub"), move |r| arith(r, $n, size, 2, w!(|p, o| { let a: V = ld(p, 0); let c: $uv = ld(p, 1); st(o, 0, a.wrapping_sub(c)); })));
                e.job(nm("offset"), move |r| inbounds(r, $n, size, 0, w!(|p, o| { let a: V = ld(p, 0); let c: $iv = ld(p, 1); st(o, 0, a.offset(c)); })));
                e.job(nm("add"), move |r| inbounds(r, $n, size, 1, w!(|p, o| { let a: V = ld(p, 0); let c: $uv = ld(p, 1); st(o, 0, a.add(c)); })));
                e.job(nm("sub"), move |r| inbounds(r, $n, size, 2, w!(|p, o| { let a: V = ld(p, 0); let c: $uv = ld(p, 1); st(o, 0, a.sub(c)); })));
                e.job(nm("offset_from"), move |r| inbounds(r, $n, size, 3, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.offset_from(c)); })));
                e.job(nm("wrapping_offset_from"), move |r| distance(r, $n, size, w!(|p, o| { let a: V = ld(p, 0); let c: V = ld(p, 1); st(o, 0, a.wrapping_offset_from(c)); })));
            })*
            cmp!($v, $pm, $n, u8);
            cmp!($v, $pm, $n, u16);
            cmp!($v, $pm, $n, [u32; 3]);
        }};
    }
    ptr!(cptrx2, const, 2, usizex2, isizex2; u8, u16, u32, u64, [u8; 3], [u32; 3], u128, [u64; 5], [u8; 4096]);
    macro_rules! rest { ($($v:ident $pm:ident $n:tt $uv:ident $iv:ident)*) => { $(ptr!($v, $pm, $n, $uv, $iv; u8, u32, [u8; 3], u64, [u32; 3]);)* } }
    rest!(cptrx4 const 4 usizex4 isizex4 cptrx8 const 8 usizex8 isizex8 mptrx2 mut 2 usizex2 isizex2 mptrx4 mut 4 usizex4 isizex4 mptrx8 mut 8 usizex8 isizex8);
    e.finish()
}
