//! P12: reading vectors from and writing vectors to slices.
use engine::mem::Fenced;
use harness::packed_simd::*;
use harness::*;

const RN: [&str; 4] = ["from_slice_unaligned", "from_slice_aligned", "from_slice_unaligned_unchecked", "from_slice_aligned_unchecked"];
const WN: [&str; 4] = ["write_to_slice_unaligned", "write_to_slice_aligned", "write_to_slice_unaligned_unchecked", "write_to_slice_aligned_unchecked"];

#[derive(Copy, Clone)]
struct T {
    n: usize,
    eb: usize,
    ea: usize,
    va: usize,
    /// (kind, base, len, out vector)
    rd: fn(usize, *const u8, usize, *mut u8),
    /// (kind, base, len, vector)
    wr: fn(usize, *mut u8, usize, *const u8),
}

fn pat(seed: usize, i: usize) -> u8 {
    (i.wrapping_mul(167) ^ (i >> 4).wrapping_mul(59) ^ seed.wrapping_mul(0x5b)) as u8
}

fn explore(run: &Run, t: T) {
    let f = Fenced::new(2);
    let sz = t.n * t.eb;
    let page = f.len();
    let mut lens: Vec<usize> = (0..=t.n + 2).collect();
    lens.extend([2 * t.n, 3 * t.n + 1, 4 * t.n]);
    lens.sort();
    lens.dedup();
    let seeds = [1, 2, 4][run.level.min(2) as usize];
    let mut val = Block::new();
    let mut out = Block::new();
    for seed in 0..seeds {
        for i in 0..page {
            f.bytes_mut()[i] = pat(seed, i);
        }
        let snap: Vec<u8> = f.bytes().to_vec();
        for i in 0..sz {
            val.0[i] = !pat(seed + 7, i);
        }
        for &len in &lens {
            // every element-aligned placement in a window of one vector
            // alignment (plus one element) at both fences
            let mut starts = vec![];
            let mut o = 0;
            while o <= t.va + t.ea {
                starts.push(o);
                if len * t.eb + o <= page {
                    starts.push(page - len * t.eb - o);
                }
                o += t.ea;
            }
            // and across the inner page boundary and the cache lines beside it
            if len + 1 == t.n || len == t.n || len == t.n + 1 || len == 4 * t.n {
                let mut o = page / 2 - sz - 64;
                while o <= page / 2 + 64 {
                    starts.push(o);
                    o += t.ea;
                }
            }
            for s in starts {
                let base = unsafe { f.lo().add(s) };
                let fits = len >= t.n;
                let aligned = base as usize % t.va == 0;
                for kind in 0..4 {
                    let ok = fits && (aligned || kind % 2 == 0);
                    if !ok && kind >= 2 {
                        continue;
                    }
                    run.point(2);
                    run.values(2 * (t.n as u64 - 1));
                    out.0[..sz].fill(0xcc);
                    let r = catch(|| (t.rd)(kind, base, len, out.0.as_mut_ptr()));
                    run.outcome(r.is_ok() as u64 * 3 + s as u64 * 8);
                    let describe = |w: &str, m: &str| format!("{w} slice of {len} elements at address {:#x} (vector alignment {}): {m}", base as usize, t.va);
                    if r.is_ok() != ok {
                        run.fail(|| describe(RN[kind], if ok { "panicked" } else { "did not panic" }));
                        return;
                    }
                    if ok && out.0[..sz] != snap[s..s + sz] {
                        run.fail(|| describe(RN[kind], &format!("read {:02x?}, slice holds {:02x?}", &out.0[..sz], &snap[s..s + sz])));
                        return;
                    }
                    let r = catch(|| (t.wr)(kind, base, len, val.0.as_ptr()));
                    if r.is_ok() != ok {
                        run.fail(|| describe(WN[kind], if ok { "panicked" } else { "did not panic" }));
                        return;
                    }
                    let b = f.bytes_mut();
                    if ok {
                        if b[s..s + sz] != val.0[..sz] {
                            run.fail(|| describe(WN[kind], &format!("wrote {:02x?}, vector holds {:02x?}", &b[s..s + sz], &val.0[..sz])));
                            return;
                        }
                        b[s..s + sz].copy_from_slice(&snap[s..s + sz]);
                    }
                    if b != &snap[..] {
                        let i = (0..page).find(|i| b[*i] != snap[*i]).unwrap();
                        run.fail(|| describe(WN[kind], &format!("changed the byte at offset {} from the slice start", i as isize - s as isize)));
                        return;
                    }
                }
            }
        }
        run.sample(|| format!("lens {lens:?}, {} byte placements, 4 read and 4 write forms", t.va / t.ea + 2));
    }
}

/// Slices far longer than a vector: lengths around 2^8, 2^16, 2^32 (and 2^40 bytes).
/// Only the page holding the first lanes is accessible.
fn long(run: &Run, t: T) {
    let sz = t.n * t.eb;
    let f = Fenced::reserving(1, 1 << 40);
    let page = f.len();
    let snap: Vec<u8> = (0..page).map(|i| pat(3, i)).collect();
    f.bytes_mut().copy_from_slice(&snap);
    let mut val = Block::new();
    let mut out = Block::new();
    for i in 0..sz {
        val.0[i] = !pat(9, i);
    }
    for b in [8u32, 9, 15, 16, 31, 32, 33] {
        for d in 0..=t.n {
            for len in [(1usize << b) + d, (1usize << b) - d] {
                for s in [0, t.ea, page - sz, page - sz - t.ea] {
                    let base = unsafe { f.lo().add(s) };
                    for kind in 0..4 {
                        let ok = kind % 2 == 0 || base as usize % t.va == 0;
                        if !ok && kind >= 2 {
                            continue;
                        }
                        run.point(2);
                        out.0[..sz].fill(0xcc);
                        let r = catch(|| (t.rd)(kind, base, len, out.0.as_mut_ptr()));
                        run.outcome(len as u64 * 64 + s as u64 * 2 + r.is_ok() as u64);
                        let good = r.is_ok() == ok && (!ok || out.0[..sz] == snap[s..s + sz]);
                        if !good {
                            run.fail(|| format!("{} of a slice of {len} elements: {}", RN[kind], if r.is_ok() { "wrong lanes or no panic" } else { "panicked" }));
                            return;
                        }
                        let r = catch(|| (t.wr)(kind, base, len, val.0.as_ptr()));
                        let m = f.bytes_mut();
                        let mut good = r.is_ok() == ok;
                        if ok {
                            good &= m[s..s + sz] == val.0[..sz];
                            m[s..s + sz].copy_from_slice(&snap[s..s + sz]);
                        }
                        good &= m == &snap[..];
                        if !good {
                            run.fail(|| format!("{} to a slice of {len} elements: {}", WN[kind], if r.is_ok() { "wrong bytes or no panic" } else { "panicked" }));
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Every vector of the whole-vector space is stored over two backgrounds and read
/// back, by all forms, at an aligned and at a misaligned place.
fn values(run: &Run, t: T, kk: K) {
    let sz = t.n * t.eb;
    let f = Fenced::new(1);
    let page = f.len();
    let mut val = Block::new();
    let mut out = Block::new();
    crumb(val.0.as_ptr(), sz);
    for s in [page - 2 * t.va.max(sz), page - sz - 3 * t.ea] {
        let aligned = (f.lo() as usize + s) % t.va == 0;
        let win = s - 64..(s + sz + 64).min(page);
        for_each_vec(kk, t.n, run.level.min(1), &mut |v| {
            for j in 0..t.n {
                val.put(0, t.eb, j, v[j]);
            }
            for kind in 0..4 {
                if kind % 2 == 1 && !aligned {
                    continue;
                }
                for bg in [0x00u8, 0xff] {
                    let m = f.bytes_mut();
                    m[win.clone()].fill(bg);
                    let base = unsafe { f.lo().add(s) };
                    (t.wr)(kind, base, t.n, val.0.as_ptr());
                    (t.rd)(kind, base, t.n, out.0.as_mut_ptr());
                    run.point(2);
                    run.values(2 * (t.n as u64 - 1));
                    let ok = win.clone().all(|i| m[i] == if i >= s && i < s + sz { val.0[i - s] } else { bg });
                    if !ok {
                        run.fail(|| format!("{} of {:x?}: memory is {:02x?}", WN[kind], v, &m[s..s + sz]));
                        return false;
                    }
                    if out.0[..sz] != val.0[..sz] {
                        run.fail(|| format!("{} of {:x?}: got bytes {:02x?}", RN[kind], v, &out.0[..sz]));
                        return false;
                    }
                }
            }
            run.outcome(hash_bytes(&out.0[..64]));
            true
        });
        if run.failed() {
            return;
        }
    }
}

/// Histories: every pair of overlapping writes followed by a read, against a
/// byte-array model.
fn histories(run: &Run, t: T) {
    let f = Fenced::new(1);
    let sz = t.n * t.eb;
    let page = f.len();
    let slots = 2 * t.n + 1;
    let s0 = page - slots * t.eb;
    let mut a = Block::new();
    let mut b = Block::new();
    let mut out = Block::new();
    for i in 0..sz {
        a.0[i] = pat(11, i);
        b.0[i] = !pat(12, i);
    }
    let len_at = |o: usize| slots - o;
    for o1 in 0..=t.n + 1 {
        for o2 in 0..=t.n + 1 {
            let mut model: Vec<u8> = (0..page).map(|i| pat(5, i)).collect();
            f.bytes_mut().copy_from_slice(&model);
            unsafe {
                (t.wr)(0, f.lo().add(s0 + o1 * t.eb), len_at(o1), a.0.as_ptr());
                (t.wr)(0, f.lo().add(s0 + o2 * t.eb), len_at(o2), b.0.as_ptr());
            }
            model[s0 + o1 * t.eb..][..sz].copy_from_slice(&a.0[..sz]);
            model[s0 + o2 * t.eb..][..sz].copy_from_slice(&b.0[..sz]);
            let o3 = (o1 + o2) / 2;
            unsafe { (t.rd)(0, f.lo().add(s0 + o3 * t.eb), len_at(o3), out.0.as_mut_ptr()) };
            run.point(3);
            run.outcome(hash_bytes(&out.0[..sz]));
            if f.bytes() != &model[..] || out.0[..sz] != model[s0 + o3 * t.eb..][..sz] {
                run.fail(|| format!("write at element {o1}, write at element {o2}, read at element {o3}: memory or value differs from the array model"));
                return;
            }
        }
    }
}

fn main() {
    let mut e = Engine::from_args("P12");
    macro_rules! add {
        ($v:ty, $s:ty, $n:expr, $k:expr) => {{
            fn rd(kind: usize, p: *const u8, len: usize, o: *mut u8) {
                unsafe {
                    let s = std::slice::from_raw_parts(p as *const $s, len);
                    let v: $v = match kind {
                        0 => <$v>::from_slice_unaligned(s),
                        1 => <$v>::from_slice_aligned(s),
                        2 => <$v>::from_slice_unaligned_unchecked(s),
                        _ => <$v>::from_slice_aligned_unchecked(s),
                    };
                    st(o, 0, v);
                }
            }
            fn wr(kind: usize, p: *mut u8, len: usize, i: *const u8) {
                unsafe {
                    let s = std::slice::from_raw_parts_mut(p as *mut $s, len);
                    let v: $v = ld(i, 0);
                    match kind {
                        0 => v.write_to_slice_unaligned(s),
                        1 => v.write_to_slice_aligned(s),
                        2 => v.write_to_slice_unaligned_unchecked(s),
                        _ => v.write_to_slice_aligned_unchecked(s),
                    }
                }
            }
            let t = T { n: $n, eb: std::mem::size_of::<$s>(), ea: std::mem::align_of::<$s>(), va: std::mem::align_of::<$v>(), rd, wr };
            e.job(format!("{}/slices", stringify!($v)), move |run| explore(run, t));
            e.job(format!("{}/long slices", stringify!($v)), move |run| long(run, t));
            e.job(format!("{}/values", stringify!($v)), move |run| values(run, t, $k));
            e.job(format!("{}/write-write-read histories", stringify!($v)), move |run| histories(run, t));
        }};
    }
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {
            add!($v, $s, $n, k(C::$c, $w))
        };
    }
    ints!(ty);
    floats!(ty);
    add!(cptrx2<u8>, *const u8, 2, k(C::U, 64));
    add!(cptrx4<u8>, *const u8, 4, k(C::U, 64));
    add!(cptrx8<u8>, *const u8, 8, k(C::U, 64));
    add!(mptrx2<u32>, *mut u32, 2, k(C::U, 64));
    add!(mptrx4<u32>, *mut u32, 4, k(C::U, 64));
    add!(mptrx8<u32>, *mut u32, 8, k(C::U, 64));
    e.finish()
}
