//! P18: masked gathers and scatters through vectors of pointers.
use engine::mem::{Fenced, PAGE};
use harness::packed_simd::*;
use harness::*;

#[derive(Copy, Clone)]
struct T {
    n: usize,
    eb: usize,
    ea: usize,
    mb: usize,
    /// slot 0 pointers, 1 mask, 2 values -> slot 0 vector
    rd: [Option<F>; 2],
    wr: Option<F>,
}

/// Pointer assignments: lane -> slot number.
fn assignments(n: usize, slots: usize, level: u32, f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut v = vec![0usize; n];
    // complete over a few slots
    let full = match n {
        2 => slots.min(6),
        4 => [2, 2, 3, 4][level.min(3) as usize],
        _ => {
            if level >= 2 {
                2
            } else {
                1
            }
        }
    };
    let total = full.pow(n as u32);
    for mut x in 0..total {
        for l in v.iter_mut() {
            *l = x % full;
            x /= full;
        }
        if !f(&v) {
            return;
        }
    }
    // permutation-like and pairwise-overlapping assignments
    let mut ok = true;
    for s in 0..n {
        for mode in 0..3 {
            for i in 0..n {
                v[i] = match mode {
                    0 => (i + s) % slots,
                    1 => (slots + n - i + s) % slots,
                    _ => (i * (2 * s + 1)) % slots,
                };
            }
            ok &= f(&v);
            if !ok {
                return;
            }
        }
    }
    for i in 0..n {
        for j in i + 1..n {
            for (q, l) in v.iter_mut().enumerate() {
                *l = q % slots;
            }
            v[i] = slots - 1;
            v[j] = slots - 1;
            if !f(&v) {
                return;
            }
        }
    }
}

fn explore(run: &Run, t: T) {
    // 0: position codes, disabled lanes hold bad addresses; 5: disabled lanes
    // hold good ones; 1-4: zeros and ones in memory and in the vector
    for what in [0, 5, 1, 2, 3, 4] {
        if !run.failed() {
            explore_with(run, t, what);
        }
    }
}

fn explore_with(run: &Run, t: T, what: usize) {
    let mem = Fenced::new(1);
    let page = mem.len();
    let slots = t.n + 2;
    // slot k: half of them end at the upper fence, half start at the lower one
    let addr = |s: usize| -> usize {
        let k = s / 2;
        if s % 2 == 0 {
            page - (k + 1) * t.eb
        } else {
            // element-aligned, not vector-aligned
            k * t.eb + t.ea * (k % 2)
        }
    };
    let bad: [usize; 5] = [0, mem.lo() as usize - PAGE, mem.hi() as usize, 0xdead_0000_0000_0000, 1];
    let pat = |i: usize| (i.wrapping_mul(89) ^ (i >> 8).wrapping_mul(31) ^ 0x35) as u8;
    let snap: Vec<u8> = (0..page).map(|i| match what { 1 => 0, 2 => 0xff, _ => pat(i) }).collect();
    mem.bytes_mut().copy_from_slice(&snap);
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 3 * SLOT);
    let vsz = t.n * t.eb;
    for i in 0..vsz {
        inp.0[2 * SLOT + i] = match what { 3 => 0, 4 => 0xff, _ => !pat(i + 77) };
    }
    let vals: Vec<u8> = inp.0[2 * SLOT..2 * SLOT + vsz].to_vec();
    let mut want = vec![0u8; vsz];
    let mut model = snap.clone();
    assignments(t.n, slots, if what == 0 || what == 5 { run.level } else { 0 }, &mut |asg| {
        for mask in 0..1usize << t.n {
            for j in 0..t.n {
                let on = mask >> j & 1 == 1;
                let p = if on || what == 5 { mem.lo() as usize + addr(asg[j]) } else { bad[(j + mask) % bad.len()] };
                inp.put(0, 8, j, p as u128);
                inp.put(1, t.mb, j, if on { wmask(t.mb as u32 * 8) } else { 0 });
            }
            for (form, f) in t.rd.iter().enumerate() {
                let Some(f) = f else { continue };
                run.point(1);
                run.values(t.n as u64 - 1);
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                for j in 0..t.n {
                    let d = j * t.eb;
                    if mask >> j & 1 == 1 {
                        want[d..d + t.eb].copy_from_slice(&snap[addr(asg[j])..][..t.eb]);
                    } else {
                        want[d..d + t.eb].copy_from_slice(&vals[d..d + t.eb]);
                    }
                }
                run.outcome(hash_bytes(&want));
                if out.0[..vsz] != want[..] {
                    run.fail(|| format!("{} through slots {asg:?} with mask {mask:#b}: got {:02x?} expected {:02x?}", ["const read", "mut read"][form], &out.0[..vsz], want));
                    return false;
                }
            }
            if let Some(f) = t.wr {
                run.point(1);
                run.values(t.n as u64 - 1);
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                for j in 0..t.n {
                    if mask >> j & 1 == 1 {
                        model[addr(asg[j])..][..t.eb].copy_from_slice(&vals[j * t.eb..][..t.eb]);
                    }
                }
                let ok = mem.bytes() == &model[..];
                if !ok {
                    let b = mem.bytes();
                    let i = (0..page).find(|i| b[*i] != model[*i]).unwrap();
                    run.fail(|| format!("write through slots {asg:?} with mask {mask:#b}: byte {i} of the page is {:02x}, expected {:02x}", b[i], model[i]));
                    return false;
                }
                for j in 0..t.n {
                    let a = addr(asg[j]);
                    model[a..a + t.eb].copy_from_slice(&snap[a..a + t.eb]);
                    mem.bytes_mut()[a..a + t.eb].copy_from_slice(&snap[a..a + t.eb]);
                }
            }
        }
        true
    });
    run.sample(|| format!("{} lanes of {} bytes, mask lanes of {} bytes: all {} masks x pointer assignments (overlaps, permutations); masked-off lanes hold null/unmapped addresses, then valid ones", t.n, t.eb, t.mb, 1 << t.n));
}

fn main() {
    let mut e = Engine::from_args("P18");
    macro_rules! g {
        ($n:literal, $cp:ident, $mp:ident, $t:ty, $v:ident, $m:ident, $mb:literal) => {{
            let t = T {
                n: $n,
                eb: std::mem::size_of::<$t>(),
                ea: std::mem::align_of::<$t>(),
                mb: $mb,
                rd: [
                    Some(w!(|p, o| { let a: $cp<$t> = ld(p, 0); let m: $m = ld(p, 1); let v: $v = ld(p, 2); let r: $v = a.read(m, v); st(o, 0, r); })),
                    Some(w!(|p, o| { let a: $mp<$t> = ld(p, 0); let m: $m = ld(p, 1); let v: $v = ld(p, 2); let r: $v = a.read(m, v); st(o, 0, r); })),
                ],
                wr: Some(w!(|p, o| { let a: $mp<$t> = ld(p, 0); let m: $m = ld(p, 1); let v: $v = ld(p, 2); a.write(m, v); })),
            };
            e.job(format!("{} via {}/{} with {}", stringify!($v), stringify!($cp), stringify!($mp), stringify!($m)), move |run| explore(run, t));
        }};
    }
    macro_rules! g2 { ($($t:ident $v:ident)*) => { $(
        g!(2, cptrx2, mptrx2, $t, $v, m8x2, 1); g!(2, cptrx2, mptrx2, $t, $v, m16x2, 2); g!(2, cptrx2, mptrx2, $t, $v, m32x2, 4);
        g!(2, cptrx2, mptrx2, $t, $v, m64x2, 8); g!(2, cptrx2, mptrx2, $t, $v, m128x2, 16); g!(2, cptrx2, mptrx2, $t, $v, msizex2, 8); )* } }
    macro_rules! g4 { ($($t:ident $v:ident)*) => { $(
        g!(4, cptrx4, mptrx4, $t, $v, m8x4, 1); g!(4, cptrx4, mptrx4, $t, $v, m16x4, 2); g!(4, cptrx4, mptrx4, $t, $v, m32x4, 4);
        g!(4, cptrx4, mptrx4, $t, $v, m64x4, 8); g!(4, cptrx4, mptrx4, $t, $v, m128x4, 16); g!(4, cptrx4, mptrx4, $t, $v, msizex4, 8); )* } }
    macro_rules! g8 { ($($t:ident $v:ident)*) => { $(
        g!(8, cptrx8, mptrx8, $t, $v, m8x8, 1); g!(8, cptrx8, mptrx8, $t, $v, m16x8, 2); g!(8, cptrx8, mptrx8, $t, $v, m32x8, 4);
        g!(8, cptrx8, mptrx8, $t, $v, m64x8, 8); g!(8, cptrx8, mptrx8, $t, $v, msizex8, 8); )* } }
    g2!(i8 i8x2 u8 u8x2 i16 i16x2 u16 u16x2 i32 i32x2 u32 u32x2 f32 f32x2 i64 i64x2 u64 u64x2 f64 f64x2 i128 i128x2 u128 u128x2);
    g4!(i8 i8x4 u8 u8x4 i16 i16x4 u16 u16x4 i32 i32x4 u32 u32x4 f32 f32x4 i64 i64x4 u64 u64x4 f64 f64x4 i128 i128x4 u128 u128x4);
    g8!(i8 i8x8 u8 u8x8 i16 i16x8 u16 u16x8 i32 i32x8 u32 u32x8 f32 f32x8 i64 i64x8 u64 u64x8 f64 f64x8);
    // elements that are themselves pointers (the compiler rejects gathers of
    // usize, isize and mask elements)
    type Cp = *const u16;
    type Mp = *mut u16;
    type C2 = cptrx2<u16>;
    type C4 = cptrx4<u16>;
    type C8 = cptrx8<u16>;
    type M2 = mptrx2<u16>;
    type M4 = mptrx4<u16>;
    type M8 = mptrx8<u16>;
    macro_rules! one {
        ($n:literal $cp:ident $mp:ident $m8:ident $m32:ident $ms:ident; $($t:ident $v:ident)*) => { $(
            g!($n, $cp, $mp, $t, $v, $m8, 1);
            g!($n, $cp, $mp, $t, $v, $m32, 4);
            g!($n, $cp, $mp, $t, $v, $ms, 8);
        )* };
    }
    one!(2 cptrx2 mptrx2 m8x2 m32x2 msizex2; Cp C2 Mp M2);
    one!(4 cptrx4 mptrx4 m8x4 m32x4 msizex4; Cp C4 Mp M4);
    one!(8 cptrx8 mptrx8 m8x8 m32x8 msizex8; Cp C8 Mp M8);
    e.finish()
}
