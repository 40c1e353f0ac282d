//! P16: bit-preserving conversions between vector types of equal size.
use harness::packed_simd::*;
use harness::*;
use std::arch::x86_64::*;

fn explore(run: &Run, kk: K, n: usize, outs: usize, f: F) {
    let mut inp = Block::new();
    let mut out = Block::new();
    let sz = kk.bytes() * n;
    crumb(inp.0.as_ptr(), SLOT);
    for_each_vec(kk, n, run.level.min(if run.level < 3 { 1 } else { 2 }), &mut |lanes| {
        for (j, v) in lanes.iter().enumerate() {
            inp.put(0, kk.bytes(), j, *v);
        }
        f(inp.0.as_ptr(), out.0.as_mut_ptr());
        run.point(outs as u64);
        run.values((outs * sz - outs) as u64);
        run.outcome(hash_bytes(&out.0[..sz]));
        for s in 0..outs {
            if out.0[s * SLOT..s * SLOT + sz] != inp.0[..sz] {
                run.fail(|| format!("form {s}: bytes {:02x?} became {:02x?}", &inp.0[..sz], &out.0[s * SLOT..s * SLOT + sz]));
                return false;
            }
        }
        run.sample(|| format!("{:02x?} -> {:02x?}", &inp.0[..sz], &out.0[..sz]));
        true
    });
}

// Is `B: FromBits<A>`?  Decided at type level (method on the value shadows the one on the reference).
struct Probe<A, B>(std::marker::PhantomData<(A, B)>);
trait Absent {
    fn exists(&self) -> bool;
}
impl<A, B> Absent for &Probe<A, B> {
    fn exists(&self) -> bool {
        false
    }
}
trait Present {
    fn exists(&self) -> bool;
}
impl<A, B: FromBits<A>> Present for Probe<A, B> {
    fn exists(&self) -> bool {
        true
    }
}

fn main() {
    let mut e = Engine::from_args("P16");
    macro_rules! bits {
        ($to:ident $from:ident $c:ident $w:literal $n:literal) => {{
            e.job(format!("{} into {}", stringify!($from), stringify!($to)), |run| {
                explore(run, k(C::$c, $w), $n, 2, w!(|p, o| { let v: $from = ld(p, 0); let r: $to = v.into_bits(); st(o, 0, r); st(o, 1, $to::from_bits(v)); }))
            });
        }};
    }
    bits_pairs!(bits);
    macro_rules! arch {
        ($a:ident $v:ident M $w:literal $n:literal) => {{
            e.job(format!("{} into {}", stringify!($v), stringify!($a)), |run| {
                explore(run, k(C::M, $w), $n, 2, w!(|p, o| { let v: $v = ld(p, 0); let r: $a = v.into_bits(); st(o, 0, r); st(o, 1, $a::from_bits(v)); }))
            });
        }};
        ($a:ident $v:ident $c:ident $w:literal $n:literal) => {{
            e.job(format!("{} to and from {}", stringify!($v), stringify!($a)), |run| {
                explore(run, k(C::$c, $w), $n, 4, w!(|p, o| {
                    let v: $v = ld(p, 0); let r: $a = v.into_bits(); st(o, 0, r); st(o, 1, $a::from_bits(v));
                    let a: $a = ld(p, 0); let r: $v = a.into_bits(); st(o, 2, r); st(o, 3, $v::from_bits(a)); }))
            });
        }};
    }
    arch_pairs!(arch);
    let mut probed = vec![];
    macro_rules! forbid {
        ($m:ident $f:ident) => {{
            let pr = Probe::<$f, $m>(std::marker::PhantomData);
            probed.push((stringify!($m), stringify!($f), (&pr).exists()));
        }};
    }
    mask_from_bits!(forbid);
    // the probe itself: an identity known to exist
    let sane = (&Probe::<i8x16, u8x16>(std::marker::PhantomData)).exists();
    e.job("no reinterpretation into a mask can give it other lanes than all-ones and all-zeros", move |run| {
        run.check(sane, || "HARNESS-ERROR: FromBits<i8x16> for u8x16 not seen by the probe".into());
        for &(m, f, there) in &probed {
            run.point(1);
            run.outcome(hash_bytes(f.as_bytes()));
            if there {
                return run.fail(|| format!("FromBits<{f}> for {m} exists: {m} can be given lanes that are neither true nor false"));
            }
        }
    });
    e.finish()
}
