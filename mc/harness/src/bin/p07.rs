//! P07: whole-vector equality, hashing and lexicographic ordering; scalar masks.
use harness::packed_simd::*;
use harness::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records the byte stream fed to it.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash_of<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
fn lane_ord(k: K, a: u128, b: u128) -> Option<Ordering> {
    match k.c {
        C::I => Some(k.sext(a).cmp(&k.sext(b))),
        C::U => Some(a.cmp(&b)),
        C::M => Some((a != 0).cmp(&(b != 0))),
        C::F => f_val(k.w, a).partial_cmp(&f_val(k.w, b)),
    }
}
fn lex(k: K, a: &[u128], b: &[u128]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = lane_ord(k, *x, *y).unwrap();
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}

// result byte layout: 0 ==, 1 !=, 2 lex ==, 3 lex !=, 4 <, 5 <=, 6 >, 7 >=, 8 partial_cmp (0 none,1 less,2 eq,3 greater), 9 cmp, 10 lex_ord() ==
fn oc(o: Option<Ordering>) -> u8 {
    match o {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}
const NAMES: [&str; 14] = ["==", "!=", "lex ==", "lex !=", "lex <", "lex <=", "lex >", "lex >=", "partial_cmp", "cmp", "cmp reversed", "max is second", "min is second", "partial_cmp reversed"];

fn pair_job(e: &mut Engine, id: String, kk: K, n: usize, ordered: bool, f: F) {
    e.job(id, move |run| {
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), 128);
        for_each_pair(kk, n, run.level, &mut |a, b| {
            for j in 0..n {
                inp.put(0, kk.bytes(), j, a[j]);
                inp.put(1, kk.bytes(), j, b[j]);
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            let all_eq = (0..n).all(|j| lane_ord(kk, a[j], b[j]) == Some(Ordering::Equal));
            let mut want: Vec<u8> = vec![all_eq as u8, !all_eq as u8];
            if ordered {
                let o = lex(kk, a, b);
                use Ordering::*;
                want.extend([all_eq as u8, !all_eq as u8, (o == Less) as u8, (o != Greater) as u8, (o == Greater) as u8, (o != Less) as u8, oc(Some(o)), oc(Some(o)), oc(Some(o.reverse())),
                    (o != Greater) as u8, (o == Greater) as u8, oc(Some(o.reverse()))]);
            }
            run.point(want.len() as u64);
            run.outcome(hash_bytes(&out.0[..16]));
            for (i, w) in want.iter().enumerate() {
                // max/min of equal wrappers: either is fine
                if (i == 11 || i == 12) && all_eq {
                    continue;
                }
                if out.0[i] != *w {
                    run.fail(|| format!("a=[{}] b=[{}]: {} gives {} expected {}", lanes(kk, a), lanes(kk, b), NAMES[i], out.0[i], w));
                    return false;
                }
            }
            run.sample(|| format!("a=[{}] b=[{}]: results {:?}", lanes(kk, a), lanes(kk, b), &out.0[..want.len()]));
            true
        });
    });
}
fn lanes(k: K, a: &[u128]) -> String {
    a.iter().map(|x| show(k, *x)).collect::<Vec<_>>().join(", ")
}

// Traits a float vector may only have if it keeps their laws.  Decided at type level (the
// method on the value shadows the one on the reference).
struct Probe<A>(std::marker::PhantomData<A>);
trait NotEq {
    fn is_eq(&self) -> bool;
}
impl<A> NotEq for &Probe<A> {
    fn is_eq(&self) -> bool {
        false
    }
}
trait IsEq {
    fn is_eq(&self) -> bool;
}
impl<A: Eq> IsEq for Probe<A> {
    fn is_eq(&self) -> bool {
        true
    }
}
type Hasher2<A> = Option<fn(&A) -> Vec<u8>>;
trait NotHash<A> {
    fn hasher(&self) -> Hasher2<A>;
}
impl<A> NotHash<A> for &Probe<A> {
    fn hasher(&self) -> Hasher2<A> {
        None
    }
}
trait IsHash<A> {
    fn hasher(&self) -> Hasher2<A>;
}
impl<A: std::hash::Hash> IsHash<A> for Probe<A> {
    fn hasher(&self) -> Hasher2<A> {
        Some(|a| hash_of(a))
    }
}

fn main() {
    let mut e = Engine::from_args("P07");
    macro_rules! oty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                pair_job(e, format!("{}/eq and order", stringify!($v)), k(C::$c, $w), $n, true,
                    w!(|p, o| {
                        let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1));
                        let (x, y) = (a.lex_ord(), b.lex_ord());
                        let (px, py) = (a.partial_lex_ord(), b.partial_lex_ord());
                        let same = |l: LexicographicallyOrdered<$v>, v: $v| -> bool { let (l, v): ([$u; $n], [$u; $n]) = (ld(&l as *const _ as *const u8, 0), ld(&v as *const _ as *const u8, 0)); l == v };
                        let r: [u8; 14] = [(a == b) as u8, (a != b) as u8, (x == y) as u8, (x != y) as u8,
                            (px < py) as u8, (px <= py) as u8, (px > py) as u8, (px >= py) as u8,
                            oc(px.partial_cmp(&py)), oc(Some(x.cmp(&y))), oc(Some(y.cmp(&x))),
                            same(x.max(y), b) as u8, same(x.min(y), b) as u8, oc(y.partial_cmp(&x))];
                        st(o, 0, r);
                    }));
            }
            reg(&mut e);
        }};
    }
    ints!(oty);
    masks!(oty);
    macro_rules! fty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                pair_job(e, format!("{}/eq", stringify!($v)), k(C::$c, $w), $n, false,
                    w!(|p, o| { let (a, b): ($v, $v) = (ld(p, 0), ld(p, 1)); st(o, 0, [(a == b) as u8, (a != b) as u8]); }));
            }
            reg(&mut e);
        }};
    }
    floats!(fty);
    macro_rules! law {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            let (eq, hash): (bool, Hasher2<$v>) = { let p = Probe::<$v>(std::marker::PhantomData); ((&p).is_eq(), (&p).hasher()) };
            e.job(format!("{}/laws of Eq and Hash", stringify!($v)), move |run| {
                let nan = $v::splat($s::NAN);
                run.point(2);
                run.outcome(0);
                run.outcome(1);
                run.check(!(eq && nan != nan), || "is Eq although NaN is not equal to itself".into());
                if let Some(h) = hash {
                    for j in 0..$n {
                        let (a, b) = ($v::splat(0.), $v::splat(0.).replace(j, -0.));
                        run.point(1);
                        run.check(a == b && h(&a) == h(&b), || format!("lane {j}: 0 and -0 are equal but hash differently"));
                    }
                }
            });
        }};
    }
    floats!(law);
    // hashing: the byte stream is that of the array of lanes (hence equal
    // vectors hash equally and different ones feed different streams)
    macro_rules! hty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            fn reg(e: &mut Engine) {
                e.job(format!("{}/hash", stringify!($v)), |run| {
                    let kk = k(C::$c, $w);
                    let mut b = Block::new();
                    for_each_vec(kk, $n, run.level.min(2), &mut |l| {
                        for j in 0..$n { b.put(0, kk.bytes(), j, l[j]); }
                        let (v, a): ($v, [$s; $n]) = unsafe { (ld(b.0.as_ptr(), 0), ld(b.0.as_ptr(), 0)) };
                        let (hv, ha) = (hash_of(&v), hash_of(&a));
                        run.point(1);
                        run.outcome(hash_bytes(&hv));
                        if hv != ha { run.fail(|| format!("hash stream of [{}] is {:02x?}, that of the equal array {:02x?}", lanes(kk, l), hv, ha)); return false; }
                        true
                    });
                });
            }
            reg(&mut e);
        }};
    }
    ints!(hty);
    // scalar masks
    macro_rules! sm {
        ($($m:ident $i:ident)*) => { $(
            e.job(format!("{}/scalar mask", stringify!($m)), |run| {
                let d = <$m>::default();
                run.check(!d.test(), || "default is not false".into());
                for x in [false, true] {
                    let a = $m::new(x);
                    let raw: $i = unsafe { std::mem::transmute(a) };
                    run.point(1);
                    run.outcome(x as u64);
                    run.check(a.test() == x, || format!("new({x}).test() = {}", a.test()));
                    run.check(raw == if x { !0 } else { 0 }, || format!("new({x}) has representation {raw}"));
                    run.check(format!("{:?}", a) == format!("{}({})", stringify!($m), x), || format!("Debug of {x}: {:?}", a));
                    for y in [false, true] {
                        let b = $m::new(y);
                        run.point(8);
                        let got = (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(&b), a.cmp(&b));
                        let want = (x == y, x != y, !x & y, x <= y, x & !y, x >= y, Some(x.cmp(&y)), x.cmp(&y));
                        run.check(got == want, || format!("comparing {x} with {y}: {:?} expected {:?}", got, want));
                        run.check((hash_of(&a) == hash_of(&b)) == (x == y), || format!("hash of {x} vs {y}"));
                    }
                }
            });
        )* };
    }
    sm!(m8 i8 m16 i16 m32 i32 m64 i64 m128 i128 msize isize);
    e.finish()
}
