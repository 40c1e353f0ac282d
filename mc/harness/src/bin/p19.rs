//! P19: formatting, including writers that fail at every possible point.
use harness::packed_simd::*;
use harness::*;
use std::fmt::{Binary, Debug, LowerHex, Octal, UpperHex, Write};

/// A writer with one injected fault.
struct Lim {
    got: String,
    /// number of write calls so far
    calls: usize,
    fault: Fault,
    fired: bool,
}
#[derive(Copy, Clone, Debug)]
enum Fault {
    /// call number `.0` fails, later calls succeed again
    Once(usize),
    /// call number `.0` and every later one fail
    From(usize),
    /// `.0` bytes are stored (the last write partially), then every call fails
    Full(usize),
}
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let c = self.calls;
        self.calls += 1;
        let bad = match self.fault {
            Fault::Once(n) => c == n,
            Fault::From(n) => c >= n,
            Fault::Full(n) => {
                if self.got.len() + s.len() > n {
                    let room = n - self.got.len();
                    self.got.push_str(&s[..room]);
                    true
                } else {
                    false
                }
            }
        };
        if bad {
            self.fired = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// One formatting form of one vector: text, reference lanes, and a fallible
/// writer run.
type Case<'a> = (&'static str, &'a dyn Fn(&mut dyn Write) -> std::fmt::Result, String);

fn case<'a>(a: &'static str, f: &'a dyn Fn(&mut dyn Write) -> std::fmt::Result, w: String) -> Case<'a> {
    (a, f, w)
}

fn compare(run: &Run, full: bool, cases: &[Case]) -> bool {
    for (form, f, want) in cases {
        let mut s = String::new();
        let r = f(&mut s);
        run.point(1);
        run.values(s.len().max(1) as u64 - 1);
        run.outcome(hash_bytes(s.as_bytes()));
        if r.is_err() || s != *want {
            run.fail(|| format!("{form}: `{s}` expected `{want}`"));
            return false;
        }
        if full {
            // every fault point of every fault kind
            for kind in 0..3usize {
                for k in 0.. {
                    let fault = match kind { 0 => Fault::Once(k), 1 => Fault::From(k), _ => Fault::Full(k) };
                    let mut l = Lim { got: String::new(), calls: 0, fault, fired: false };
                    let r = f(&mut l);
                    run.point(1);
                    let ok = if l.fired { r.is_err() && want.starts_with(&l.got) } else { r.is_ok() && l.got == *want };
                    if !ok {
                        run.fail(|| format!("{form}: writer fault {fault:?}: result {r:?}, wrote `{}` of `{want}`", l.got));
                        return false;
                    }
                    if !l.fired {
                        break; // past the last fault point
                    }
                }
            }
        }
    }
    true
}

macro_rules! forms {
    ($run:ident $full:ident $name:ident, $v:ident, $a:ident; $($f:literal)*) => {{
        compare($run, $full, &[$(case(
            $f,
            &|w: &mut dyn Write| write!(w, $f, $v) as std::fmt::Result,
            format!("{}({})", $name, $a.iter().map(|x| format!($f, x)).collect::<Vec<_>>().join(", ")),
        )),*])
    }};
}

/// faults are injected into every m-th vector of the enumeration
fn faulty(n: usize, level: u32) -> u32 {
    match (n, level) {
        (0..=4, 0) => 16,
        (0..=4, _) => 4,
        (_, 0) => 1000,
        (5..=16, _) => 32,
        (_, 1) => 1000,
        _ => 150,
    }
}

trait IntFmt: Debug + LowerHex + UpperHex + Octal + Binary {}
impl<T: Debug + LowerHex + UpperHex + Octal + Binary> IntFmt for T {}

fn int_forms(run: &Run, full: bool, name: &str, v: &dyn IntFmt, a: &[&dyn IntFmt]) -> bool {
    forms!(run full name, v, a; "{:?}" "{:5?}" "{:+?}" "{:<7?}" "{:x}" "{:#x}" "{:08x}" "{:X}" "{:#X}" "{:#06X}" "{:o}" "{:#o}" "{:b}" "{:#b}" "{:#012b}" "{:x?}" "{:#X?}" "{:>9b}" "{:^9x}" "{:06o}")
}
fn float_forms(run: &Run, full: bool, name: &str, v: &dyn Debug, a: &[&dyn Debug]) -> bool {
    forms!(run full name, v, a; "{:?}" "{:.3?}" "{:+?}" "{:10.2?}" "{:#?}" "{:<12?}" "{:08.1?}")
}
fn debug_forms(run: &Run, full: bool, name: &str, v: &dyn Debug, a: &[&dyn Debug]) -> bool {
    forms!(run full name, v, a; "{:?}" "{:20?}" "{:#?}" "{:<6?}")
}

/// Both sides of one specification (`w` and `p` are captured by the literals).
macro_rules! grid {
    ($run:ident $name:ident, $v:ident, $a:ident, $w:ident, $p:ident; $($l:literal $f:literal)*) => {{
        let mut ok = true;
        $( if ok { ok = one_spec($run, $name, $l, $a.len(), $w, $p, &|i, o| {
            if i == usize::MAX { write!(o, $f, $v) } else { write!(o, $f, $a[i]) }
        }); } )*
        ok
    }};
}
fn one_spec(run: &Run, name: &str, l: &str, n: usize, w: usize, p: usize, f: &dyn Fn(usize, &mut String) -> std::fmt::Result) -> bool {
    let mut want = format!("{name}(");
    for i in 0..n {
        if i > 0 { want.push_str(", "); }
        let _ = f(i, &mut want);
    }
    want.push(')');
    let mut got = String::new();
    let r = f(usize::MAX, &mut got);
    run.point(1);
    run.outcome(hash_bytes(got.as_bytes()));
    if r.is_err() || got != want {
        run.fail(|| format!("{{:{l}}} (w = {w}, p = {p}): `{got}` expected `{want}`"));
        return false;
    }
    true
}
include!("../p19_grid.in");
/// (width, precision) arguments of the grid
fn widths(level: u32) -> &'static [(usize, usize)] {
    if level == 0 { &[(9, 2)] } else { &[(0, 0), (9, 2), (1, 1), (40, 60)] }
}
fn grid_vectors(n: usize, level: u32) -> usize {
    match level { 0 => 1, 1 => 1 + 4 / n, 2 => 2 + 16 / n, _ => 8 + 256 / n }
}

fn main() {
    let mut e = Engine::from_args("P19");
    macro_rules! ty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/int formats", stringify!($v)), |run| {
                let mut count = 0u32;
                let kk = k(C::$c, $w);
                let al = int_values($w, 1);
                let limit = [40, 100, 300, 3000][run.level.min(3) as usize];
                for_each_vec_of(&al, kk, $n, limit, &mut |l| {
                    count += 1;
                    if count > limit as u32 * 2 { return false; }
                    let mut a = [0 as $s; $n];
                    for j in 0..$n { a[j] = l[j] as $s; }
                    let v = $v::from(a);
                    let full = count % faulty($n, run.level) == 1;
                    { let d: Vec<&dyn IntFmt> = a.iter().map(|x| x as &dyn IntFmt).collect(); int_forms(run, full, stringify!($v), &v, &d) }
                });
            });
        }};
    }
    ints!(ty);
    macro_rules! gty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/complete grid of format options", stringify!($v)), |run| {
                let al = int_values($w, 1);
                for &(w, p) in widths(run.level) {
                    for shift in 0..grid_vectors($n, run.level) {
                        let mut a = [0 as $s; $n];
                        for j in 0..$n { a[j] = al[(shift * 5 + j * 3) % al.len()] as $s; }
                        let v = $v::from(a);
                        let d: Vec<&dyn IntFmt> = a.iter().map(|x| x as &dyn IntFmt).collect();
                        if !grid_int(run, stringify!($v), &v, &d, w, p) { return; }
                    }
                }
            });
        }};
    }
    ints!(gty);
    macro_rules! fty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/float formats", stringify!($v)), |run| {
                let mut count = 0u32;
                let kk = k(C::$c, $w);
                let al = float_values($w, 1);
                let limit = [40, 100, 300, 3000][run.level.min(3) as usize];
                for_each_vec_of(&al, kk, $n, limit, &mut |l| {
                    count += 1;
                    if count > limit as u32 * 2 { return false; }
                    let mut a = [0 as $s; $n];
                    for j in 0..$n { a[j] = $s::from_bits(l[j] as $u); }
                    let v = $v::from(a);
                    let full = count % faulty($n, run.level) == 1;
                    { let d: Vec<&dyn Debug> = a.iter().map(|x| x as &dyn Debug).collect(); float_forms(run, full, stringify!($v), &v, &d) }
                });
            });
        }};
    }
    floats!(fty);
    macro_rules! gfty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/complete grid of format options", stringify!($v)), |run| {
                let al = float_values($w, 1);
                for &(w, p) in widths(run.level) {
                    for shift in 0..grid_vectors($n, run.level) {
                        let mut a = [0 as $s; $n];
                        for j in 0..$n { a[j] = $s::from_bits(al[(shift * 5 + j * 3) % al.len()] as $u); }
                        let v = $v::from(a);
                        let d: Vec<&dyn Debug> = a.iter().map(|x| x as &dyn Debug).collect();
                        if !grid_debug(run, stringify!($v), &v, &d, w, p) { return; }
                    }
                }
            });
        }};
    }
    floats!(gfty);
    macro_rules! mty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/mask formats", stringify!($v)), |run| {
                let kk = k(C::M, $w);
                let mut count = 0u32;
                for_each_mask(kk, $n, 0, &mut |l| {
                    count += 1;
                    if count > [300, 600, 3000, 100000][run.level.min(3) as usize] { return false; }
                    let mut a = [false; $n];
                    let mut v = $v::default();
                    for j in 0..$n { a[j] = l[j] != 0; v = v.replace(j, a[j]); }
                    let full = count % (4 * faulty($n, run.level)) == 1;
                    { let d: Vec<&dyn Debug> = a.iter().map(|x| x as &dyn Debug).collect(); debug_forms(run, full, stringify!($v), &v, &d) }
                });
            });
        }};
    }
    masks!(mty);
    macro_rules! gmty {
        ($v:ident $s:ident $u:ident $c:ident $w:literal $n:literal $m:ident $b:ident $ix:ident) => {{
            e.job(format!("{}/complete grid of format options", stringify!($v)), |run| {
                for &(w, p) in widths(run.level) {
                    for shift in 0..3usize {
                        let mut a = [false; $n];
                        let mut v = $v::default();
                        for j in 0..$n { a[j] = (j + shift) % 3 == 0; v = v.replace(j, a[j]); }
                        let d: Vec<&dyn Debug> = a.iter().map(|x| x as &dyn Debug).collect();
                        if !grid_debug(run, stringify!($v), &v, &d, w, p) { return; }
                    }
                }
            });
        }};
    }
    masks!(gmty);
    e.job("scalar masks", |run| {
        macro_rules! sm { ($($m:ident)*) => { $( for b in [false, true] {
            let v = $m::new(b);
            run.point(1);
            run.outcome(b as u64);
            let s = format!("{v:?}");
            run.check(s == format!("{}({b:?})", stringify!($m)), || format!("{} {b}: `{s}`", stringify!($m)));
        } )* } }
        sm!(m8 m16 m32 m64 m128 msize);
    });
    macro_rules! pty {
        ($v:ident, $pm:ident, $n:literal, $t:ty) => {{
            e.job(format!("{}<{}>/pointer formats", stringify!($v), stringify!($t)), |run| {
                for seed in 0..60usize {
                    let mut a = [0usize as *$pm $t; $n];
                    for j in 0..$n { a[j] = (seed.wrapping_mul(0x9e37_79b9_7f4a) >> (j * 5 + seed % 7)) as *$pm $t; }
                    let v = <$v<$t>>::from(a);
                    let full = seed < 3;
                    let name = format!("{}<{}>", stringify!($v), std::any::type_name::<$t>());
                    let d: Vec<&dyn Debug> = a.iter().map(|x| x as &dyn Debug).collect();
                    if !debug_forms(run, full, &name, &v, &d) { return; }
                    if seed % 8 == 1 {
                        for &(w, p) in widths(run.level) {
                            if !grid_debug(run, &name, &v, &d, w, p) { return; }
                        }
                    }
                }
            });
        }};
    }
    pty!(cptrx2, const, 2, u8);
    pty!(cptrx4, const, 4, u32);
    pty!(cptrx8, const, 8, [u16; 3]);
    pty!(mptrx2, mut, 2, u8);
    pty!(mptrx4, mut, 4, f64);
    pty!(mptrx8, mut, 8, String);
    e.finish()
}
