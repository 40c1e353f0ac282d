//! Bounded-exhaustive explorer.
//!
//! A harness binary registers *jobs*.  A job owns one operation of the real
//! library (a thin `fn(*const u8, *mut u8)` wrapper over the public API), a
//! finite space of inputs, and a boring scalar reference model; running the
//! job visits every point of the space, executes the real operation and
//! compares with the model.  The explorer itself is not generic over vector
//! types and is always compiled with optimisations, whatever profile the code
//! under test is built with.
//!
//! Wrapper calling convention: argument `i` lives at byte offset `64*i` of the
//! input block, result `i` at offset `64*i` of the output block.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub mod space;
pub use space::*;
pub mod mem;

pub const SLOT: usize = 64;
pub const NSLOT: usize = 8;
pub type F = fn(*const u8, *mut u8);

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum C {
    I,
    U,
    F,
    M,
}

/// Lane kind: class and width in bits.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct K {
    pub c: C,
    pub w: u32,
}
pub const fn k(c: C, w: u32) -> K {
    K { c, w }
}
impl K {
    pub fn bytes(self) -> usize {
        (self.w / 8) as usize
    }
    pub fn mask(self) -> u128 {
        wmask(self.w)
    }
    pub fn sext(self, v: u128) -> i128 {
        sext(self.w, v)
    }
}
pub fn wmask(w: u32) -> u128 {
    if w == 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(w: u32, v: u128) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// 64-byte aligned block of slots.
#[repr(C, align(64))]
pub struct Block(pub [u8; SLOT * NSLOT]);
impl Block {
    pub fn new() -> Self {
        Block([0; SLOT * NSLOT])
    }
    #[inline]
    pub fn put(&mut self, slot: usize, kb: usize, lane: usize, v: u128) {
        let o = slot * SLOT + lane * kb;
        self.0[o..o + kb].copy_from_slice(&v.to_le_bytes()[..kb]);
    }
    #[inline]
    pub fn get(&self, slot: usize, kb: usize, lane: usize) -> u128 {
        let o = slot * SLOT + lane * kb;
        let mut b = [0u8; 16];
        b[..kb].copy_from_slice(&self.0[o..o + kb]);
        u128::from_le_bytes(b)
    }
}
impl Default for Block {
    fn default() -> Self {
        Self::new()
    }
}

/// What the reference model says about one result value.
#[derive(Copy, Clone, Debug)]
pub enum Exp {
    /// exactly these bits
    Bits(u128),
    /// some NaN
    Nan,
    /// one of two bit patterns (e.g. +0/-0 where the sign is unspecified)
    Either(u128, u128),
    /// a float within `tol` (absolute) of `val`
    Near(f64, f64),
    /// NaN or within
    NearOrNan(f64, f64),
    /// within `tol` of either value
    Near2(f64, f64, f64),
    /// not specified
    Any,
}

pub fn f_is_nan(w: u32, b: u128) -> bool {
    if w == 32 {
        f32::from_bits(b as u32).is_nan()
    } else {
        f64::from_bits(b as u64).is_nan()
    }
}
pub fn f_val(w: u32, b: u128) -> f64 {
    if w == 32 {
        f32::from_bits(b as u32) as f64
    } else {
        f64::from_bits(b as u64)
    }
}

impl Exp {
    #[inline]
    pub fn ok(&self, kk: K, act: u128) -> bool {
        match *self {
            Exp::Bits(e) => e == act,
            Exp::Nan => f_is_nan(kk.w, act),
            Exp::Either(a, b) => a == act || b == act,
            Exp::Near(v, tol) => near(kk.w, act, v, tol),
            Exp::NearOrNan(v, tol) => f_is_nan(kk.w, act) || near(kk.w, act, v, tol),
            Exp::Near2(a, b, tol) => near(kk.w, act, a, tol) || near(kk.w, act, b, tol),
            Exp::Any => true,
        }
    }
    pub fn show(&self, kk: K) -> String {
        match *self {
            Exp::Bits(e) => show(kk, e),
            Exp::Nan => "NaN".into(),
            Exp::Either(a, b) => format!("{} or {}", show(kk, a), show(kk, b)),
            Exp::Near(v, t) => format!("{v:e} +/- {t:e}"),
            Exp::NearOrNan(v, t) => format!("NaN or {v:e} +/- {t:e}"),
            Exp::Near2(a, b, t) => format!("{a:e} or {b:e} +/- {t:e}"),
            Exp::Any => "anything".into(),
        }
    }
}
fn near(w: u32, act: u128, v: f64, tol: f64) -> bool {
    let a = f_val(w, act);
    if a == v {
        return true;
    }
    (a - v).abs() <= tol
}
pub fn show(kk: K, b: u128) -> String {
    match kk.c {
        C::F => {
            if kk.w == 32 {
                format!("{:?}(0x{:08x})", f32::from_bits(b as u32), b)
            } else {
                format!("{:?}(0x{:016x})", f64::from_bits(b as u64), b)
            }
        }
        C::I => format!("{}", kk.sext(b)),
        _ => format!("0x{:x}", b),
    }
}

// ------------------------------------------------------------------ jobs

pub struct Violation {
    pub job: String,
    pub detail: String,
}

type JobFn = Box<dyn Fn(&Run) + Send + Sync>;

pub struct Engine {
    pub prop: String,
    pub config: String,
    /// 0 = smallest spaces (unoptimised build), 1 = medium, 2 = full, 3 = deep
    pub level: u32,
    jobs: Vec<(String, JobFn)>,
    only: Option<String>,
    filter: Vec<String>,
    threads: usize,
    out: Option<String>,
    pub notes: Vec<String>,
}

/// Handle given to a running job.
pub struct Run<'a> {
    pub level: u32,
    pub id: &'a str,
    states: Cell<u64>,
    transitions: Cell<u64>,
    values: Cell<u64>,
    outcomes: RefCell<Vec<u64>>,
    sample: RefCell<Option<String>>,
    viol: RefCell<Option<String>>,
}

impl<'a> Run<'a> {
    /// Record one explored input point that was executed `execs` times.
    #[inline]
    pub fn point(&self, execs: u64) {
        self.states.set(self.states.get() + 1);
        self.transitions.set(self.transitions.get() + execs);
        self.values.set(self.values.get() + execs);
    }
    /// Record `n` further result values compared with the model (a scalar
    /// result counts once per execution already).
    #[inline]
    pub fn values(&self, n: u64) {
        self.values.set(self.values.get() + n);
    }
    /// Record an observed outcome (used to report how many distinct outcomes
    /// were seen; a 4096-bucket lower bound).
    #[inline]
    pub fn outcome(&self, h: u64) {
        let h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52;
        let mut o = self.outcomes.borrow_mut();
        o[(h / 64) as usize] |= 1 << (h % 64);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut x = self.sample.borrow_mut();
        if x.is_none() {
            *x = Some(s());
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.borrow().is_some()
    }
    pub fn fail(&self, d: impl FnOnce() -> String) {
        let mut v = self.viol.borrow_mut();
        if v.is_none() {
            *v = Some(d());
        }
    }
    pub fn check(&self, ok: bool, d: impl FnOnce() -> String) {
        if !ok {
            self.fail(d)
        }
    }
}

thread_local! {
    static CUR_JOB: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static CUR_IN: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Tell the crash reporter which input block is being executed.
#[inline]
pub fn crumb(p: *const u8, len: usize) {
    CUR_IN.with(|c| c.set((p, len)));
}

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

static CRASH_FD: AtomicUsize = AtomicUsize::new(1);

extern "C" fn on_crash(sig: i32) {
    unsafe {
        let fd = CRASH_FD.load(Ordering::Relaxed) as i32;
        let w = |s: &[u8]| {
            write(fd, s.as_ptr(), s.len());
        };
        w(b"\nCRASH signal=");
        w(&[b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8]);
        w(b" job=");
        let (p, n) = CUR_JOB.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
        if !p.is_null() {
            write(fd, p, n);
        }
        w(b" input=");
        let (p, n) = CUR_IN.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
        if !p.is_null() {
            for i in 0..n.min(512) {
                let b = *p.add(i);
                let hx = b"0123456789abcdef";
                w(&[hx[(b >> 4) as usize], hx[(b & 15) as usize]]);
            }
        }
        w(b"\n");
        _exit(1)
    }
}

/// Run `f`, return Err(message) if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Engine {
    pub fn from_args(prop: &str) -> Self {
        let mut e = Engine {
            prop: prop.into(),
            config: "?".into(),
            level: 1,
            jobs: vec![],
            only: None,
            filter: vec![],
            threads: 4,
            out: None,
            notes: vec![],
        };
        let mut a = std::env::args().skip(1);
        while let Some(x) = a.next() {
            let mut v = || a.next().expect("value");
            match x.as_str() {
                "--level" => e.level = v().parse().unwrap(),
                "--config" => e.config = v(),
                "--only" => e.only = Some(v()),
                "--filter" => e.filter = v().split('|').map(String::from).collect(),
                "--threads" => e.threads = v().parse().unwrap(),
                "--out" => e.out = Some(v()),
                o => panic!("unknown argument {o}"),
            }
        }
        e
    }

    pub fn job(&mut self, id: impl Into<String>, f: impl Fn(&Run) + Send + Sync + 'static) {
        let id = id.into();
        if let Some(o) = &self.only {
            if *o != id {
                return;
            }
        }
        if !self.filter.is_empty() && !self.filter.iter().any(|x| id.contains(x.as_str())) {
            return;
        }
        self.jobs.push((id, Box::new(f)));
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    pub fn finish(self) -> ! {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            PANIC_MSG.with(|m| *m.borrow_mut() = s);
        }));
        unsafe {
            for s in [4, 6, 7, 8, 11] {
                signal(s, on_crash as usize);
            }
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let states = AtomicU64::new(0);
        let trans = AtomicU64::new(0);
        let values = AtomicU64::new(0);
        let outcomes = AtomicU64::new(0);
        let single = AtomicU64::new(0);
        let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let samples: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let njobs = self.jobs.len();
        assert!(njobs > 0, "no job selected");
        let dump = std::env::var("MC_DUMP").is_ok();
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= njobs || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (id, f) = &self.jobs[i];
                    CUR_JOB.with(|c| c.set((id.as_ptr(), id.len())));
                    let run = Run {
                        level: self.level,
                        id,
                        states: Cell::new(0),
                        transitions: Cell::new(0),
                        values: Cell::new(0),
                        outcomes: RefCell::new(vec![0; 64]),
                        sample: RefCell::new(None),
                        viol: RefCell::new(None),
                    };
                    let t0 = std::time::Instant::now();
                    if let Err(m) = catch(|| f(&run)) {
                        let (p, n) = CUR_IN.with(|c| c.get());
                        let mut hex = String::new();
                        if !p.is_null() {
                            for i in 0..n.min(512) {
                                hex.push_str(&format!("{:02x}", unsafe { *p.add(i) }));
                            }
                        }
                        run.fail(|| format!("unexpected panic: {m}; input block {hex}"));
                    }
                    crumb(std::ptr::null(), 0);
                    if run.states.get() == 0 && !run.failed() {
                        run.fail(|| "HARNESS-ERROR: job explored nothing".into());
                    }
                    states.fetch_add(run.states.get(), Ordering::Relaxed);
                    trans.fetch_add(run.transitions.get(), Ordering::Relaxed);
                    values.fetch_add(run.values.get(), Ordering::Relaxed);
                    let oc: u32 = run.outcomes.borrow().iter().map(|x| x.count_ones()).sum();
                    outcomes.fetch_add(oc as u64, Ordering::Relaxed);
                    if oc <= 1 {
                        single.fetch_add(1, Ordering::Relaxed);
                    }
                    if dump {
                        eprintln!("JOB {} states={} trans={} outcomes={} {:?}", id, run.states.get(), run.transitions.get(), oc, t0.elapsed());
                    }
                    if let Some(s) = run.sample.borrow_mut().take() {
                        let mut m = samples.lock().unwrap();
                        if m.len() < 400 {
                            m.insert(id.clone(), s);
                        }
                    }
                    let failed = run.viol.borrow_mut().take();
                    if let Some(d) = failed {
                        let mut v = viol.lock().unwrap();
                        v.push(Violation { job: id.clone(), detail: d });
                        if v.len() >= 40 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        let viol = viol.into_inner().unwrap();
        let samples = samples.into_inner().unwrap();
        let step = (samples.len() / 6).max(1);
        let sm: Vec<String> = samples
            .iter()
            .step_by(step)
            .take(6)
            .map(|(a, b)| json_str(&format!("{a}: {b}")))
            .collect();
        let vs: Vec<String> = viol
            .iter()
            .map(|v| format!("{{\"job\":{},\"detail\":{}}}", json_str(&v.job), json_str(&v.detail)))
            .collect();
        let notes: Vec<String> = self.notes.iter().map(|s| json_str(s)).collect();
        let js = format!(
            "{{\"property\":{},\"config\":{},\"level\":{},\"jobs\":{},\"states\":{},\"transitions\":{},\"values\":{},\"distinct_outcomes_at_least\":{},\"single_outcome_jobs\":{},\"samples\":[{}],\"notes\":[{}],\"violations\":[{}]}}",
            json_str(&self.prop), json_str(&self.config), self.level, njobs,
            states.load(Ordering::Relaxed), trans.load(Ordering::Relaxed), values.load(Ordering::Relaxed),
            outcomes.load(Ordering::Relaxed), single.load(Ordering::Relaxed),
            sm.join(","), notes.join(","), vs.join(",")
        );
        match &self.out {
            Some(p) => std::fs::write(p, js).unwrap(),
            None => println!("{js}"),
        }
        std::process::exit(if viol.is_empty() { 0 } else { 1 })
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    h
}

// ------------------------------------------------------------ lane-wise ops

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum A {
    /// vector argument
    V,
    /// scalar argument (same value applied to all lanes)
    S,
}

/// Specification of a lane-wise operation: result lane `i` is a function of
/// lane `i` of every vector argument and of the scalar arguments.
pub struct Lanewise {
    pub args: Vec<(K, A)>,
    pub out: K,
    pub n: usize,
    pub f: F,
    /// number of result slots that must all agree (assign forms etc.)
    pub outs: usize,
}

impl Lanewise {
    fn describe(&self, inp: &Block, out: &Block, slot: usize, lane: usize, exp: &Exp) -> String {
        let mut s = String::new();
        for (i, (kk, a)) in self.args.iter().enumerate() {
            s.push_str(&format!("arg{i}="));
            match a {
                A::V => {
                    s.push('[');
                    for j in 0..self.n {
                        if j > 0 {
                            s.push_str(", ");
                        }
                        s.push_str(&show(*kk, inp.get(i, kk.bytes(), j)));
                    }
                    s.push_str("] ");
                }
                A::S => s.push_str(&format!("{} ", show(*kk, inp.get(i, kk.bytes(), 0)))),
            }
        }
        s.push_str(&format!(
            "=> result{} lane {}: got {} expected {}",
            slot,
            lane,
            show(self.out, out.get(slot, self.out.bytes(), lane)),
            exp.show(self.out)
        ));
        s
    }

    /// Visit one input: lane j uses tuple `sel(j)`.
    fn visit(&self, run: &Run, inp: &mut Block, out: &mut Block, tup: &[[u128; 3]], exp: &[Exp], sel: impl Fn(usize) -> usize) -> bool {
        for j in 0..self.n {
            let t = &tup[sel(j)];
            for (i, (kk, a)) in self.args.iter().enumerate() {
                if *a == A::V {
                    inp.put(i, kk.bytes(), j, t[i]);
                } else if j == 0 {
                    inp.put(i, kk.bytes(), 0, t[i]);
                }
            }
        }
        (self.f)(inp.0.as_ptr(), out.0.as_mut_ptr());
        run.point(self.outs as u64);
        run.values(self.outs as u64 * (self.n as u64 - 1));
        run.outcome(hash_bytes(&out.0[..SLOT]));
        let ob = self.out.bytes();
        for slot in 0..self.outs {
            for j in 0..self.n {
                let e = &exp[sel(j)];
                let a = out.get(slot, ob, j);
                if !e.ok(self.out, a) {
                    run.fail(|| self.describe(inp, out, slot, j, e));
                    return false;
                }
            }
        }
        run.sample(|| self.describe(inp, out, 0, 0, &exp[sel(0)]));
        true
    }

    /// Explore: every tuple in every lane (sliding window), every tuple as a
    /// splat, and one/two-lane deviations from uniform vectors.
    /// `tuples` must be grouped so that tuples sharing scalar arguments are
    /// consecutive groups.
    pub fn explore(&self, run: &Run, tuples: &[[u128; 3]], oracle: &dyn Fn(&[u128; 3]) -> Exp) {
        let mut inp = Block::new();
        let mut out = Block::new();
        crumb(inp.0.as_ptr(), SLOT * self.args.len());
        let scal: Vec<usize> = (0..self.args.len()).filter(|&i| self.args[i].1 == A::S).collect();
        let n = self.n;
        let mut start = 0;
        while start < tuples.len() {
            // one group = equal scalar arguments
            let mut end = start + 1;
            if scal.is_empty() {
                end = tuples.len();
            } else {
                while end < tuples.len() && scal.iter().all(|&s| tuples[end][s] == tuples[start][s]) {
                    end += 1;
                }
            }
            let t = &tuples[start..end];
            let exp: Vec<Exp> = t.iter().map(|x| oracle(x)).collect();
            let l = t.len();
            // every tuple in every lane, neighbours differ
            for base in 0..l {
                if !self.visit(run, &mut inp, &mut out, t, &exp, |j| (base + j) % l) {
                    return;
                }
            }
            // the same with the first operand varying fastest (the others mostly equal)
            if n > 1 && scal.is_empty() && self.args.len() > 1 {
                let stride = t.iter().take_while(|x| x[0] == t[0][0]).count();
                if stride > 1 && stride < l {
                    for base in 0..l {
                        if !self.visit(run, &mut inp, &mut out, t, &exp, |j| (base + j * stride) % l) {
                            return;
                        }
                    }
                }
            }
            // splats
            if n > 1 {
                for base in 0..l {
                    if !self.visit(run, &mut inp, &mut out, t, &exp, |_| base) {
                        return;
                    }
                }
                // single-lane deviations from uniform, strided choice of tuples
                let m = [3, 4, 6, 8][run.level.min(3) as usize].min(l);
                let pick = |x: usize| x * (l - 1) / (m.max(2) - 1);
                for b in 0..m {
                    for d in 0..m {
                        if b == d {
                            continue;
                        }
                        for lane in 0..n {
                            if !self.visit(run, &mut inp, &mut out, t, &exp, |j| if j == lane { pick(d) } else { pick(b) }) {
                                return;
                            }
                        }
                    }
                }
            }
            start = end;
        }
    }
}

impl Engine {
    /// Register a lane-wise job over the cartesian product of alphabets.
    pub fn lw(&mut self, id: String, args: &[(K, A)], out: K, n: usize, outs: usize, f: F, valid: fn(K, &[u128; 3]) -> bool, oracle: fn(K, K, &[u128; 3]) -> Exp) {
        self.lw_alpha2(id, args, out, n, outs, f, valid, oracle, |_, kk, lv, ar| alphabet(kk, lv, ar), |i, kk, lv, ar| if lv >= 2 && ar == 2 { dense(i, kk) } else { vec![] })
    }

    pub fn lw_alpha(
        &mut self,
        id: String,
        args: &[(K, A)],
        out: K,
        n: usize,
        outs: usize,
        f: F,
        valid: fn(K, &[u128; 3]) -> bool,
        oracle: fn(K, K, &[u128; 3]) -> Exp,
        alpha: fn(usize, K, u32, usize) -> Vec<u128>,
    ) {
        self.lw_alpha2(id, args, out, n, outs, f, valid, oracle, alpha, |_, _, _, _| vec![])
    }

    /// As `lw_alpha`, then once more with the alphabets of `more` if non-empty.
    pub fn lw_alpha2(
        &mut self,
        id: String,
        args: &[(K, A)],
        out: K,
        n: usize,
        outs: usize,
        f: F,
        valid: fn(K, &[u128; 3]) -> bool,
        oracle: fn(K, K, &[u128; 3]) -> Exp,
        alpha: fn(usize, K, u32, usize) -> Vec<u128>,
        more: fn(usize, K, u32, usize) -> Vec<u128>,
    ) {
        let args = args.to_vec();
        self.job(id, move |run| {
            let lw = Lanewise { args: args.clone(), out, n, f, outs };
            let ar = args.len();
            // scalar arguments vary slowest so groups are contiguous
            let mut order: Vec<usize> = (0..ar).filter(|&i| args[i].1 == A::S).collect();
            order.extend((0..ar).filter(|&i| args[i].1 == A::V));
            let k0 = args[0].0;
            let scal: Vec<usize> = (0..ar).filter(|&i| args[i].1 == A::S).collect();
            for al in [alpha, more] {
                let alphas: Vec<Vec<u128>> = order.iter().map(|&i| al(i, args[i].0, run.level, ar)).collect();
                let mut tuples: Vec<[u128; 3]> = vec![];
                product(&alphas, &mut |vals| {
                    let mut t = [0u128; 3];
                    for (p, &i) in order.iter().enumerate() {
                        t[i] = vals[p];
                    }
                    if !valid(k0, &t) {
                        return;
                    }
                    // very large spaces are explored in chunks (between scalar groups)
                    if tuples.len() >= 1 << 20 && scal.iter().all(|&s| tuples[tuples.len() - 1][s] != t[s]) {
                        if !run.failed() {
                            lw.explore(run, &tuples, &|t| oracle(k0, out, t));
                        }
                        tuples.clear();
                    }
                    tuples.push(t);
                });
                if !run.failed() {
                    lw.explore(run, &tuples, &|t| oracle(k0, out, t));
                }
            }
        });
    }
}

pub fn always(_: K, _: &[u128; 3]) -> bool {
    true
}

pub fn product(al: &[Vec<u128>], f: &mut dyn FnMut(&[u128])) {
    let mut cur = vec![0u128; al.len()];
    fn rec(al: &[Vec<u128>], d: usize, cur: &mut Vec<u128>, f: &mut dyn FnMut(&[u128])) {
        if d == al.len() {
            f(cur);
            return;
        }
        for &v in &al[d] {
            cur[d] = v;
            rec(al, d + 1, cur, f);
        }
    }
    rec(al, 0, &mut cur, f)
}

// ------------------------------------------------------------ whole-vector ops

impl Engine {
    /// Operation whose results depend on whole vectors: explore
    /// `for_each_vec` and compare result slots lane by lane.
    /// `model(lanes) -> Vec of (slot, kind, Vec<Exp>)`
    pub fn whole1(&mut self, id: String, kk: K, n: usize, f: F, model: fn(K, &[u128]) -> Vec<(usize, K, Vec<Exp>)>) {
        self.whole1_b(id, kk, n, f, Box::new(model))
    }
    pub fn whole1_b(&mut self, id: String, kk: K, n: usize, f: F, model: Box<dyn Fn(K, &[u128]) -> Vec<(usize, K, Vec<Exp>)> + Send + Sync>) {
        self.job(id, move |run| {
            let mut inp = Block::new();
            let mut out = Block::new();
            crumb(inp.0.as_ptr(), SLOT);
            for_each_vec(kk, n, run.level, &mut |lanes| {
                for (j, v) in lanes.iter().enumerate() {
                    inp.put(0, kk.bytes(), j, *v);
                }
                f(inp.0.as_ptr(), out.0.as_mut_ptr());
                run.outcome(hash_bytes(&out.0[..SLOT]));
                let m = model(kk, lanes);
                run.point(m.len() as u64);
                run.values(m.iter().map(|x| x.2.len() as u64).sum::<u64>().saturating_sub(m.len() as u64));
                for (slot, ko, exps) in &m {
                    for (j, e) in exps.iter().enumerate() {
                        let a = out.get(*slot, ko.bytes(), j);
                        if !e.ok(*ko, a) {
                            run.fail(|| {
                                format!(
                                    "input [{}] => result{} lane {}: got {} expected {}",
                                    lanes.iter().map(|v| show(kk, *v)).collect::<Vec<_>>().join(", "),
                                    slot,
                                    j,
                                    show(*ko, a),
                                    e.show(*ko)
                                )
                            });
                            return false;
                        }
                    }
                }
                run.sample(|| {
                    let (slot, ko, _) = &m[0];
                    format!(
                        "[{}] => result{} {}",
                        lanes.iter().map(|v| show(kk, *v)).collect::<Vec<_>>().join(", "),
                        slot,
                        show(*ko, out.get(*slot, ko.bytes(), 0))
                    )
                });
                true
            });
        });
    }
}

/// All 2^32 pairs of 16-bit lanes: slot 0 holds `a` in every lane, slot 1 the
/// next lanes' `b` (after `fix`, which maps pairs outside the operation's domain
/// into it), slot 2 holds `b & 15`.  Output slot s is compared with `model()[s]`.
pub fn pairs16<const O: usize>(run: &Run, part: u32, parts: u32, n: usize, f: F, fix: impl Fn(u16, u16) -> u16, model: impl Fn(u16, u16) -> [u16; O]) {
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), 3 * SLOT);
    for a in (65536 * part / parts)..(65536 * (part + 1) / parts) {
        let a = a as u16;
        for j in 0..n {
            inp.0[2 * j..2 * j + 2].copy_from_slice(&a.to_le_bytes());
        }
        let mut b0 = 0usize;
        while b0 < 65536 {
            for j in 0..n {
                let b = fix(a, (b0 + j) as u16);
                inp.0[SLOT + 2 * j..SLOT + 2 * j + 2].copy_from_slice(&b.to_le_bytes());
                inp.0[2 * SLOT + 2 * j..2 * SLOT + 2 * j + 2].copy_from_slice(&(b & 15).to_le_bytes());
            }
            f(inp.0.as_ptr(), out.0.as_mut_ptr());
            for j in 0..n {
                let b = fix(a, (b0 + j) as u16);
                let want = model(a, b);
                for s in 0..O {
                    let o = SLOT * s + 2 * j;
                    let got = u16::from_le_bytes([out.0[o], out.0[o + 1]]);
                    if got != want[s] {
                        run.fail(|| format!("lanes a={a:#06x} b={b:#06x} in lane {j} of {n}: result {s} is {got:#06x}, expected {:#06x}", want[s]));
                        return;
                    }
                }
            }
            b0 += n;
        }
        run.values((65536 * O) as u64);
        run.outcome(hash_bytes(&out.0[..64]));
        for _ in 0..65536 / n {
            run.point(O as u64);
        }
    }
}
/// All 2^32 values of 32-bit lanes in slot 0 (mapped into the operation's domain
/// by `fix`); output slot s holds lanes of `bytes` bytes, compared with `model()[s]`.
pub fn sweep32<const O: usize>(run: &Run, n: usize, bytes: usize, f: F, fix: impl Fn(u32) -> u32, model: impl Fn(u32) -> [u128; O]) {
    let mut inp = Block::new();
    let mut out = Block::new();
    crumb(inp.0.as_ptr(), SLOT);
    let mut x = 0u64;
    while x < 1 << 32 {
        for j in 0..n {
            inp.0[4 * j..4 * j + 4].copy_from_slice(&fix(x as u32 + j as u32).to_le_bytes());
        }
        f(inp.0.as_ptr(), out.0.as_mut_ptr());
        for j in 0..n {
            let v = fix(x as u32 + j as u32);
            let want = model(v);
            for s in 0..O {
                let got = out.get(s, bytes, j);
                if got != want[s] {
                    run.fail(|| format!("lane value {v:#010x} in lane {j} of {n}: result {s} is {got:#x}, expected {:#x}", want[s]));
                    return;
                }
            }
        }
        run.point(O as u64);
        run.values((O * (n - 1)) as u64);
        if x & 0xfffff == 0 {
            run.outcome(hash_bytes(&out.0[..64]));
        }
        x += n as u64;
    }
}
