//! The explorer: visits every case of every suite of a property, on all cores, and stops at the
//! first case on which the implementation disagrees with the model.

use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};
use std::sync::Mutex;

/// Largest width, in 64-bit digits.
pub const MAXL: usize = 16;
pub type Raw = [u64; MAXL];

/// One case: up to three big operands, three scalars and a string.
#[derive(Clone)]
pub struct Args {
    pub z: [Raw; 3],
    pub n: [u128; 3],
    pub s: Vec<u8>,
}

impl Args {
    pub fn new() -> Args {
        Args { z: [[0; MAXL]; 3], n: [0; 3], s: Vec::new() }
    }
    pub fn z<const L: usize>(&self, i: usize) -> [u64; L] {
        let mut r = [0; L];
        r.copy_from_slice(&self.z[i][..L]);
        r
    }
    fn text(&self) -> String {
        let mut o = String::new();
        for z in &self.z {
            let mut n = MAXL;
            while n > 1 && z[n - 1] == 0 {
                n -= 1;
            }
            let _ = write!(o, "{:x}", z[n - 1]);
            for d in z[..n - 1].iter().rev() {
                let _ = write!(o, "{:016x}", d);
            }
            o.push(',');
        }
        for n in &self.n {
            let _ = write!(o, "{:x},", n);
        }
        for b in &self.s {
            let _ = write!(o, "{:02x}", b);
        }
        o
    }
    pub fn parse(t: &str) -> Args {
        let mut a = Args::new();
        let f: Vec<&str> = t.split(',').collect();
        for i in 0..3 {
            let b = f[i].as_bytes();
            for (k, c) in b.iter().rev().enumerate() {
                a.z[i][k / 16] |= ((*c as char).to_digit(16).unwrap() as u64) << (k % 16 * 4);
            }
            a.n[i] = u128::from_str_radix(f[3 + i], 16).unwrap();
        }
        for k in 0..f[6].len() / 2 {
            a.s.push(u8::from_str_radix(&f[6][2 * k..2 * k + 2], 16).unwrap());
        }
        a
    }
}

pub type Gen = Box<dyn Fn(usize, &mut dyn FnMut(&Args)) + Sync + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dep {
    Nothing,
    Limb,
    Pointer,
}

/// A finite space of cases with the check to run on each.
pub struct Suite {
    pub name: String,
    pub desc: String,
    pub outer: usize,
    pub gen: Gen,
    pub check: fn(&mut Ctx, &Args),
    /// names of the outcome classes counted by the check
    pub classes: &'static [&'static str],
    /// what the results depend on by design (only compared between configurations that agree on it)
    pub dep: Dep,
}

/// Hash of a result, independent of the target.
pub struct Fnv(pub u64);
impl Fnv {
    pub fn put(&mut self, v: u64) {
        let mut x = self.0 ^ v;
        x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        x ^= x >> 29;
        self.0 = x.wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ (x >> 32);
    }
}

/// Observable results: comparable, printable and hashable.
pub trait Obs: PartialEq {
    fn show(&self) -> String;
    fn rec(&self, h: &mut Fnv) {
        for b in self.show().bytes() {
            h.put(b as u64);
        }
        h.put(256);
    }
}
macro_rules! obs {
    ($($t:ty)*) => ($(impl Obs for $t {
        fn show(&self) -> String { format!("{:?}", self) }
    })*)
}
obs! { String }
macro_rules! obs_int {
    ($($t:ty)*) => ($(impl Obs for $t {
        fn show(&self) -> String { format!("{:?}", self) }
        fn rec(&self, h: &mut Fnv) {
            h.put(*self as u64);
            h.put((*self as i128 >> 64) as u64);
        }
    })*)
}
obs_int! { bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize std::cmp::Ordering }
macro_rules! obs_vec {
    ($($t:ty)*) => ($(impl Obs for Vec<$t> {
        fn show(&self) -> String { format!("{:?}", self) }
        fn rec(&self, h: &mut Fnv) {
            h.put(self.len() as u64);
            for x in self {
                h.put(*x as u64);
                h.put((*x as u128 >> 64) as u64);
            }
        }
    })*)
}
obs_vec! { u8 u32 u64 u128 }
impl Obs for &'static str {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Obs for () {
    fn show(&self) -> String {
        "()".to_string()
    }
}
impl<const L: usize> Obs for [u64; L] {
    fn show(&self) -> String {
        let mut o = String::from("0x");
        for d in self.iter().rev() {
            let _ = write!(o, "{:016x}", d);
        }
        o
    }
    fn rec(&self, h: &mut Fnv) {
        for d in self {
            h.put(*d);
        }
    }
}
impl<T: Obs> Obs for Option<T> {
    fn show(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.show()),
        }
    }
    fn rec(&self, h: &mut Fnv) {
        match self {
            None => h.put(2),
            Some(x) => {
                h.put(3);
                x.rec(h)
            },
        }
    }
}
impl<A: Obs, B: Obs> Obs for (A, B) {
    fn show(&self) -> String {
        format!("({}, {})", self.0.show(), self.1.show())
    }
    fn rec(&self, h: &mut Fnv) {
        self.0.rec(h);
        self.1.rec(h)
    }
}
impl<T: Obs, E: Obs> Obs for Result<T, E> {
    fn show(&self) -> String {
        match self {
            Ok(x) => format!("Ok({})", x.show()),
            Err(x) => format!("Err({})", x.show()),
        }
    }
}
/// Outcome of something that may panic.
#[derive(PartialEq)]
pub enum Out<T> {
    V(T),
    Panic,
}
impl<T: Obs> Obs for Out<T> {
    fn show(&self) -> String {
        match self {
            Out::V(x) => x.show(),
            Out::Panic => "panic".into(),
        }
    }
    fn rec(&self, h: &mut Fnv) {
        match self {
            Out::V(x) => x.rec(h),
            Out::Panic => h.put(77),
        }
    }
}

#[derive(Clone)]
pub struct Fail {
    pub suite: String,
    pub args: String,
    pub op: String,
    pub got: String,
    pub expected: String,
}

/// What each worker is doing right now, readable by the watchdog and by signal handlers.
pub struct Slot {
    args: AtomicPtr<Args>,
    op: AtomicPtr<&'static str>,
    suite: AtomicPtr<Suite>,
    count: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
    args: AtomicPtr::new(std::ptr::null_mut()),
    op: AtomicPtr::new(std::ptr::null_mut()),
    suite: AtomicPtr::new(std::ptr::null_mut()),
    count: AtomicUsize::new(0),
};
const NSLOT: usize = 64;
static SLOTS: [Slot; NSLOT] = [SLOT; NSLOT];

thread_local! {
    static MYSLOT: Cell<usize> = const { Cell::new(0) };
    static EXPECT: Cell<bool> = const { Cell::new(false) };
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Ctx {
    pub op: &'static str,
    pub evals: u64,
    pub cases: u64,
    pub class: [u64; 8],
    pub fail: Option<(String, String, String)>,
    pub recorder: Option<Recorder>,
    stop: bool,
    slot: usize,
}

/// Record mode: per operation name a hash of the results, independent of the order of the cases.
#[derive(Default)]
pub struct Recorder {
    pub ops: Vec<(&'static str, u64, u64)>,
    pub dump: bool,
    /// only dump this operation
    pub op: String,
    pub lines: Vec<String>,
    pub wrong: u64,
    next: usize,
    case: u64,
}

impl Ctx {
    fn new(slot: usize) -> Ctx {
        Ctx { op: "", evals: 0, cases: 0, class: [0; 8], fail: None, recorder: None, stop: false, slot }
    }
    #[inline(always)]
    pub fn begin(&mut self, op: &'static str) {
        self.op = op;
        self.evals += 1;
    }
    #[inline(always)]
    pub fn hit(&mut self, class: usize) {
        self.class[class] += 1;
    }
    #[inline(always)]
    pub fn check<T: Obs>(&mut self, got: T, exp: T) {
        if got != exp {
            self.mismatch(&got, &exp);
        }
        if self.recorder.is_some() {
            self.record(&got);
        }
    }
    /// A result without expectation.
    #[inline(always)]
    pub fn note<T: Obs>(&mut self, got: &T) {
        if self.recorder.is_some() {
            self.record(got);
        }
    }
    #[cold]
    #[inline(never)]
    pub fn mismatch<T: Obs>(&mut self, got: &T, exp: &T) {
        match &mut self.recorder {
            Some(r) => r.wrong += 1,
            None if self.fail.is_none() => {
                self.fail = Some((self.op.to_string(), got.show(), exp.show()));
                self.stop = true;
            },
            _ => {},
        }
    }
    #[inline(never)]
    fn record<T: Obs>(&mut self, got: &T) {
        let op = self.op;
        let r = self.recorder.as_mut().unwrap();
        if r.dump && (r.op.is_empty() || r.op == op) {
            r.lines.push(format!("{}\t{}", op, got.show()));
        }
        // operations mostly come in the same order
        let i = match r.ops.get(r.next) {
            Some(x) if std::ptr::eq(x.0, op) => r.next,
            _ => match r.ops.iter().position(|x| x.0 == op) {
                Some(i) => i,
                None => {
                    r.ops.push((op, 0, 0));
                    r.ops.len() - 1
                },
            },
        };
        r.next = i + 1;
        let mut h = Fnv(r.case);
        got.rec(&mut h);
        r.case = r.case.wrapping_add(1);
        r.ops[i].1 = r.ops[i].1.wrapping_add(h.0);
        r.ops[i].2 += 1;
    }
}

/// Run something that is allowed to panic.
#[inline]
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Out<T> {
    EXPECT.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECT.with(|e| e.set(false));
    match r {
        Ok(v) => Out::V(v),
        Err(_) => Out::Panic,
    }
}

/// Compare a result with the expectation.
#[macro_export]
macro_rules! ck {
    ($c:expr, $op:expr, $got:expr, $exp:expr) => {{
        $c.begin($op);
        let got = $got;
        $c.check(got, $exp);
    }};
}

/// Compare the outcome of something that may panic; the expectation `None` is a panic.
#[macro_export]
macro_rules! ckp {
    ($c:expr, $op:expr, $got:expr, $exp:expr) => {{
        $c.begin($op);
        let got = $crate::engine::may_panic(|| $got);
        let exp = match $exp {
            Some(x) => $crate::engine::Out::V(x),
            None => $crate::engine::Out::Panic,
        };
        $c.check(got, exp);
    }};
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if !EXPECT.with(|e| e.get()) {
            let m = info.to_string();
            MSG.with(|s| *s.borrow_mut() = m);
        }
    }));
}

fn describe(slot: usize, got: &str) -> Fail {
    let s = &SLOTS[slot];
    let args = s.args.load(Ordering::SeqCst);
    let op = s.op.load(Ordering::SeqCst);
    let suite = s.suite.load(Ordering::SeqCst);
    // SAFETY: the worker is stopped at this case (hung or trapped), what it points to is alive
    unsafe {
        Fail {
            suite: if suite.is_null() { "?".into() } else { (*suite).name.clone() },
            args: if args.is_null() { "?".into() } else { (*args).text() },
            op: if op.is_null() { "?".into() } else { (*op).to_string() },
            got: got.to_string(),
            expected: "an ordinary result or panic".to_string(),
        }
    }
}

static FAIL_PATH: Mutex<String> = Mutex::new(String::new());

fn emit_and_exit(f: &Fail) -> ! {
    let p = FAIL_PATH.try_lock().map(|s| s.clone()).unwrap_or_default();
    if !p.is_empty() {
        let _ = std::fs::write(&p, fail_json(f));
    }
    std::process::exit(1)
}

#[cfg(not(miri))]
mod sig {
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
        fn _exit(code: i32) -> !;
    }
    extern "C" fn trap(n: i32) {
        let slot = super::MYSLOT.with(|s| s.get());
        let f = super::describe(slot, &format!("process killed by signal {}", n));
        let p = super::FAIL_PATH.try_lock().map(|s| s.clone()).unwrap_or_default();
        if !p.is_empty() {
            let _ = std::fs::write(&p, super::fail_json(&f));
        }
        unsafe { _exit(1) }
    }
    pub fn install() {
        // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
        for s in [4, 5, 6, 7, 8, 11] {
            unsafe {
                signal(s, trap as *const () as usize);
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff));
            },
            c => o.push(c),
        }
    }
    o
}

pub fn fail_json(f: &Fail) -> String {
    format!(
        "{{\"suite\":\"{}\",\"args\":\"{}\",\"op\":\"{}\",\"got\":\"{}\",\"expected\":\"{}\"}}\n",
        esc(&f.suite), esc(&f.args), esc(&f.op), esc(&f.got), esc(&f.expected)
    )
}

pub struct Report {
    pub name: String,
    pub desc: String,
    pub cases: u64,
    pub evals: u64,
    pub class: Vec<(&'static str, u64)>,
    pub sample: String,
    pub wall: f64,
}

fn run_case(suite: &Suite, ctx: &mut Ctx, a: &Args) {
    let s = &SLOTS[ctx.slot];
    s.args.store(a as *const Args as *mut Args, Ordering::Relaxed);
    s.op.store(&mut ctx.op, Ordering::Relaxed);
    s.count.fetch_add(1, Ordering::Relaxed);
    ctx.cases += 1;
    let _keep = Keep(a);
    (suite.check)(ctx, a);
}

/// Visit every case of a suite. `Err` is the first disagreement.
pub fn explore(suite: &Suite, threads: usize) -> Result<Report, Fail> {
    let t0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let total: Mutex<(u64, u64, [u64; 8])> = Mutex::new((0, 0, [0; 8]));
    let sample: Mutex<String> = Mutex::new(String::new());
    let work = |tid: usize| {
        MYSLOT.with(|s| s.set(tid));
        SLOTS[tid].suite.store(suite as *const Suite as *mut Suite, Ordering::SeqCst);
        let mut ctx = Ctx::new(tid);
        loop {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= suite.outer {
                break;
            }
            let mut cur: Option<Fail> = None;
            let mid = i == suite.outer / 2;
            let mut first = true;
            let r = catch_unwind(AssertUnwindSafe(|| {
                (suite.gen)(i, &mut |a: &Args| {
                    if ctx.stop {
                        return;
                    }
                    run_case(suite, &mut ctx, a);
                    if mid && first {
                        first = false;
                        *sample.lock().unwrap() = a.text();
                    }
                    if let Some((op, got, exp)) = ctx.fail.take() {
                        cur = Some(Fail { suite: suite.name.clone(), args: a.text(), op, got, expected: exp });
                    }
                })
            }));
            if r.is_err() {
                let msg = MSG.with(|s| s.borrow().clone());
                cur = Some(Fail {
                    suite: suite.name.clone(),
                    args: LAST.with(|s| s.borrow().clone()),
                    op: ctx.op.to_string(),
                    got: format!("panic: {}", msg),
                    expected: "a result".into(),
                });
            }
            if let Some(f) = cur {
                stop.store(true, Ordering::Relaxed);
                let mut g = fail.lock().unwrap();
                if g.is_none() {
                    *g = Some(f);
                }
                break;
            }
        }
        let mut g = total.lock().unwrap();
        g.0 += ctx.cases;
        g.1 += ctx.evals;
        for k in 0..8 {
            g.2[k] += ctx.class[k];
        }
        SLOTS[tid].args.store(std::ptr::null_mut(), Ordering::SeqCst);
    };
    if threads <= 1 {
        work(1);
    } else {
        std::thread::scope(|s| {
            for t in 1..=threads {
                let w = &work;
                s.spawn(move || w(t));
            }
        });
    }
    if let Some(f) = fail.into_inner().unwrap() {
        return Err(f);
    }
    let (cases, evals, class) = total.into_inner().unwrap();
    Ok(Report {
        name: suite.name.clone(),
        desc: suite.desc.clone(),
        cases,
        evals,
        class: suite.classes.iter().enumerate().map(|(i, n)| (*n, class[i])).collect(),
        sample: sample.into_inner().unwrap(),
        wall: t0.elapsed().as_secs_f64(),
    })
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps the text of the case when the check unwinds.
struct Keep<'a>(&'a Args);
impl Drop for Keep<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            let t = self.0.text();
            LAST.with(|s| *s.borrow_mut() = t);
        }
    }
}

/// Run all suites of a property; returns the exit code.
pub fn run(suites: &[Suite], threads: usize, json: &str, fail_path: &str) -> i32 {
    install_hook();
    *FAIL_PATH.lock().unwrap() = fail_path.to_string();
    #[cfg(not(miri))]
    {
        sig::install();
        watchdog();
    }
    let mut reps = Vec::new();
    let mut failed = None;
    for s in suites {
        match explore(s, threads) {
            Ok(r) => reps.push(r),
            Err(f) => {
                failed = Some(f);
                break;
            },
        }
    }
    let mut o = String::from("{\"suites\":[");
    for (i, r) in reps.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"name\":\"{}\",\"desc\":\"{}\",\"cases\":{},\"evals\":{},\"sample\":\"{}\",\"wall\":{:.3},\"outcomes\":{{",
            esc(&r.name), esc(&r.desc), r.cases, r.evals, esc(&r.sample), r.wall
        );
        for (k, (n, v)) in r.class.iter().enumerate() {
            let _ = write!(o, "{}\"{}\":{}", if k > 0 { "," } else { "" }, n, v);
        }
        o.push_str("}}");
    }
    o.push_str("]}\n");
    if !json.is_empty() {
        std::fs::write(json, &o).unwrap();
    } else {
        print!("{}", o);
    }
    match failed {
        None => 0,
        Some(f) => {
            let t = fail_json(&f);
            if fail_path.is_empty() {
                print!("{}", t);
            } else {
                std::fs::write(fail_path, &t).unwrap();
            }
            1
        },
    }
}

/// A worker that stays on the same case for this long is hung.
const HANG_S: u64 = 30;

#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [(0usize, 0u64); NSLOT];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..NSLOT {
                let s = &SLOTS[i];
                let n = s.count.load(Ordering::Relaxed);
                if n == 0 || s.args.load(Ordering::SeqCst).is_null() || n != last[i].0 {
                    last[i] = (n, 0);
                } else {
                    last[i].1 += 1;
                    if last[i].1 > HANG_S {
                        emit_and_exit(&describe(i, "no result: the call does not terminate"));
                    }
                }
            }
        }
    });
}

/// Re-run one stored case, without the explorer. Exit 1 if it still fails.
pub fn replay(suites: &[Suite], name: &str, args: &str) -> i32 {
    install_hook();
    #[cfg(not(miri))]
    {
        sig::install();
        watchdog();
    }
    let a = Args::parse(args);
    let s = match suites.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no such suite: {}", name);
            return 2;
        },
    };
    MYSLOT.with(|s| s.set(1));
    SLOTS[1].suite.store(s as *const Suite as *mut Suite, Ordering::SeqCst);
    let mut ctx = Ctx::new(1);
    let r = catch_unwind(AssertUnwindSafe(|| run_case(s, &mut ctx, &a)));
    if r.is_err() {
        println!("{}: {}: panic: {}", name, ctx.op, MSG.with(|s| s.borrow().clone()));
        return 1;
    }
    match ctx.fail {
        Some((op, got, exp)) => {
            println!("{}: {}: got {} expected {}", name, op, got, exp);
            1
        },
        None => {
            println!("{}: holds ({} comparisons)", name, ctx.evals);
            0
        },
    }
}

/// Print what every operation returns on every case of the suites: hashed, or in full for one suite
/// (optionally of one operation or one case).
pub fn record(suites: &[Suite], only: &str, op: &str, case: &str, threads: usize) {
    install_hook();
    for s in suites {
        if !only.is_empty() && s.name != only {
            continue;
        }
        let dump = !only.is_empty();
        let next = AtomicUsize::new(0);
        let total: Mutex<(Vec<(&'static str, u64, u64)>, u64, u64)> = Mutex::new((Vec::new(), 0, 0));
        let worker = || {
            let mut ctx = Ctx::new(1);
            ctx.recorder = Some(Recorder { dump, op: op.to_string(), ..Default::default() });
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= s.outer {
                    break;
                }
                let mut k = 0u64;
                let mut each = |a: &Args| {
                    let rec = ctx.recorder.as_mut().unwrap();
                    let from = rec.lines.len();
                    let mut h = Fnv(i as u64);
                    h.put(k);
                    rec.case = h.0;
                    rec.next = 0;
                    k += 1;
                    if dump && op.is_empty() {
                        println!("C\t{}", a.text());
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        ctx.cases += 1;
                        (s.check)(&mut ctx, a)
                    }));
                    if r.is_err() {
                        EXPECT.with(|e| e.set(false));
                        ctx.check("unexpected panic", "");
                    }
                    let rec = ctx.recorder.as_mut().unwrap();
                    if rec.dump {
                        let t = a.text();
                        for l in rec.lines.drain(from..) {
                            println!("L\t{}\t{}", t, l);
                        }
                    }
                };
                if !case.is_empty() {
                    each(&Args::parse(case));
                    break;
                }
                (s.gen)(i, &mut each);
            }
            let rec = ctx.recorder.unwrap();
            let mut t = total.lock().unwrap();
            for (op, h, n) in rec.ops {
                match t.0.iter_mut().find(|x| x.0 == op) {
                    Some(x) => {
                        x.1 = x.1.wrapping_add(h);
                        x.2 += n;
                    },
                    None => t.0.push((op, h, n)),
                }
            }
            t.1 += ctx.cases;
            t.2 += rec.wrong;
        };
        if threads <= 1 || dump {
            worker();
        } else {
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(worker);
                }
            });
        }
        let (mut ops, cases, wrong) = total.into_inner().unwrap();
        ops.sort();
        for (op, h, n) in ops {
            println!("R\t{}\t{}\t{}\t{:016x}", s.name, op, n, h);
        }
        println!("S\t{}\t{}\t{}\t{:?}", s.name, cases, wrong, s.dep);
    }
}
