//! The explorer: a small bounded model-checking engine that runs the real code.
//!
//! A property module gives an `enumerate` function, which walks a bounded space of *cases*
//! (operation histories, graphs, texts, point configurations, fault points, ...) completely and in
//! a fixed order, and a `check` function, which runs one case on the real code, runs the model
//! beside it, and compares the two after every transition. The engine shards the walk over worker
//! processes, so that a crash, an abort, a hang or exhausted memory in the code under test costs
//! one worker and is attributed to the case that caused it.

mod alloc;

use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type CheckResult = Result<(), String>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    /// Walks the bounded space, calling `Enum::emit` for every case.
    pub enumerate: fn(&mut Enum),
    /// Runs one case on the real code and on the model.
    pub check: fn(&str, &[i64], &mut Obs) -> CheckResult,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub bounds_quick: &'static str,
    pub bounds_thorough: &'static str,
    pub assumptions: &'static [&'static str],
}

/// What one case reports about itself besides its verdict.
#[derive(Default)]
pub struct Obs {
    transitions: u64,
    fps: Vec<u64>,
    nontrivial: bool,
    pub want_note: bool,
    note: Option<String>,
}

impl Obs {
    /// One transition of the system under test was executed.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A (model) state was reached; `fp` is its fingerprint.
    #[inline]
    pub fn state(&mut self, fp: u64) {
        self.fps.push(fp);
    }
    #[inline]
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note && self.note.is_none() {
            self.note = Some(f());
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

/// Whatever way an iterator is consumed, it gives what asking for one item after another gives:
/// `$mk` makes a fresh one, `$conv` what is compared with `$want`, and `$after` is a check that is
/// run whenever one has been given up.
#[macro_export]
macro_rules! iter_laws {
    ($mk:expr, $want:expr, $conv:expr, $after:expr, $what:expr) => {{
        let want = $want;
        let n = want.len();
        let what = $what;
        {
            let mut it = $mk;
            for k in 0..=n {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "{}: size_hint is {:?} with {} to come", what, (lo, hi), n - k);
                let x = it.next().map($conv);
                ensure!(x.as_ref() == want.get(k), "{}: item {} is {:?}, expected {:?}", what, k, x, want.get(k));
            }
        }
        $after?;
        let mut ks = vec![0, 1, 2, 3, 4, 5, 6, 7, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), n, n + 1];
        ks.retain(|k| *k <= n + 1);
        ks.sort();
        ks.dedup();
        for first in 0..=n.min(2) {
            for &k in &ks {
                let at = first + k;
                let rest = want.get(at + 1..).unwrap_or(&[]);
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    let x = it.nth(k).map($conv);
                    ensure!(x.as_ref() == want.get(at), "{}: nth({}) after {} is {:?}, expected {:?}", what, k, first, x, want.get(at));
                    if x.is_some() {
                        let r: Vec<_> = it.map($conv).collect();
                        ensure!(r == rest, "{}: behind nth({}) after {} come {:?}, expected {:?}", what, k, first, r, rest);
                    }
                }
                $after?;
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    // Given up right behind it, or behind the end.
                    if it.nth(k).is_none() {
                        let (lo, hi) = it.size_hint();
                        ensure!(lo == 0 && it.next().is_none(), "{}: after nth({}) after {}, which gives nothing, size_hint is {:?}, or items come", what, k, first, (lo, hi));
                    }
                }
                $after?;
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    let r: Vec<_> = it.skip(k).map($conv).collect();
                    let w = want.get(at..).unwrap_or(&[]);
                    ensure!(r == w, "{}: skip({}) after {} gives {:?}, expected {:?}", what, k, first, r, w);
                }
                $after?;
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    let r: Vec<_> = it.by_ref().take(k).map($conv).collect();
                    let w: Vec<_> = it.map($conv).collect();
                    let at = at.min(n);
                    ensure!(r[..] == want[first..at] && w[..] == want[at..], "{}: take({}) after {} gives {:?}, then {:?}, of {:?}", what, k, first, r, w, want);
                }
                $after?;
            }
            for step in 1..4 {
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    let r: Vec<_> = it.step_by(step).map($conv).collect();
                    ensure!(r.iter().eq(want[first..].iter().step_by(step)), "{}: step_by({}) after {} gives {:?} of {:?}", what, step, first, r, want);
                }
                $after?;
            }
            for how in 0..5 {
                {
                    let mut it = $mk;
                    for _ in 0..first {
                        it.next();
                    }
                    match how {
                        0 => {
                            let c = it.count();
                            ensure!(c == n - first, "{}: count after {} is {} of {}", what, first, c, n);
                        }
                        1 => {
                            let x = it.last().map($conv);
                            ensure!(x.as_ref() == want[first..].last(), "{}: last after {} is {:?}, expected {:?}", what, first, x, want[first..].last());
                        }
                        2 => {
                            let mut r = vec![];
                            it.for_each(|x| r.push(($conv)(x)));
                            ensure!(r[..] == want[first..], "{}: for_each after {} gives {:?} of {:?}", what, first, r, want);
                        }
                        3 => {
                            let r = it.fold(vec![], |mut r, x| {
                                r.push(($conv)(x));
                                r
                            });
                            ensure!(r[..] == want[first..], "{}: fold after {} gives {:?} of {:?}", what, first, r, want);
                        }
                        _ => {
                            let r: Vec<_> = it.collect::<Vec<_>>().into_iter().map($conv).collect();
                            ensure!(r[..] == want[first..], "{}: collecting after {} gives {:?} of {:?}", what, first, r, want);
                        }
                    }
                }
                $after?;
            }
        }
        CheckResult::Ok(())
    }};
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Fingerprint of a sequence of integers.
#[inline]
pub fn fp_i64(seed: u64, xs: impl IntoIterator<Item = i64>) -> u64 {
    let mut h = mix(seed ^ 0xabcd);
    for x in xs {
        h = mix(h ^ (x as u64).wrapping_mul(0xff51afd7ed558ccd)).wrapping_add(h << 1);
    }
    h
}

pub fn fp_str(s: &str) -> u64 {
    fp_i64(7, s.bytes().map(|b| b as i64))
}

const SLOT_WORDS: usize = 1 << 18;
const H_COUNT: usize = 0; // heartbeat: number of cases started
const H_FAM: usize = 1; // family number of the current case
const H_LEN: usize = 2; // length of the current case
const H_STATE: usize = 3; // 0 starting, 1 running, 2 done
const H_DATA: usize = 8;

struct Slot {
    p: *mut AtomicU64,
}

impl Slot {
    fn open(path: &Path, create: bool) -> Slot {
        unsafe {
            let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            let flags = if create { libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC } else { libc::O_RDWR };
            let fd = libc::open(c.as_ptr(), flags, 0o600);
            assert!(fd >= 0, "cannot open slot file");
            if create {
                assert_eq!(libc::ftruncate(fd, (SLOT_WORDS * 8) as libc::off_t), 0);
            }
            let p = libc::mmap(
                std::ptr::null_mut(),
                SLOT_WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            libc::close(fd);
            Slot { p: p as *mut AtomicU64 }
        }
    }
    #[inline]
    fn w(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.p.add(i) }
    }
    #[inline]
    fn get(&self, i: usize) -> u64 {
        self.w(i).load(Ordering::Relaxed)
    }
    #[inline]
    fn set(&self, i: usize, v: u64) {
        self.w(i).store(v, Ordering::Relaxed)
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p as *mut libc::c_void, SLOT_WORDS * 8);
        }
    }
}

const FP_CAP: usize = 1_200_000;

#[derive(Default)]
struct FpSet {
    v: Vec<u64>,
    sorted: usize,
    capped: bool,
}

impl FpSet {
    #[inline]
    fn add(&mut self, x: u64) {
        if self.capped {
            return;
        }
        self.v.push(x);
        if self.v.len() >= FP_CAP * 2 {
            self.compact();
            if self.v.len() >= FP_CAP {
                self.capped = true;
            }
        }
    }
    fn compact(&mut self) {
        self.v.sort_unstable();
        self.v.dedup();
        self.sorted = self.v.len();
    }
}

struct Known {
    property: String,
    family: String,
    case: Vec<i64>,
    what: String,
}

fn load_known(id: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known-findings.txt") {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                let mut k = Known { property: String::new(), family: String::new(), case: vec![], what: String::new() };
                let (head, what) = rest.split_once(" what=").unwrap_or((rest, ""));
                k.what = what.to_string();
                for f in head.split_whitespace() {
                    if let Some(v) = f.strip_prefix("property=") {
                        k.property = v.to_string();
                    } else if let Some(v) = f.strip_prefix("family=") {
                        k.family = v.to_string();
                    } else if let Some(v) = f.strip_prefix("case=") {
                        k.case = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                    }
                }
                if k.property == id {
                    out.push(k);
                }
            }
        }
    }
    out
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = Some(format!("panic at {}: {}", loc, msg));
            }
        });
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

fn run_check(prop: &Prop, fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    match catch_unwind(AssertUnwindSafe(|| (prop.check)(fam, case, obs))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

/// Passed to `enumerate`.
pub struct Enum<'a> {
    pub tier: Tier,
    prop: &'a Prop,
    shard: u64,
    nshards: u64,
    counter: u64,
    slot: &'a Slot,
    fams: Vec<(&'static str, u64, u64)>, // name, cases, nontrivial
    cur_fam: usize,
    fam_names: HashMap<&'static str, usize>,
    fps: FpSet,
    nt_fps: FpSet,
    transitions: u64,
    evals: u64,
    nontrivial: u64,
    known: Vec<Known>,
    known_hit: Vec<bool>,
    samples: Vec<String>,
    violation: Option<(String, Vec<i64>, String)>,
    stop: bool,
    outdir: PathBuf,
    skip: u64,
    /// Cases that take more milliseconds than this are reported (MC_SLOW).
    slow: Option<u128>,
}

impl<'a> Enum<'a> {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// True once a violation was found: the enumerator may stop early.
    pub fn stopped(&self) -> bool {
        self.stop
    }
    fn fam(&mut self, name: &'static str) -> usize {
        if let Some((n, _, _)) = self.fams.get(self.cur_fam) {
            if std::ptr::eq(n.as_ptr(), name.as_ptr()) && n.len() == name.len() {
                return self.cur_fam;
            }
        }
        let i = match self.fam_names.get(name) {
            Some(&i) => i,
            None => {
                let i = self.fams.len();
                self.fams.push((name, 0, 0));
                self.fam_names.insert(name, i);
                i
            }
        };
        self.cur_fam = i;
        i
    }
    /// Is the next case this worker's? Lets an enumerator avoid building a case it does not own.
    /// If it returns false, the case counts as emitted.
    #[inline]
    pub fn mine(&mut self) -> bool {
        if mix(self.counter) % self.nshards == self.shard {
            true
        } else {
            self.counter += 1;
            false
        }
    }
    #[inline]
    pub fn emit(&mut self, fam: &'static str, case: &[i64]) {
        let c = self.counter;
        self.counter += 1;
        let f = self.fam(fam);
        if mix(c) % self.nshards != self.shard || self.stop {
            return;
        }
        self.run(f, fam, case);
    }
    fn run(&mut self, f: usize, fam: &'static str, case: &[i64]) {
        assert!(case.len() < SLOT_WORDS - H_DATA);
        let slot = self.slot;
        slot.set(H_FAM, f as u64);
        slot.set(H_LEN, case.len() as u64);
        for (i, &x) in case.iter().enumerate() {
            slot.set(H_DATA + i, x as u64);
        }
        self.evals += 1;
        slot.w(H_COUNT).store(self.evals, Ordering::Release);
        if self.evals <= self.skip {
            return;
        }
        let mut obs = Obs { want_note: self.fams[f].1 < 1 || (self.fams[f].2 == 0), ..Default::default() };
        if self.fams[f].1 == 0 {
            // The family table is needed to attribute a crash of this worker.
            let names: Vec<&str> = self.fams.iter().map(|x| x.0).collect();
            std::fs::write(self.outdir.join(format!("w{}.fams", self.shard)), names.join("\n")).unwrap();
        }
        let began = self.slow.map(|_| Instant::now());
        let r = run_check(self.prop, fam, case, &mut obs);
        if let (Some(b), Some(ms)) = (began, self.slow) {
            if b.elapsed().as_millis() > ms {
                eprintln!("{:?} {} {:?}", b.elapsed(), fam, &case[..case.len().min(12)]);
            }
        }
        self.transitions += obs.transitions.max(1);
        let cfp = fp_i64(mix(f as u64), case.iter().copied());
        if obs.fps.is_empty() {
            self.fps.add(cfp);
        } else {
            for x in &obs.fps {
                self.fps.add(*x);
            }
        }
        let first = self.fams[f].1 == 0;
        self.fams[f].1 += 1;
        if obs.nontrivial {
            self.nontrivial += 1;
            self.nt_fps.add(cfp);
            self.fams[f].2 += 1;
        }
        if (first || (obs.nontrivial && self.fams[f].2 == 1)) && self.shard < 2 {
            let mut c: String = case.iter().take(40).map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            if case.len() > 40 {
                c.push_str(",...");
            }
            let note = shorten(obs.note.take().unwrap_or_default(), 1000);
            self.samples.push(format!("{} [{}] {}", fam, c, note));
        }
        if let Err(msg) = r {
            for (i, k) in self.known.iter().enumerate() {
                if k.family == fam && k.case == case {
                    self.known_hit[i] = true;
                    return;
                }
            }
            self.violation = Some((fam.to_string(), case.to_vec(), shorten(msg, 2000)));
            self.stop = true;
        }
    }
}

fn shorten(s: String, max: usize) -> String {
    if s.chars().count() <= max {
        return s;
    }
    let a: String = s.chars().take(max / 2).collect();
    let n = s.chars().count();
    let b: String = s.chars().skip(n - max / 2).collect();
    format!("{} ... {}", a, b)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn set_limit(bytes: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

fn silence_stdout() {
    unsafe {
        let c = std::ffi::CString::new("/dev/null").unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 1);
            libc::close(fd);
        }
    }
}

const EXIT_VIOLATION: i32 = 33;
const MEM_LIMIT: u64 = 3 << 30;
const STACK: usize = 64 << 20;

fn worker(prop: &'static Prop, tier: Tier, shard: u64, nshards: u64, outdir: PathBuf) -> i32 {
    set_limit(MEM_LIMIT);
    silence_stdout();
    install_hook();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || worker_body(prop, tier, shard, nshards, outdir))
        .unwrap();
    h.join().unwrap_or(2)
}

fn worker_body(prop: &'static Prop, tier: Tier, shard: u64, nshards: u64, outdir: PathBuf) -> i32 {
    let slot = Slot::open(&outdir.join(format!("w{}.slot", shard)), false);
    slot.set(H_STATE, 1);
    let known = load_known(prop.id);
    let nk = known.len();
    let mut e = Enum {
        tier,
        prop,
        shard,
        nshards,
        counter: 0,
        slot: &slot,
        fams: vec![],
        cur_fam: 0,
        fam_names: HashMap::new(),
        fps: FpSet::default(),
        nt_fps: FpSet::default(),
        transitions: 0,
        evals: 0,
        nontrivial: 0,
        known,
        known_hit: vec![false; nk],
        samples: vec![],
        violation: None,
        stop: false,
        outdir: outdir.clone(),
        skip: 0,
        slow: std::env::var("MC_SLOW").ok().and_then(|x| x.parse().ok()),
    };
    (prop.enumerate)(&mut e);
    e.fps.compact();
    e.nt_fps.compact();
    let dump = |name: &str, v: &[u64]| {
        let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(outdir.join(format!("w{}.{}", shard, name)), bytes).unwrap();
    };
    dump("fps", &e.fps.v);
    dump("nt", &e.nt_fps.v);
    let mut s = String::new();
    s.push_str(&format!("evals {}\n", e.evals));
    s.push_str(&format!("emitted {}\n", e.counter));
    s.push_str(&format!("transitions {}\n", e.transitions));
    s.push_str(&format!("nontrivial {}\n", e.nontrivial));
    s.push_str(&format!("capped {}\n", e.fps.capped as u8 | e.nt_fps.capped as u8));
    for (n, c, t) in &e.fams {
        s.push_str(&format!("fam {} {} {}\n", n, c, t));
    }
    for (i, k) in e.known_hit.iter().enumerate() {
        if *k {
            s.push_str(&format!("known {}\n", i));
        }
    }
    for x in &e.samples {
        s.push_str(&format!("sample {}\n", x.replace('\n', "\\n")));
    }
    std::fs::write(outdir.join(format!("w{}.sum", shard)), s).unwrap();
    if let Some((fam, case, msg)) = &e.violation {
        write_replay(&outdir.join(format!("w{}.viol", shard)), prop.id, tier, fam, case, msg);
    }
    slot.set(H_STATE, 2);
    if e.violation.is_some() {
        EXIT_VIOLATION
    } else {
        0
    }
}

fn write_replay(path: &Path, id: &str, tier: Tier, fam: &str, case: &[i64], msg: &str) {
    let c: Vec<String> = case.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "property {}\ntier {}\nfamily {}\ncase {}\nmessage {}\n",
        id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        fam,
        c.join(","),
        msg.replace('\n', "\\n")
    );
    std::fs::write(path, s).unwrap();
}

fn read_replay(path: &Path) -> (String, String, Vec<i64>, String) {
    let mut s = String::new();
    std::fs::File::open(path).unwrap().read_to_string(&mut s).unwrap();
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for l in s.lines() {
        if let Some((a, b)) = l.split_once(' ') {
            m.insert(a, b);
        } else {
            m.insert(l, "");
        }
    }
    let case = m.get("case").unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    (
        m["property"].to_string(),
        m["family"].to_string(),
        case,
        m.get("message").unwrap_or(&"").to_string(),
    )
}

enum Outcome {
    Held,
    Violated(String),
    Died(String),
}

/// The processor time that a process has used: what runs for ever uses it, what waits for its
/// turn on a busy machine does not.
fn cpu_time(pid: u32) -> Option<Duration> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    let ticks = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as u64;
    Some(Duration::from_millis(ticks * 1000 / hz))
}

/// Runs one recorded case in a fresh process, for so much processor time, or eight times that.
fn confirm(path: &Path, timeout: Duration) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let msgf = path.with_extension("confirm");
    let _ = std::fs::remove_file(&msgf);
    let mut ch = std::process::Command::new(exe)
        .arg("--confirm")
        .arg(path)
        .arg(&msgf)
        .stdout(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match st.code() {
                Some(0) => Outcome::Held,
                Some(EXIT_VIOLATION) => Outcome::Violated(std::fs::read_to_string(&msgf).unwrap_or_default()),
                _ => Outcome::Died(format!("the code under test crashed ({})", st)),
            };
        }
        let wall = t0.elapsed();
        if wall > timeout && (wall > 8 * timeout || cpu_time(ch.id()).map_or(true, |c| c > timeout)) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Outcome::Died(format!("the code under test did not return within {} s", timeout.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(prop: &'static Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = prop.id;
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let n: u64 = std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8)
    });
    let base = PathBuf::from(std::env::var("MC_OUT").unwrap_or_else(|_| "/verif/out".into()));
    let outdir = base.join(id);
    let _ = std::fs::remove_dir_all(&outdir);
    std::fs::create_dir_all(&outdir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |i: u64| {
        std::process::Command::new(&exe)
            .args(["--worker", id, tn, &i.to_string(), &n.to_string()])
            .arg(&outdir)
            .stdout(std::process::Stdio::null())
            .spawn()
            .unwrap()
    };
    struct W {
        ch: std::process::Child,
        slot: Slot,
        last: u64,
        at: Instant,
        /// Processor time when the present case began, and how much it is granted.
        cpu: Duration,
        grant: u32,
        done: bool,
    }
    let mut ws: Vec<W> = (0..n)
        .map(|i| {
            let slot = Slot::open(&outdir.join(format!("w{}.slot", i)), true);
            W { ch: spawn(i), slot, last: 0, at: Instant::now(), cpu: Duration::ZERO, grant: 1, done: false }
        })
        .collect();
    let hang = Duration::from_secs(if tier == Tier::Quick { 12 } else { 40 });
    // (replay file, message, kind) of what a worker reported
    let mut found: Vec<(u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let replay_path = |i: u64| outdir.join(format!("w{}.viol", i));
    loop {
        let mut all = true;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            all = false;
            let st = ws[i].ch.try_wait().unwrap();
            let mut died: Option<String> = None;
            if let Some(st) = st {
                ws[i].done = true;
                match st.code() {
                    Some(0) => {}
                    Some(EXIT_VIOLATION) => found.push((i as u64, "mismatch".into())),
                    _ => died = Some(format!("worker crashed ({})", st)),
                }
            } else {
                let c = ws[i].slot.w(H_COUNT).load(Ordering::Acquire);
                if c != ws[i].last {
                    ws[i].last = c;
                    ws[i].at = Instant::now();
                    ws[i].cpu = cpu_time(ws[i].ch.id()).unwrap_or_default();
                    ws[i].grant = 1;
                } else if ws[i].at.elapsed() > hang * ws[i].grant && c > 0 && ws[i].slot.get(H_STATE) == 1 {
                    let limit = hang * ws[i].grant;
                    let used = cpu_time(ws[i].ch.id()).map_or(limit + hang, |x| x.saturating_sub(ws[i].cpu));
                    if used > limit || ws[i].at.elapsed() > 8 * limit {
                        died = Some("hang".into());
                    }
                }
            }
            if let Some(d) = died {
                let w = &mut ws[i];
                if w.slot.w(H_COUNT).load(Ordering::Acquire) == 0 {
                    errors.push(format!("worker {} ended before its first case: {}", i, d));
                    continue;
                }
                let names = std::fs::read_to_string(outdir.join(format!("w{}.fams", i))).unwrap_or_default();
                let names: Vec<&str> = names.lines().collect();
                let fam = names.get(w.slot.get(H_FAM) as usize).copied().unwrap_or("?");
                let case: Vec<i64> = (0..w.slot.get(H_LEN) as usize).map(|k| w.slot.get(H_DATA + k) as i64).collect();
                write_replay(&replay_path(i as u64), id, tier, fam, &case, &d);
                if d == "hang" {
                    // A case that ends when it runs alone is slow, not endless: let it go on.
                    if w.grant < 8 {
                        if let Outcome::Held = confirm(&replay_path(i as u64), 2 * hang * w.grant) {
                            w.grant *= 2;
                            continue;
                        }
                    }
                    let _ = w.ch.kill();
                    let _ = w.ch.wait();
                    w.done = true;
                    found.push((i as u64, d));
                    // One is enough: each more would take as long to confirm.
                    break;
                }
                found.push((i as u64, d));
            }
        }
        if all || !found.is_empty() || !errors.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.ch.kill();
            let _ = w.ch.wait();
        }
    }

    let mut violation: Option<(PathBuf, String)> = None;
    for (i, kind) in &found {
        let p = replay_path(*i);
        let (_, fam, case, msg) = read_replay(&p);
        // A known finding that kills the process is recognised here.
        let known = load_known(id);
        if known.iter().any(|k| k.family == fam && k.case == case) && kind != "mismatch" {
            errors.push("a listed finding ends the process; list it with a case that does not".into());
            continue;
        }
        let mut ok: Option<String> = None;
        let tries = if kind == "mismatch" { 3 } else { 12 };
        for _ in 0..tries {
            match confirm(&p, 2 * hang) {
                Outcome::Held => {}
                Outcome::Violated(m) => {
                    ok = Some(m);
                    break;
                }
                Outcome::Died(m) => {
                    ok = Some(m);
                    break;
                }
            }
        }
        let fin = match ok {
            Some(m) => m,
            None if kind == "mismatch" => {
                format!("{} (seen once; depends on process state, did not recur when replayed alone)", msg)
            }
            None => {
                let shown = shorten(format!("{:?}", case), 600);
                errors.push(format!("worker {} ended ({}) at a case that holds when replayed: {} {}", i, kind, fam, shown));
                continue;
            }
        };
        let rp = base.join(format!("{}.replay", id));
        write_replay(&rp, id, tier, &fam, &case, &fin);
        violation = Some((rp, fin));
        break;
    }

    // Evidence, from what the workers measured.
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut fams: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut fps: Vec<u64> = vec![];
    let mut nts: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut known_hit: std::collections::BTreeSet<usize> = Default::default();
    let mut emitted = vec![];
    for i in 0..n {
        if let Ok(s) = std::fs::read_to_string(outdir.join(format!("w{}.sum", i))) {
            for l in s.lines() {
                let mut it = l.splitn(2, ' ');
                let k = it.next().unwrap();
                let v = it.next().unwrap_or("");
                match k {
                    "fam" => {
                        let f: Vec<&str> = v.split(' ').collect();
                        let e = fams.entry(f[0].to_string()).or_default();
                        e.0 += f[1].parse::<u64>().unwrap();
                        e.1 += f[2].parse::<u64>().unwrap();
                    }
                    "sample" => {
                        if samples.len() < 60 {
                            samples.push(v.to_string())
                        }
                    }
                    "known" => {
                        known_hit.insert(v.parse().unwrap());
                    }
                    "emitted" => emitted.push(v.parse::<u64>().unwrap()),
                    _ => *tot.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap(),
                }
            }
        }
        for (name, v) in [("fps", &mut fps), ("nt", &mut nts)] {
            if let Ok(b) = std::fs::read(outdir.join(format!("w{}.{}", i, name))) {
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    fps.sort_unstable();
    fps.dedup();
    nts.sort_unstable();
    nts.dedup();
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let complete = violation.is_none() && errors.is_empty() && emitted.len() == n as usize;
    if complete {
        // Every worker walked the same space; together they ran every case of it exactly once.
        if emitted.iter().any(|&x| x != emitted[0]) {
            errors.push(format!("the workers disagree about the size of the space: {:?}", emitted));
        } else if emitted[0] != g("evals") {
            errors.push(format!("{} cases in the space but {} run", emitted[0], g("evals")));
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let famj: Vec<String> = fams
        .iter()
        .map(|(k, (a, b))| format!("{}: {{\"cases\": {}, \"nontrivial\": {}}}", jstr(k), a, b))
        .collect();
    let assume: Vec<String> = prop.assumptions.iter().map(|x| jstr(x)).collect();
    let samplesj: Vec<String> = samples.iter().map(|x| jstr(x)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_nontrivial\": {},\n  \"exhaustive\": {},\n  \"state_count_capped\": {},\n  \"bounds\": {},\n  \"rule\": {},\n  \"families\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(id),
        jstr(tn),
        seed,
        fps.len(),
        g("transitions"),
        g("evals"),
        nts.len(),
        complete,
        g("capped") > 0,
        jstr(if tier == Tier::Quick { prop.bounds_quick } else { prop.bounds_thorough }),
        jstr(prop.rule),
        famj.join(", "),
        samplesj.join(",\n   "),
        assume.join(", "),
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u8
    );
    let evdir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(format!("{}/{}.json", evdir, id), ev).unwrap();

    let known = load_known(id);
    for i in &known_hit {
        println!("KNOWN-FINDING: property={} {}", id, known[*i].what);
    }
    let _ = std::io::stdout().flush();
    let _ = std::fs::remove_dir_all(&outdir);
    if let Some((rp, msg)) = violation {
        println!("{}: {}", id, msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", id, rp.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {}", e);
        }
        return 2;
    }
    println!(
        "{} held: {} cases, {} states, {} transitions, {:.1} s",
        id,
        g("evals"),
        fps.len(),
        g("transitions"),
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn mc_main(props: &'static [Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let tier = |s: &str| match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {}", s);
            std::process::exit(2)
        }
    };
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker(
            find(&args[2]),
            tier(&args[3]),
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
            PathBuf::from(&args[6]),
        ),
        Some("--confirm") | Some("--replay") => {
            let replay = args[1] == "--replay";
            set_limit(MEM_LIMIT);
            let p = PathBuf::from(&args[2]);
            let (id, fam, case, _) = read_replay(&p);
            let prop = find(&id);
            if !replay {
                silence_stdout();
            }
            install_hook();
            let msgf = args.get(3).cloned();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut obs = Obs { want_note: true, ..Default::default() };
                    let r = run_check(prop, &fam, &case, &mut obs);
                    if replay {
                        println!("property {} family {} case {:?}", id, fam, case);
                        if let Some(n) = obs.note {
                            println!("{}", n);
                        }
                        println!("{:?}", r);
                    }
                    match r {
                        Ok(()) => 0,
                        Err(m) => {
                            if let Some(f) = msgf {
                                std::fs::write(f, m).unwrap();
                            }
                            EXIT_VIOLATION
                        }
                    }
                })
                .unwrap()
                .join()
                .unwrap_or(2)
        }
        Some(id) => supervise(find(id), tier(args.get(2).map(|s| s.as_str()).unwrap_or("quick"))),
        None => {
            eprintln!("usage: <property> quick|thorough");
            2
        }
    };
    std::process::exit(rc)
}

// ---------------------------------------------------------------------------------------------
// Enumeration helpers

/// All sequences over 0..k of length exactly `len`, in lexicographic order.
pub fn sequences(k: i64, len: usize, f: &mut dyn FnMut(&[i64]) -> bool) {
    let mut v = vec![0i64; len];
    if k == 0 && len > 0 {
        return;
    }
    loop {
        if !f(&v) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// Sizes around every power of two and some others, from `lo` to `hi`: where counters and blocks end.
pub fn ladder(lo: i64, hi: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (1..40).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]).chain([100, 1000, 10_000, 100_000]).collect();
    v.retain(|&x| x >= lo && x <= hi);
    v.sort();
    v.dedup();
    v
}

/// All permutations of 0..n, in lexicographic order.
pub fn permutations(n: usize, f: &mut dyn FnMut(&[i64])) {
    let mut v: Vec<i64> = (0..n as i64).collect();
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i < 2 {
                return;
            }
            i -= 1;
            if v[i - 1] < v[i] {
                break;
            }
        }
        let p = i - 1;
        let mut j = n - 1;
        while v[j] < v[p] {
            j -= 1;
        }
        v.swap(p, j);
        v[p + 1..].reverse();
    }
}
