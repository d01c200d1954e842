//! Choice-sequence based property testing: generators draw bounded integers from a `Src`;
//! a case is the sequence of integers drawn, which is what is shrunk and replayed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- work budget (deterministic)
pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(0) };
}
/// cases that may still exceed their budget (searches of exponential size) before it counts
pub static TOLERATED: AtomicUsize = AtomicUsize::new(0);
/// threads that were stopped in such a case
pub static PARKED: AtomicUsize = AtomicUsize::new(0);
#[cold]
fn exceeded() {
    let ok = TOLERATED.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1)).is_ok();
    unsafe {
        if !ok {
            libc::_exit(WORK_EXIT)
        }
        PARKED.fetch_add(1, Ordering::SeqCst);
        loop {
            libc::pause();
        }
    }
}
/// exit status of a worker whose case exceeded its work budget
pub const WORK_EXIT: i32 = 97;
/// allocations a single case may make / bytes it may hold at once (ordinary cases stay far below)
pub const ALLOC_BUDGET: u64 = 40_000_000;
pub const LIVE_BUDGET: i64 = 3 << 29;
#[inline]
fn account(n: i64, call: u64) {
    let _ = ALLOCS.try_with(|a| {
        let v = a.get() + call;
        a.set(v);
        let _ = LIVE.try_with(|b| {
            let w = b.get() + n;
            b.set(w);
            let _ = BUDGET.try_with(|m| {
                let m = m.get();
                if m != 0 && (v > m || w > LIVE_BUDGET) {
                    exceeded()
                }
            });
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64, 1);
        System.realloc(p, l, n)
    }
}
pub fn work() -> u64 {
    ALLOCS.with(|a| a.get())
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

// ---------------------------------------------------------------- choice source
pub struct Src {
    pre: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { pre: vec![], rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(pre: Vec<u64>) -> Self {
        Src { pre, rng: None, rec: vec![] }
    }
    /// an integer in 0..n (n ≥ 1); 0 is the simplest
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.rng {
            Some(ref mut r) => r.next() % n,
            None => self.pre.get(self.rec.len()).cloned().unwrap_or(0).min(n - 1),
        };
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// lo..=hi, now and then up to far
    pub fn tail(&mut self, lo: usize, hi: usize, far: usize) -> usize {
        if self.chance(1, 25) {
            self.range(lo, far)
        } else {
            self.range(lo, hi)
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// geometric-ish small number in 0..=max
    pub fn small(&mut self, max: usize) -> usize {
        let mut k = 0;
        while k < max && self.chance(1, 2) {
            k += 1;
        }
        k
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.n(n - i);
            v.swap(i, j);
        }
        v
    }
}

// ---------------------------------------------------------------- cases
pub struct Case {
    pub s: Src,
    pub thorough: bool,
    pub desc: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub findings: Vec<String>,
}
impl Case {
    pub fn note<D: Debug>(&mut self, name: &str, d: D) {
        self.desc.push(format!("{} = {:?}", name, d));
        self.log();
    }
    pub fn text<S: AsRef<str>>(&mut self, name: &str, d: S) {
        self.desc.push(format!("{}:\n{}", name, d.as_ref()));
        self.log();
    }
    fn log(&self) {
        if let Some(p) = LOG.get() {
            let c: Vec<String> = self.s.rec.iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(p, format!("{}\n{}\n", c.join(" "), self.desc.join("\n")));
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b
    }
    /// A failure with an exact signature: passes if (and only if) the committed known-findings
    /// file lists it, and is then counted.
    pub fn known_or(&mut self, key: &str, msg: String) -> Res {
        if KNOWN.get().map_or(false, |k| k.contains(key)) {
            self.findings.push(key.into());
            Ok(())
        } else {
            Err(msg)
        }
    }
}
static LOG: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// writes choices and description to a file as a case proceeds (for cases that kill the process)
pub fn set_log(p: String) {
    let _ = LOG.set(p);
}
pub static KNOWN: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}\n  observed: {:?}\n  expected: {:?}", format!($($arg)*), a, b)); }
    }};
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "(no message)".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
/// runs `f`, turning a panic into an `Err` with its message
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

pub struct Outcome {
    pub result: Res,
    pub case: Case,
    pub work: u64,
}
pub fn run_case(part: &Part, s: Src, thorough: bool) -> Outcome {
    let mut case = Case { s, thorough, desc: vec![], labels: vec![], nontrivial: false, findings: vec![] };
    ALLOCS.with(|a| a.set(0));
    LIVE.with(|a| a.set(0));
    BUDGET.with(|m| m.set(ALLOC_BUDGET));
    let result = match no_panic(|| (part.run)(&mut case)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    BUDGET.with(|m| m.set(0));
    let result = result.map_err(|m| if m.len() > 4000 { m.chars().take(4000).chain(" […]".chars()).collect() } else { m });
    Outcome { result, case, work: work() }
}

pub fn case_seed(seed: u64, id: &str, part: &str, idx: u64) -> u64 {
    let mut h = DefaultHasher::new();
    (seed, id, part, idx).hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct PartStats {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_work: u64,
    pub findings: BTreeMap<String, u64>,
}
pub struct Failure {
    pub part: String,
    pub idx: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: Vec<String>,
}

/// where the workers say which case they are at, for a parent that sees them die
pub struct Progress(Vec<AtomicU64>, Option<std::fs::File>);
impl Progress {
    pub fn new(threads: usize, path: Option<&str>) -> Self {
        let f = path.map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
        Progress((0..threads).map(|_| AtomicU64::new(0)).collect(), f)
    }
    fn set(&self, t: usize, part: usize, idx: u64) {
        let v = ((part as u64 + 1) << 48) | idx;
        self.0[t].store(v, Ordering::Relaxed);
        if let Some(ref f) = self.1 {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&v.to_le_bytes(), (t * 8) as u64);
        }
    }
    fn done(&self, t: usize) {
        if let Some(ref f) = self.1 {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&0u64.to_le_bytes(), (t * 8) as u64);
        }
    }
}

struct Shared {
    next: AtomicU64,
    stop_at: AtomicU64,
    finished: AtomicUsize,
    stats: Mutex<PartStats>,
    seen: Mutex<HashSet<u64>>,
    fail: Mutex<Option<Failure>>,
    samples: Mutex<BTreeMap<u64, String>>,
}
/// Runs `cases` cases. A case that exceeds its work budget ends the process, except for the number
/// of `tolerated` ones: those are abandoned (their threads stop for good) and counted as inconclusive.
pub fn run_part(
    prop: &'static Prop,
    pi: usize,
    cases: u64,
    seed: u64,
    thorough: bool,
    threads: usize,
    tolerated: usize,
    progress: &'static Progress,
) -> (PartStats, Option<Failure>) {
    let part = &prop.parts[pi];
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        next: AtomicU64::new(0),
        stop_at: AtomicU64::new(u64::max_value()),
        finished: AtomicUsize::new(0),
        stats: Mutex::new(PartStats::default()),
        seen: Mutex::new(HashSet::new()),
        fail: Mutex::new(None),
        samples: Mutex::new(BTreeMap::new()),
    }));
    TOLERATED.store(tolerated, Ordering::SeqCst);
    let parked0 = PARKED.load(Ordering::SeqCst);
    let worker = move |t: usize| {
        let mut local = PartStats::default();
        let mut hashes = Vec::new();
        loop {
            let idx = sh.next.fetch_add(1, Ordering::SeqCst);
            if idx >= cases || idx > sh.stop_at.load(Ordering::SeqCst) {
                break;
            }
            progress.set(t, pi, idx);
            let o = run_case(part, Src::random(case_seed(seed, prop.id, part.name, idx)), thorough);
            local.evaluations += 1;
            local.max_work = local.max_work.max(o.work);
            for l in &o.case.labels {
                *local.labels.entry(l).or_insert(0) += 1;
            }
            for f in o.case.findings {
                *local.findings.entry(f).or_insert(0) += 1;
            }
            if o.case.nontrivial {
                let mut h = DefaultHasher::new();
                o.case.desc.hash(&mut h);
                if o.case.desc.is_empty() {
                    o.case.s.rec.hash(&mut h);
                }
                hashes.push(h.finish());
                let mut sm = sh.samples.lock().unwrap();
                if sm.len() < 3 || sm.keys().next_back().map_or(false, |k| *k > idx) {
                    sm.insert(idx, o.case.desc.join("\n"));
                    if sm.len() > 3 {
                        let k = *sm.keys().next_back().unwrap();
                        sm.remove(&k);
                    }
                }
            }
            if let Err(msg) = o.result {
                sh.stop_at.fetch_min(idx, Ordering::SeqCst);
                let mut f = sh.fail.lock().unwrap();
                if f.as_ref().map_or(true, |g| g.idx > idx) {
                    *f = Some(Failure { part: part.name.into(), idx, choices: o.case.s.rec, msg, desc: o.case.desc });
                }
            }
            if local.evaluations % 64 == 0 {
                merge(sh, &mut local, &mut hashes);
            }
        }
        progress.done(t);
        merge(sh, &mut local, &mut hashes);
        sh.finished.fetch_add(1, Ordering::SeqCst);
    };
    let mut spawned = 0;
    let mut watched: Vec<(libc::pthread_t, u64, f64)> = vec![];
    loop {
        let parked = PARKED.load(Ordering::SeqCst) - parked0;
        while spawned < threads + parked {
            let t = spawned;
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || worker(t)).unwrap();
            use std::os::unix::thread::JoinHandleExt;
            watched.push((h.as_pthread_t(), 0, 0.0));
            // not joined: the thread may be parked, and its handle stays valid for its clock
            std::mem::forget(h);
            spawned += 1;
        }
        let done = sh.finished.load(Ordering::SeqCst);
        if done + PARKED.load(Ordering::SeqCst) - parked0 >= spawned {
            break;
        }
        for (t, w) in watched.iter_mut().enumerate() {
            let at = progress.0[t].load(Ordering::Relaxed);
            if at == 0 {
                continue;
            }
            if let Some(now) = cpu_time(w.0) {
                if at != w.1 {
                    w.1 = at;
                    w.2 = now;
                } else if now - w.2 > CASE_SECONDS {
                    unsafe { libc::_exit(HANG_EXIT) }
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(if done > 0 { 2 } else { 10 }));
    }
    let mut st = std::mem::take(&mut *sh.stats.lock().unwrap());
    let lost = PARKED.load(Ordering::SeqCst) - parked0;
    if lost > 0 {
        st.labels.insert("abandoned: search too large", lost as u64);
    }
    st.distinct_nontrivial = sh.seen.lock().unwrap().len() as u64;
    st.samples = std::mem::take(&mut *sh.samples.lock().unwrap()).into_iter().map(|(_, v)| v).collect();
    let f = sh.fail.lock().unwrap().take();
    (st, f)
}
fn merge(sh: &Shared, local: &mut PartStats, hashes: &mut Vec<u64>) {
    let local = std::mem::take(local);
    let mut st = sh.stats.lock().unwrap();
    st.evaluations += local.evaluations;
    st.max_work = st.max_work.max(local.max_work);
    for (k, v) in local.labels {
        *st.labels.entry(k).or_insert(0) += v;
    }
    for (k, v) in local.findings {
        *st.findings.entry(k).or_insert(0) += v;
    }
    sh.seen.lock().unwrap().extend(hashes.drain(..));
}
/// seconds of processor time a single case may take (ordinary cases take well below one)
pub const CASE_SECONDS: f64 = 60.0;
/// exit status of a worker with a case that takes longer
pub const HANG_EXIT: i32 = 98;
fn cpu_time(t: libc::pthread_t) -> Option<f64> {
    unsafe {
        let mut clock = 0;
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::pthread_getcpuclockid(t, &mut clock) == 0 && libc::clock_gettime(clock, &mut ts) == 0 {
            Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
        } else {
            None
        }
    }
}
/// ends this process when the current thread has used its time for a case
pub fn limit_this_thread() {
    let me = unsafe { libc::pthread_self() } as u64;
    let start = cpu_time(me as libc::pthread_t).unwrap_or(0.0);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        match cpu_time(me as libc::pthread_t) {
            Some(n) if n - start > CASE_SECONDS / 2.0 => unsafe { libc::_exit(HANG_EXIT) },
            Some(_) => (),
            None => return,
        }
    });
}
pub const STACK: usize = 1 << 29;

pub fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, f).unwrap().join().unwrap()
    })
}

/// Minimises a failing choice sequence; `fails` says whether a candidate still fails
/// and returns the choices it actually consumed.
pub fn shrink(mut best: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut left = budget;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().sum::<u64>(), a) < (b.len(), b.iter().sum::<u64>(), b);
    loop {
        let start = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if left == 0 {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                left -= 1;
                match fails(&c) {
                    Some(r) if better(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero and lower single values, also together with deleting a following choice
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut cands = vec![];
            if v > 0 {
                cands.push(0);
                cands.push(v / 2);
                cands.push(v - 1);
            }
            for x in cands {
                if left == 0 {
                    return best;
                }
                if i >= best.len() || best[i] <= x {
                    continue;
                }
                let mut c = best.clone();
                c[i] = x;
                left -= 1;
                if let Some(r) = fails(&c) {
                    if better(&r, &best) {
                        best = r;
                        continue;
                    }
                }
                for j in 1..=3 {
                    if i + j < c.len() && left > 0 {
                        let mut d = c.clone();
                        d.remove(i + j);
                        left -= 1;
                        if let Some(r) = fails(&d) {
                            if better(&r, &best) {
                                best = r;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == start {
            return best;
        }
    }
}
