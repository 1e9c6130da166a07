//! Exploration engine: bounded exhaustive enumeration of case spaces and explicit-state
//! breadth-first search over operation histories, always on the real code.
//!
//! A check is a list of `Space`s.  Every case of a space is run (up to the stated bound);
//! the engine never samples.  Cases run in a supervised child process, so that a stack
//! overflow, abort or endless loop of the code under test is turned into a violation with a
//! replayable case instead of killing the check.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
// Counts live bytes per thread (using the layouts given to alloc/dealloc, so that a wrong
// layout shows up too) and fills fresh and freed memory with fixed patterns, so that a read
// of uninitialised or freed memory gives the same answer on every run.
pub struct PoisonAlloc;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn bump(d: i64) { let _ = LIVE.try_with(|c| c.set(c.get() + d)); }
const POISON_MAX: usize = 1 << 16;
unsafe impl GlobalAlloc for PoisonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { bump(l.size() as i64); std::ptr::write_bytes(p, 0xA5, l.size().min(POISON_MAX)); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { bump(l.size() as i64); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-(l.size() as i64));
        std::ptr::write_bytes(p, 0x5A, l.size().min(POISON_MAX));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { bump(n as i64 - l.size() as i64); }
        q
    }
}
/// Bytes currently allocated minus freed by this thread.
pub fn live_bytes() -> i64 { LIVE.with(|c| c.get()) }

// ---------------------------------------------------------------- panics
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_silent_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}
/// Runs `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

// ---------------------------------------------------------------- slots
// One record per worker in a file mapped by child and parent: what the worker is running now.
pub const N_SLOTS: usize = 64;
pub const SLOT_WORDS: usize = 64; // tick, space, case index, hist len, hist...
pub const MAX_HIST: usize = SLOT_WORDS - 4;
#[derive(Clone, Copy)]
pub struct Slot(*mut u64);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
impl Slot {
    fn put(&self, i: usize, v: u64) { unsafe { std::ptr::write_volatile(self.0.add(i), v) } }
    pub fn get(&self, i: usize) -> u64 { unsafe { std::ptr::read_volatile(self.0.add(i)) } }
    pub fn tick(&self) { self.put(0, self.get(0).wrapping_add(1)); }
    pub fn begin(&self, space: usize, idx: u64) {
        self.put(3, 0); self.put(1, space as u64 + 1); self.put(2, idx); self.tick();
    }
    pub fn hist(&self, h: &[u32], op: u32) {
        let n = h.len().min(MAX_HIST - 1);
        for (i, &x) in h[..n].iter().enumerate() { self.put(4 + i, x as u64); }
        self.put(4 + n, op as u64); self.put(3, n as u64 + 1); self.tick();
    }
    pub fn idle(&self) { self.put(1, 0); self.tick(); }
    pub fn read_hist(&self) -> Vec<u32> { (0..self.get(3).min(MAX_HIST as u64) as usize).map(|i| self.get(4 + i) as u32).collect() }
}
pub fn map_slots(path: &str) -> Vec<Slot> {
    use std::os::fd::AsRawFd;
    let len = N_SLOTS * SLOT_WORDS * 8;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots file");
    f.set_len(len as u64).expect("slots len");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED, "mmap of slots failed");
    (0..N_SLOTS).map(|i| Slot(unsafe { (p as *mut u64).add(i * SLOT_WORDS) })).collect()
}

// ---------------------------------------------------------------- stats
#[derive(Default)]
pub struct Stats {
    pub states: u64,       // distinct inputs / canonical states visited
    pub transitions: u64,  // operations of the real code executed and compared with the reference
    pub max_depth: u64,
    pub outcomes: HashSet<u64>, // distinct observed outcomes (hashes, capped)
    pub samples: Vec<String>,
    pub capped: bool,
    pub slot: Option<Slot>,
    /// Set while a single case is replayed: the operation history to follow.
    pub replay: Option<Vec<u32>>,
}
pub const OUTCOME_CAP: usize = 100_000;
impl Stats {
    /// One call of the code under test whose result was compared with the oracle.
    pub fn step(&mut self) { self.transitions += 1; }
    pub fn steps(&mut self, n: usize) { self.transitions += n as u64; }
    pub fn outcome<H: Hash>(&mut self, h: H) {
        if self.outcomes.len() >= OUTCOME_CAP { return; }
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.outcomes.insert(s.finish());
    }
}

pub struct Failure { pub case: String, pub msg: String, pub hist: Vec<u32> }

pub trait Space: Sync + Send {
    fn name(&self) -> &str;
    fn bound(&self) -> &str;
    fn size(&self) -> u64;
    fn run(&self, i: u64, st: &mut Stats) -> Option<Failure>;
    /// A case written out (used for samples and for cases that killed the process).
    fn show(&self, i: u64, hist: &[u32]) -> String;
}
pub type Spaces = Vec<Box<dyn Space>>;

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) }; }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ---------------------------------------------------------------- enumerated spaces
struct Enum<C, D, F> { name: String, bound: String, size: u64, decode: D, check: F, _c: std::marker::PhantomData<fn() -> C> }
impl<C, D, F> Space for Enum<C, D, F>
    where C: Debug, D: Fn(u64) -> Option<C> + Sync + Send, F: Fn(&C, &mut Stats) -> Check + Sync + Send
{
    fn name(&self) -> &str { &self.name }
    fn bound(&self) -> &str { &self.bound }
    fn size(&self) -> u64 { self.size }
    fn show(&self, i: u64, _: &[u32]) -> String { clip(match (self.decode)(i) { Some(c) => format!("{c:?}"), None => "(not a case)".into() }) }
    fn run(&self, i: u64, st: &mut Stats) -> Option<Failure> {
        let c = (self.decode)(i)?;
        st.states += 1;
        let r = match guard(|| (self.check)(&c, st)) { Ok(r) => r, Err(e) => Err(e) };
        r.err().map(|msg| Failure { case: clip(format!("{c:?}")), msg, hist: Vec::new() })
    }
}
/// All cases `decode(0..size)`; `decode` may return None for an index that is not a case.
pub fn space<C: Debug + 'static>(
    name: &str, bound: &str, size: u64,
    decode: impl Fn(u64) -> Option<C> + Sync + Send + 'static,
    check: impl Fn(&C, &mut Stats) -> Check + Sync + Send + 'static,
) -> Box<dyn Space> {
    Box::new(Enum { name: name.into(), bound: bound.into(), size, decode, check, _c: std::marker::PhantomData })
}
/// All cases of a list, in order.
pub fn list<C: Debug + Clone + Sync + Send + 'static>(
    name: &str, bound: &str, cases: Vec<C>,
    check: impl Fn(&C, &mut Stats) -> Check + Sync + Send + 'static,
) -> Box<dyn Space> {
    let n = cases.len() as u64;
    space(name, bound, n, move |i| Some(cases[i as usize].clone()), check)
}

// ---------------------------------------------------------------- explicit-state search
/// A transition system whose states hold the real object together with its reference model.
pub trait Model: Sync + Send {
    type State;
    type Op: Clone + Debug;
    type Key: Hash + Eq;
    fn n_init(&self) -> u64;
    fn init(&self, i: u64) -> Result<Self::State, String>;
    fn ops(&self, s: &Self::State) -> Vec<Self::Op>;
    /// Runs the operation on (a copy of) both, compares every observation; `Ok(None)` when not enabled.
    fn apply(&self, s: &Self::State, op: &Self::Op) -> Result<Option<Self::State>, String>;
    fn key(&self, s: &Self::State) -> Self::Key;
    fn show_init(&self, i: u64) -> String;
    fn depth(&self) -> usize;
    fn max_states(&self) -> usize { 2_000_000 }
}
struct Bfs<M: Model> { name: String, bound: String, m: M }
impl<M: Model> Space for Bfs<M> {
    fn name(&self) -> &str { &self.name }
    fn bound(&self) -> &str { &self.bound }
    fn size(&self) -> u64 { self.m.n_init() }
    fn show(&self, i: u64, hist: &[u32]) -> String {
        let mut out = format!("init {}", self.m.show_init(i));
        let mut s = match guard(|| self.m.init(i)) { Ok(Ok(s)) => s, _ => return clip(out) };
        for (k, &o) in hist.iter().enumerate() {
            let ops = match guard(|| self.m.ops(&s)) { Ok(o) => o, _ => return clip(out) };
            let Some(op) = ops.get(o as usize).cloned() else { return clip(out) };
            out += &format!("; {op:?}");
            if k + 1 == hist.len() { break; }
            s = match guard(|| self.m.apply(&s, &op)) { Ok(Ok(Some(n))) => n, _ => return clip(out) };
        }
        clip(out)
    }
    fn run(&self, i: u64, st: &mut Stats) -> Option<Failure> {
        let m = &self.m;
        let fail = |hist: Vec<u32>, msg: String| Some(Failure { case: self.show(i, &hist), msg, hist });
        let s0 = match guard(|| m.init(i)) { Ok(Ok(s)) => s, Ok(Err(e)) | Err(e) => return fail(vec![], e) };
        st.states += 1;
        if let Some(h) = st.replay.clone() {
            let mut s = s0;
            for (k, &o) in h.iter().enumerate() {
                let ops = match guard(|| m.ops(&s)) { Ok(o) => o, Err(e) => return fail(h[..=k].to_vec(), e) };
                let op = match ops.get(o as usize) { Some(op) => op.clone(), None => return fail(h[..=k].to_vec(), "replay diverged: no such operation".into()) };
                if let Some(sl) = &st.slot { sl.hist(&h[..k], o); }
                match guard(|| m.apply(&s, &op)) {
                    Ok(Ok(Some(n))) => s = n,
                    Ok(Ok(None)) => return None,
                    Ok(Err(e)) | Err(e) => return fail(h[..=k].to_vec(), e),
                }
            }
            return None;
        }
        let mut seen: HashSet<M::Key> = HashSet::new();
        seen.insert(m.key(&s0));
        let mut level: Vec<(M::State, Vec<u32>)> = vec![(s0, vec![])];
        for d in 0..m.depth() {
            let mut next = Vec::new();
            for (s, h) in &level {
                let ops = match guard(|| m.ops(s)) { Ok(o) => o, Err(e) => return fail(h.clone(), e) };
                for (k, op) in ops.iter().enumerate() {
                    if let Some(sl) = &st.slot { sl.hist(h, k as u32); }
                    let r = guard(|| m.apply(s, op));
                    let n = match r {
                        Ok(Ok(Some(n))) => n,
                        Ok(Ok(None)) => continue,
                        Ok(Err(e)) | Err(e) => { let mut hh = h.clone(); hh.push(k as u32); return fail(hh, e); }
                    };
                    st.transitions += 1;
                    if seen.len() >= m.max_states() { st.capped = true; continue; }
                    let key = m.key(&n);
                    st.outcome(&key);
                    if seen.insert(key) {
                        st.states += 1;
                        let mut hh = h.clone(); hh.push(k as u32);
                        next.push((n, hh));
                    }
                }
            }
            if next.is_empty() { break; }
            st.max_depth = st.max_depth.max(d as u64 + 1);
            if st.samples.len() < 3 { if let Some((_, h)) = next.last() { let s = format!("{}: {}", self.name, self.show(i, h)); st.samples.push(s); } }
            level = next;
        }
        None
    }
}
pub fn bfs<M: Model + 'static>(name: &str, bound: &str, m: M) -> Box<dyn Space> { Box::new(Bfs { name: name.into(), bound: bound.into(), m }) }

pub fn clip(s: String) -> String {
    if s.len() <= 1500 { s } else { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1; } format!("{}… ({} bytes)", &s[..k], s.len()) }
}

// ---------------------------------------------------------------- odometers
/// Mixed-radix decoding: digits of `i`, first digit least significant; None when out of range.
pub fn digits(mut i: u64, radix: &[u64]) -> Option<Vec<u64>> {
    let mut v = Vec::with_capacity(radix.len());
    for &r in radix { v.push(i % r); i /= r; }
    if i == 0 { Some(v) } else { None }
}
pub fn pw(b: u64, e: usize) -> u64 { b.pow(e as u32) }
/// `n` digits in base `b` mapped through `alphabet`.
pub fn word<T: Clone>(mut i: u64, n: usize, alphabet: &[T]) -> Vec<T> {
    let b = alphabet.len() as u64;
    (0..n).map(|_| { let d = i % b; i /= b; alphabet[d as usize].clone() }).collect()
}
/// Index into the concatenation of blocks with the given sizes: (block, index in block).
pub fn block(mut i: u64, sizes: &[u64]) -> (usize, u64) {
    for (k, &s) in sizes.iter().enumerate() { if i < s { return (k, i); } i -= s; }
    panic!("block index out of range")
}
/// The `i`-th permutation of 0..n (factorial number system).
pub fn nth_perm(mut i: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    for k in (1..=n).rev() { let d = (i % k as u64) as usize; i /= k as u64; out.push(pool.remove(d)); }
    out
}
pub fn factorial(n: usize) -> u64 { (1..=n as u64).product() }
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    fn go(s: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k { out.push(cur.clone()); return; }
        for i in s..n { cur.push(i); go(i + 1, n, k, cur, out); cur.pop(); }
    }
    go(0, n, k, &mut Vec::new(), &mut out);
    out
}

// ---------------------------------------------------------------- child: run all spaces
pub struct Outcome {
    pub stats: Stats,
    pub per_space: Vec<(String, String, u64, u64, u64)>,
    pub violations: Vec<(usize, u64, Failure)>,
    pub known: Vec<(usize, u64, Failure)>,
    pub wall_capped: bool,
}
pub fn known_key(space: &str, case: &str) -> String { format!("{space}\t{case}") }

pub fn run_all(spaces: &Spaces, slots: Vec<Slot>, n_threads: usize, wall_cap: Duration, known: &HashMap<String, String>) -> Outcome {
    let mut items: Vec<(usize, u64, u64)> = Vec::new();
    for (s, sp) in spaces.iter().enumerate() {
        let n = sp.size();
        let chunk = (n / (n_threads as u64 * 64)).clamp(1, 4096);
        let mut a = 0;
        while a < n { items.push((s, a, (a + chunk).min(n))); a += chunk; }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let start = Instant::now();
    let viol = Mutex::new(Vec::new());
    let known_hits = Mutex::new(Vec::new());
    let total = Mutex::new(Stats::default());
    let per: Vec<[AtomicU64; 4]> = spaces.iter().map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect();
    std::thread::scope(|sc| {
        for w in 0..n_threads {
            let slot = slots[w];
            let (items, next, stop, capped, viol, known_hits, total, per) = (&items, &next, &stop, &capped, &viol, &known_hits, &total, &per);
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                let mut acc = Stats::default();
                'outer: loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= items.len() || stop.load(Ordering::Relaxed) { break; }
                    if start.elapsed() > wall_cap { capped.store(true, Ordering::Relaxed); break; }
                    let (s, a, b) = items[k];
                    let sp = &spaces[s];
                    let mut st = Stats { slot: Some(slot), outcomes: std::mem::take(&mut acc.outcomes), ..Stats::default() };
                    let began = Instant::now();
                    for i in a..b {
                        slot.begin(s, i);
                        if let Some(f) = sp.run(i, &mut st) {
                            if known.contains_key(&known_key(sp.name(), &f.case)) {
                                known_hits.lock().unwrap().push((s, i, f));
                            } else {
                                viol.lock().unwrap().push((s, i, f));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    slot.idle();
                    per[s][3].fetch_add(began.elapsed().as_millis() as u64, Ordering::Relaxed);
                    per[s][0].fetch_add(st.states, Ordering::Relaxed);
                    per[s][1].fetch_add(st.transitions, Ordering::Relaxed);
                    per[s][2].fetch_max(st.max_depth, Ordering::Relaxed);
                    acc.states += st.states; acc.transitions += st.transitions;
                    acc.max_depth = acc.max_depth.max(st.max_depth);
                    acc.capped |= st.capped;
                    acc.outcomes = st.outcomes;
                    if acc.samples.len() < 4 { acc.samples.extend(st.samples); }
                    if stop.load(Ordering::Relaxed) { break 'outer; }
                }
                let mut t = total.lock().unwrap();
                t.states += acc.states; t.transitions += acc.transitions; t.max_depth = t.max_depth.max(acc.max_depth); t.capped |= acc.capped;
                t.outcomes.extend(acc.outcomes);
                t.samples.extend(acc.samples);
            }).expect("spawn worker");
        }
    });
    let mut stats = total.into_inner().unwrap();
    for (_, sp) in spaces.iter().enumerate() {
        let n = sp.size();
        if n == 0 { continue; }
        for k in [n / 3, n - 1] { let s = sp.show(k, &[]); if s != "(not a case)" { stats.samples.push(format!("{} #{k}: {s}", sp.name())); } }
    }
    let mut violations = viol.into_inner().unwrap();
    violations.sort_by_key(|(s, i, f)| (*s, *i, f.hist.len()));
    let mut known = known_hits.into_inner().unwrap();
    known.sort_by_key(|(s, i, _)| (*s, *i));
    if let Some(f) = std::env::var_os("MC_TIMES") { // for choosing bounds: time spent in each space, over all threads
        let lines: Vec<String> = spaces.iter().zip(&per).map(|(sp, c)| format!("{:>10} ms  {} ({} cases)\n", c[3].load(Ordering::Relaxed), sp.name(), sp.size())).collect();
        let _ = std::fs::write(f, lines.concat());
    }
    let per_space = spaces.iter().zip(per).map(|(sp, c)| (sp.name().to_string(), sp.bound().to_string(),
        c[0].load(Ordering::Relaxed), c[1].load(Ordering::Relaxed), c[2].load(Ordering::Relaxed))).collect();
    Outcome { stats, per_space, violations, known, wall_capped: capped.load(Ordering::Relaxed) }
}

// ---------------------------------------------------------------- small JSON writer
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn write_file(path: &str, s: &str) {
    let tmp = format!("{path}.tmp{}", std::process::id());
    let mut f = std::fs::File::create(&tmp).expect("create file");
    f.write_all(s.as_bytes()).expect("write file");
    drop(f);
    std::fs::rename(&tmp, path).expect("rename file");
}
