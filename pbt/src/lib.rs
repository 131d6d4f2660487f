//! A small, dependency-free property-based testing engine.
//!
//! Every random decision a property makes is drawn through [`G`], which
//! records it as a choice sequence.  A failing case is therefore a list of
//! numbers: it can be replayed exactly, and shrunk by deleting, zeroing and
//! lowering choices (the "internal shrinking" scheme Hypothesis uses).
//!
//! The engine is std-only because it has to build under two toolchains (the
//! library's stable one, and the 2023 nightly the `eval` crate needs).
//!
//! A run is a pure function of the code under test and the seed: case `i` of
//! property `p` always draws from the generator seeded with (seed, p, i),
//! whichever worker thread executes it.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as FmtWrite;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choices

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

enum Src {
    Rand(u64),
    Replay(Vec<u64>, usize),
}

/// Source of all generated data, plus the observations made about the case.
pub struct G {
    src: Src,
    rec: Vec<u64>,
    trace: Option<Vec<String>>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    known: Vec<&'static str>,
    stream: bool,
}

impl G {
    fn random(seed: u64) -> G {
        G { src: Src::Rand(seed), rec: Vec::new(), trace: None, labels: Vec::new(), nontrivial: false, known: Vec::new(), stream: false }
    }
    fn replay(data: Vec<u64>, trace: bool) -> G {
        G {
            src: Src::Replay(data, 0),
            rec: Vec::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            labels: Vec::new(),
            nontrivial: false,
            known: Vec::new(),
            stream: false,
        }
    }
    /// uniform in 0..n; shrinks towards 0
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: below(0)");
        let v = match self.src {
            Src::Rand(ref mut s) => {
                let r = splitmix(s);
                (((r as u128) * (n as u128)) >> 64) as u64
            }
            Src::Replay(ref d, ref mut p) => {
                let v = d.get(*p).cloned().unwrap_or(0);
                *p += 1;
                if v >= n { n - 1 } else { v }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    pub fn upto(&mut self, n: usize) -> usize { self.below(n as u64 + 1) as usize }
    /// inclusive range; shrinks towards lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo) as u64 + 1) as usize }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// index chosen with the given weights; shrinks towards index 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x { return i; }
            r -= *x;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len() as u64) as usize; &xs[i] }
    /// a length that is usually small but sometimes large
    pub fn len(&mut self, small: usize, large: usize) -> usize {
        match self.weighted(&[350, 49, 1]) { 0 => self.upto(small), 1 => self.upto(large), _ => { self.label("very long"); self.upto(8 * large) } }
    }
    /// record a step of the case, rendered only when replaying with a trace
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.stream { println!("{}", f()); }
        else if let Some(ref mut t) = self.trace { t.push(f()); }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) { self.labels.push(l); }
    }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    /// A deviation that matches the known finding `sig` exactly.  True (and
    /// counted) if that finding is listed; if not, it is to be reported.
    pub fn known(&mut self, sig: &'static str) -> bool {
        let listed = std::env::var("PBT_KNOWN").map(|v| v.split(',').any(|s| s == sig)).unwrap_or(false);
        if listed { self.known.push(sig); }
        listed
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

pub type Res = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut G) -> Res,
}

// ---------------------------------------------------------------- running

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

fn run_case(p: &Prop, g: &mut G) -> Res {
    let r = panic::catch_unwind(AssertUnwindSafe(|| (p.f)(g)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.contains("harness:") { eprintln!("HARNESS-ERROR {}", m); std::process::exit(3); }
            Err(m)
        }
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut s = seed ^ 0x5DEE_CE66_D1CE_BEEF;
    for b in id.bytes() { s = s.wrapping_mul(0x100_0000_01B3) ^ (b as u64); }
    let mut t = s.wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95));
    splitmix(&mut t)
}

fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// stack per worker: memoised recursion nests engine frames deeply
const STACK: usize = 256 << 20;

fn on_big_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

fn fails(p: Prop, data: &[u64], budget: &Arc<AtomicU64>) -> Option<(Vec<u64>, String)> {
    budget.fetch_sub(1, Ordering::SeqCst);
    let d = data.to_vec();
    let mut g = G::replay(d, false);
    CANDIDATE.store(now_ms(), Ordering::SeqCst);
    let r = run_case(&p, &mut g);
    CANDIDATE.store(0, Ordering::SeqCst);
    match r {
        Ok(()) => None,
        Err(e) => Some((g.rec, e)),
    }
}

/// shrink a failing choice sequence; bounded by a number of executions and a wall-clock guard
fn shrink(p: Prop, data: Vec<u64>, msg: String) -> (Vec<u64>, String, u64) {
    let budget = Arc::new(AtomicU64::new(6000));
    let t0 = Instant::now();
    let left = |b: &Arc<AtomicU64>| b.load(Ordering::SeqCst) > 0 && b.load(Ordering::SeqCst) < 1 << 40 && t0.elapsed() < Duration::from_secs(60);
    let (mut cur, mut msg) = (data, msg);
    let simpler = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    let mut tries = 0;
    loop {
        let before = cur.clone();
        // delete blocks
        for &k in &[256usize, 128, 64, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + k <= cur.len() && left(&budget) {
                let mut c = cur.clone();
                c.drain(i..i + k);
                tries += 1;
                match fails(p, &c, &budget) {
                    Some((r, m)) if simpler(&r, &cur) => { cur = r; msg = m; }
                    _ => i += if k > 8 { k / 2 } else { 1 },
                }
            }
        }
        // delete one element while lowering an earlier counter
        let mut i = 0;
        while i < cur.len() && left(&budget) {
            if cur[i] > 0 && cur[i] < 200 {
                for &k in &[8usize, 5, 4, 3, 2, 1] {
                    if i + 1 + k > cur.len() { continue; }
                    let mut j = i + 1;
                    while j + k <= cur.len() && j < i + 60 && left(&budget) {
                        let mut c = cur.clone();
                        c[i] -= 1;
                        c.drain(j..j + k);
                        tries += 1;
                        match fails(p, &c, &budget) {
                            Some((r, m)) if simpler(&r, &cur) => { cur = r; msg = m; if i >= cur.len() || cur[i] == 0 { break; } }
                            _ => j += k,
                        }
                    }
                    if i >= cur.len() || cur[i] == 0 { break; }
                }
            }
            i += 1;
        }
        // zero, then lower single values
        let mut i = 0;
        while i < cur.len() && left(&budget) {
            if cur[i] > 0 {
                let mut lo = 0u64;
                let mut hi = cur[i];
                let mut first = true;
                while lo < hi && left(&budget) {
                    let mid = if first { 0 } else { lo + (hi - lo) / 2 };
                    first = false;
                    let mut c = cur.clone();
                    c[i] = mid;
                    tries += 1;
                    match fails(p, &c, &budget) {
                        Some((r, m)) if simpler(&r, &cur) => { cur = r; msg = m; hi = mid; if i >= cur.len() { break; } }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
        if cur == before || !left(&budget) { break; }
    }
    (cur, msg, tries)
}

fn trace_of(p: Prop, data: &[u64]) -> (Vec<String>, Res) {
    let mut g = G::replay(data.to_vec(), true);
    let r = run_case(&p, &mut g);
    (g.trace.take().unwrap_or_default(), r)
}

// ---------------------------------------------------------------- json out

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- worker

/// A case (or a shrinking candidate) that runs this long has stopped making
/// progress; ordinary cases take milliseconds.
const HANG_MS: u64 = 60_000;
const SHRINK_HANG_MS: u64 = 10_000;
/// when the current shrinking candidate started (ms since the epoch), 0 if none
static CANDIDATE: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}

struct Shared {
    next: AtomicU64,
    stop: AtomicU64, // lowest failing index so far
    done: AtomicU64,
    abort: AtomicBool,
}

struct ThreadOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    nontrivial_n: u64,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    draws: u64,
    samples: Vec<(u64, Vec<u64>)>,
    fail: Option<(u64, Vec<u64>, String)>,
}

fn worker(p: Prop, cases: u64, seed: u64, out: &str, threads: usize) {
    install_hook();
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicU64::new(u64::max_value()),
        done: AtomicU64::new(0),
        abort: AtomicBool::new(false),
    });
    let starts: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    {
        let starts = starts.clone();
        thread::spawn(move || {
            // `ticks` counts only time this process really ran, so a suspended machine raises no alarm
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); starts.len()];
            let mut cand = (0u64, 0u64);
            loop {
                thread::sleep(Duration::from_millis(250));
                for (t, s) in starts.iter().enumerate() {
                    let at = s.0.load(Ordering::SeqCst);
                    if at != 0 && at == seen[t].0 { seen[t].1 += 250; } else { seen[t] = (at, 0); }
                    if seen[t].1 >= HANG_MS {
                        eprintln!("HANG case {}", s.1.load(Ordering::SeqCst));
                        std::process::exit(4);
                    }
                }
                let at = CANDIDATE.load(Ordering::SeqCst);
                if at != 0 && at == cand.0 { cand.1 += 250; } else { cand = (at, 0); }
                if cand.1 >= SHRINK_HANG_MS { eprintln!("HANG while shrinking"); std::process::exit(5); }
            }
        });
    }
    let mut hs = Vec::new();
    for t in 0..threads {
        let sh = sh.clone();
        let starts = starts.clone();
        let path = format!("{}.inflight.{}", out, t);
        hs.push(thread::Builder::new().stack_size(STACK).spawn(move || {
            use std::os::unix::fs::FileExt;
            let file = fs::File::create(path).unwrap();
            let mut o = ThreadOut {
                evals: 0, nontrivial: HashSet::new(), nontrivial_n: 0, labels: BTreeMap::new(),
                known: BTreeMap::new(), draws: 0, samples: Vec::new(), fail: None,
            };
            loop {
                let i = sh.next.fetch_add(1, Ordering::SeqCst);
                if i >= cases || i > sh.stop.load(Ordering::SeqCst) || sh.abort.load(Ordering::SeqCst) { break; }
                let _ = file.write_at(&i.to_le_bytes(), 0);
                let mut g = G::random(case_seed(seed, p.id, i));
                starts[t].1.store(i, Ordering::SeqCst);
                starts[t].0.store(i + 1, Ordering::SeqCst);
                let r = run_case(&p, &mut g);
                starts[t].0.store(0, Ordering::SeqCst);
                sh.done.fetch_add(1, Ordering::SeqCst);
                o.evals += 1;
                o.draws += g.rec.len() as u64;
                for l in &g.known { *o.known.entry(l).or_insert(0) += 1; }
                for l in &g.labels { *o.labels.entry(l).or_insert(0) += 1; }
                if g.nontrivial {
                    o.nontrivial_n += 1;
                    o.nontrivial.insert(hash_of(&g.rec));
                    if i < 400 && g.rec.len() < 400 { o.samples.push((i, g.rec.clone())); }
                }
                if let Err(e) = r {
                    sh.stop.fetch_min(i, Ordering::SeqCst);
                    o.fail = Some((i, g.rec, e));
                    break;
                }
            }
            let _ = file.write_at(&u64::max_value().to_le_bytes(), 0);
            o
        }).unwrap());
    }
    let mut evals = 0;
    let mut draws = 0;
    let mut known: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut nontrivial_n = 0;
    let mut set: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut fail: Option<(u64, Vec<u64>, String)> = None;
    for h in hs {
        let o = h.join().unwrap();
        evals += o.evals;
        draws += o.draws;
        for (k, v) in o.known { *known.entry(k).or_insert(0) += v; }
        nontrivial_n += o.nontrivial_n;
        set.extend(o.nontrivial);
        for (k, v) in o.labels { *labels.entry(k).or_insert(0) += v; }
        samples.extend(o.samples);
        if let Some(f) = o.fail {
            if fail.as_ref().map(|g| f.0 < g.0).unwrap_or(true) { fail = Some(f); }
        }
    }
    if let Some((i, d, e)) = fail.as_ref() {
        // kept in case shrinking brings the process down
        let _ = fs::write(format!("{}.unshrunk", out), format!(
            "{{\"case\":{},\"message\":{},\"choices\":{},\"evaluations\":{}}}", i, esc(e), arr(d.iter().map(|x| x.to_string())), evals));
    }
    samples.sort();
    // prefer a spread of sizes among the first cases
    let n = samples.len();
    let mut chosen = Vec::new();
    if n > 0 {
        samples.sort_by_key(|s| (s.1.len(), s.0));
        for q in &[n / 8, n / 3, n / 2, 3 * n / 4] { chosen.push(samples[*q].clone()); }
        chosen.dedup();
    }
    let (text, fail_txt) = on_big_stack(move || {
        let mut ss = Vec::new();
        if fail.is_none() {
            for (i, d) in chosen {
                let (t, _) = trace_of(p, &d);
                let mut joined = t.join("; ");
                if joined.len() > 1500 { let mut k = 1500; while !joined.is_char_boundary(k) { k -= 1; } joined.truncate(k); joined.push_str(" ..."); }
                ss.push(esc(&format!("case {}: {}", i, joined)));
            }
        }
        let ft = fail.map(|(i, d, e)| {
            let orig = d.len();
            let (s, m, tries) = shrink(p, d.clone(), e.clone());
            let (tr, r) = trace_of(p, &s);
            let confirmed = r.is_err();
            format!(
                "{{\"case\":{},\"message\":{},\"original_message\":{},\"original_len\":{},\"choices\":{},\"shrink_tries\":{},\"confirmed\":{},\"trace\":{}}}",
                i, esc(&m), esc(&e), orig, arr(s.iter().map(|x| x.to_string())), tries, confirmed, arr(tr.iter().map(|x| esc(x)))
            )
        });
        (ss, ft)
    });
    let js = format!(
        "{{\"property\":{},\"cases\":{},\"evaluations\":{},\"draws\":{},\"known\":{{{}}},\"nontrivial\":{},\"distinct_nontrivial\":{},\"rule\":{},\"assumptions\":{},\"labels\":{{{}}},\"samples\":{},\"fail\":{},\"wall_s\":{:.3}}}\n",
        esc(p.id), cases, evals, draws,
        known.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","), nontrivial_n, set.len(), esc(p.rule),
        arr(p.assumptions.iter().map(|a| esc(a))),
        labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        arr(text), fail_txt.unwrap_or_else(|| "null".into()), t0.elapsed().as_secs_f64()
    );
    let mut f = fs::File::create(out).unwrap();
    f.write_all(js.as_bytes()).unwrap();
}

/// Entry point of a harness binary.
///
/// * `worker ID CASES SEED OUT THREADS` run a campaign, write its result as json
/// * `case ID SEED INDEX [notes]`  run one random case (used to isolate process crashes), printing its steps as they happen
/// * `choices ID FILE [quiet]`  replay a choice list (whitespace separated numbers)
/// * `list`
pub fn main(props: &[Prop]) {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> Prop { *props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) }) };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for p in props { println!("{} {} {}", p.id, p.quick, p.thorough); },
        Some("worker") => {
            let p = find(&a[2]);
            let cases = match a[3].as_str() { "quick" => p.quick, "thorough" => p.thorough, n => n.parse().unwrap() };
            worker(p, cases, a[4].parse().unwrap(), &a[5], a[6].parse().unwrap());
        }
        Some("case") => {
            // used to find which in-flight case brought the process down
            install_hook();
            let p = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            let notes = a.get(5).is_some();
            let r = on_big_stack(move || { let mut g = G::random(case_seed(seed, p.id, i)); g.stream = notes; let r = run_case(&p, &mut g); (r, g.rec) });
            println!("CHOICES {}", r.1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            match r.0 { Ok(()) => println!("OK"), Err(e) => { println!("FAIL {}", e); std::process::exit(1) } }
        }
        Some("choices") => {
            install_hook();
            let p = find(&a[2]);
            let txt = fs::read_to_string(&a[3]).unwrap();
            let d: Vec<u64> = txt.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let quiet = a.get(4).is_some();
            let (t, r) = on_big_stack(move || trace_of(p, &d));
            if !quiet { for l in t { println!("  {}", l); } }
            match r { Ok(()) => println!("OK"), Err(e) => { println!("FAIL {}", e); std::process::exit(1) } }
        }
        _ => { eprintln!("usage: list | worker | case | choices"); std::process::exit(2) }
    }
}
