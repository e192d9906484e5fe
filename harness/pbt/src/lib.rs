//! A small property-based testing engine (choice-sequence style, as in Hypothesis).
//!
//! Every random decision of a generator is one recorded *choice* `0..=max`. A case is a pure function of its
//! choice sequence, so replaying and shrinking work on the sequence and need no help from the generators.
//! Case `i` of a law is driven by a PRNG seeded with (VERIF_SEED, property, law, i): a run is a pure function of the
//! code under test and VERIF_SEED, whatever the number of threads.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::Instant,
};

pub mod cov;
mod sup;

/// The outcome of one case: Ok, or what was violated.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: {:?} != {:?}", format!($($m)*), a, b));
        }
    }};
}

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
}

/// The source of choices of one case, and the collector of what the case did.
pub struct Src {
    mode: Mode,
    pos: usize,
    rec: Vec<u64>,
    spans: Vec<(usize, usize)>,
    span_stack: Vec<usize>,
    nontrivial: bool,
    labels: Vec<&'static str>,
    notes: Vec<String>,
    tracing: bool,
    sample: Option<String>,
    want_sample: bool,
    /// where each choice is written before it is used: what is left of a case that ends the process
    tee: Option<std::fs::File>,
}

impl Src {
    fn new(mode: Mode, tracing: bool, want_sample: bool) -> Self {
        Src {
            mode,
            pos: 0,
            rec: vec![],
            spans: vec![],
            span_stack: vec![],
            nontrivial: false,
            labels: vec![],
            notes: vec![],
            tracing,
            sample: None,
            want_sample,
            tee: None,
        }
    }

    fn choice(&mut self, max: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen(rng) => gen(rng).min(max),
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                v.min(max)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.choice(n - 1, |r| r.upto(n - 1))
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// true with probability num/den (shrinks to false)
    pub fn ratio(&mut self, num: u64, den: u64) -> bool {
        self.choice(1, |r| (r.upto(den - 1) < num) as u64) == 1
    }

    pub fn bool(&mut self) -> bool {
        self.ratio(1, 2)
    }

    /// lo..=hi, biased to the ends, to small offsets and to powers of two
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        let w = hi - lo;
        lo + self.choice(w, |r| {
            match r.upto(9) {
                0 => r.upto(w.min(3)),
                1 => w - r.upto(w.min(3)),
                2 | 3 => {
                    // around a power of two (of the offset or of the value)
                    let b = r.upto(63);
                    let p = 1u64 << b;
                    let base = if r.upto(1) == 0 { p } else { p.wrapping_sub(lo) };
                    let x = base.wrapping_add(r.upto(2)).wrapping_sub(1);
                    if x <= w {
                        x
                    } else {
                        r.upto(w)
                    }
                }
                4 | 5 => {
                    // log-uniform
                    let bits = 64 - w.leading_zeros() as u64;
                    let b = r.upto(bits);
                    if b == 0 {
                        0
                    } else {
                        (r.next() >> (64 - b)).min(w)
                    }
                }
                _ => r.upto(w),
            }
        })
    }

    /// lo..=hi uniform
    pub fn uniform(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.choice(hi - lo, |r| r.upto(hi - lo))
    }

    pub fn u8(&mut self) -> u8 {
        self.int(0, 255) as u8
    }
    pub fn u32(&mut self) -> u32 {
        self.int(0, u32::MAX as u64) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.int(0, u64::MAX)
    }
    pub fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    pub fn i32(&mut self) -> i32 {
        self.u32() as i32
    }

    /// 0..=max, log-uniform-ish
    pub fn u128(&mut self, max: u128) -> u128 {
        if max <= u64::MAX as u128 {
            return self.int(0, max as u64) as u128;
        }
        let bits = 128 - max.leading_zeros() as u64;
        let b = self.choice(bits, |r| if r.upto(3) == 0 { bits } else { r.upto(bits) });
        if b == 0 {
            return 0;
        }
        let hi = if b > 64 {
            let w = u64::MAX >> (128 - b);
            self.uniform(0, w)
        } else {
            0
        };
        let lo = if b >= 64 {
            self.int(0, u64::MAX)
        } else {
            self.uniform(0, u64::MAX >> (64 - b))
        };
        (((hi as u128) << 64) | lo as u128).min(max)
    }

    pub fn u128_in(&mut self, lo: u128, hi: u128) -> u128 {
        lo + self.u128(hi - lo)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    /// index by weight; weight 0 entries are never chosen
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let n = ws.len() as u64;
        let total: u64 = ws.iter().sum();
        let i = self.choice(n - 1, |r| {
            let mut x = r.upto(total - 1);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u64;
                }
                x -= w;
            }
            0
        }) as usize;
        if ws[i] == 0 {
            ws.iter().position(|w| *w > 0).unwrap()
        } else {
            i
        }
    }

    /// Marks a part of the choice sequence the shrinker may delete as a whole.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.span_stack.push(self.rec.len());
        let r = f(self);
        let start = self.span_stack.pop().unwrap();
        self.spans.push((start, self.rec.len()));
        r
    }

    /// A list of min..=max elements.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = vec![];
        self.repeat(min, max, |s| out.push(f(s)));
        out
    }

    /// Runs `f` min..=max times.
    pub fn repeat(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self)) {
        let _ = self.steps(min, max, |s| {
            f(s);
            Ok(())
        });
    }

    /// Runs `f` min..=max times, stops at the first error: the operations of a history.
    pub fn steps(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> R) -> R {
        let target = match &mut self.mode {
            Mode::Gen(r) => {
                let w = (max - min) as u64;
                min as u64
                    + match r.upto(4) {
                        0 => r.upto(w.min(3)),
                        1 => w - r.upto(w / 4),
                        _ => r.upto(w),
                    }
            }
            _ => 0,
        };
        let mut n = 0;
        while n < max {
            let start = self.rec.len();
            if n >= min {
                let go = self.choice(1, |_| ((n as u64) < target) as u64);
                if go == 0 {
                    break;
                }
            }
            let r = f(self);
            self.spans.push((start, self.rec.len()));
            r?;
            n += 1;
        }
        Ok(())
    }

    pub fn bytes(&mut self, min: usize, max: usize) -> Vec<u8> {
        let len = self.int(min as u64, max as u64) as usize;
        self.raw(len)
    }

    /// `len` bytes; drawn eight to a choice
    pub fn raw(&mut self, len: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(len + 8);
        while out.len() < len {
            let v = self.choice(u64::MAX, |r| r.next());
            out.extend_from_slice(&v.to_le_bytes());
        }
        out.truncate(len);
        out
    }

    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let v = self.raw(N);
        let mut a = [0; N];
        a.copy_from_slice(&v);
        a
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn is_nontrivial(&self) -> bool {
        self.nontrivial
    }
    /// Count this class of case (once per case).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let t = f();
            self.notes.push(t);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut t = f();
            if t.len() > 600 {
                let mut cut = 600;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push_str("...");
            }
            self.sample = Some(t);
        }
    }
}

pub type LawFn = fn(&mut Src) -> R;

pub struct Law {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: LawFn,
    /// lift by coverage-guided mutation in the thorough tier
    pub fuzz: bool,
}

#[macro_export]
macro_rules! law {
    ($name:expr, $quick:expr, $thorough:expr, $run:expr) => {
        $crate::Law { name: $name, quick: $quick, thorough: $thorough, run: $run, fuzz: true }
    };
}

pub struct Finding {
    /// what fails, as in known_findings.json
    pub text: &'static str,
    /// true when the defect is still there
    pub probe: fn() -> bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub laws: &'static [Law],
    pub findings: &'static [Finding],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
        } else {
            old(info);
        }
    }));
}

/// Runs `f`; a panic becomes Err with its message and place.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())
    })
}

fn run_case(run: LawFn, src: &mut Src) -> R {
    match guarded(|| run(src)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

fn seed_of(seed: u64, prop: &str, law: &str, i: u64) -> u64 {
    let mut s = seed ^ hash64(format!("{prop}/{law}").as_bytes()).rotate_left(17);
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xD1B54A32D192ED03);
    splitmix(&mut t)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    choices: u64,
}

struct LawResult {
    stats: Stats,
    failure: Option<(u64, Vec<u64>, Vec<(usize, usize)>, String)>,
    edges: usize,
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h: u64 = c.len() as u64;
    for x in c {
        h ^= *x;
        h = splitmix(&mut h);
    }
    h
}

fn absorb(st: &mut Stats, src: &mut Src) {
    st.evals += 1;
    st.choices += src.rec.len() as u64;
    if src.nontrivial {
        st.nontrivial.insert(hash_choices(&src.rec));
    }
    for l in &src.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    if let Some(s) = src.sample.take() {
        if st.samples.len() < 4 {
            st.samples.push(s);
        }
    }
}

fn run_law(prop: &Prop, law: &Law, seed: u64, cases: u64, threads: usize, deadline: Instant) -> LawResult {
    let law_no = prop.laws.iter().position(|l| l.name == law.name).unwrap_or(0);
    let next = AtomicU64::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let failure: Mutex<Option<(u64, Vec<u64>, Vec<(usize, usize)>, String)>> = Mutex::new(None);
    let busy = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(sc, || {
                let slot = busy.fetch_add(1, Ordering::SeqCst);
                let mut st = Stats::default();
                loop {
                    let start = next.fetch_add(16, Ordering::SeqCst);
                    if start >= cases || start > first_bad.load(Ordering::SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    for i in start..(start + 16).min(cases) {
                        if i > first_bad.load(Ordering::SeqCst) {
                            break;
                        }
                        let rng = Rng::new(seed_of(seed, prop.id, law.name, i));
                        let want = i % (cases / 8).max(1) == 0 || i < 24;
                        let mut src = Src::new(Mode::Gen(rng), false, want);
                        sup::progress(slot, sup::GEN, law_no, i, st.evals);
                        let r = run_case(law.run, &mut src);
                        // samples come from non-trivial cases
                        if !src.nontrivial {
                            src.sample = None;
                        }
                        absorb(&mut st, &mut src);
                        if let Err(m) = r {
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, ..)| i < *j) {
                                *f = Some((i, src.rec, src.spans, m));
                                first_bad.store(i, Ordering::SeqCst);
                            }
                            break;
                        }
                    }
                }
                sup::progress(slot, sup::IDLE, law_no, 0, st.evals);
                let mut t = total.lock().unwrap();
                t.evals += st.evals;
                t.choices += st.choices;
                t.nontrivial.extend(st.nontrivial);
                for (k, v) in st.labels {
                    *t.labels.entry(k).or_default() += v;
                }
                t.samples.extend(st.samples);
            })
            .unwrap();
        }
    });
    let mut stats = total.into_inner().unwrap();
    stats.samples.sort();
    stats.samples.dedup();
    stats.samples.truncate(3);
    LawResult {
        stats,
        failure: failure.into_inner().unwrap(),
        edges: 0,
    }
}

struct Shrinker {
    run: LawFn,
    law_no: usize,
    case: u64,
    phase: u64,
    best: Vec<u64>,
    spans: Vec<(usize, usize)>,
    msg: String,
    tries: u64,
    deadline: Instant,
}

impl Shrinker {
    fn exhausted(&self) -> bool {
        self.tries > 20_000 || Instant::now() > self.deadline
    }
    fn attempt(&mut self, cand: Vec<u64>) -> bool {
        if self.exhausted() || cand == self.best {
            return false;
        }
        self.tries += 1;
        sup::progress(0, self.phase, self.law_no, self.case, self.tries);
        let mut src = Src::new(Mode::Replay(cand), false, false);
        if let Err(m) = run_case(self.run, &mut src) {
            let rec = src.rec;
            let simpler = (rec.len(), &rec) < (self.best.len(), &self.best);
            if simpler {
                self.best = rec;
                self.spans = src.spans;
                self.msg = m;
                return true;
            }
        }
        false
    }
    fn go(&mut self) {
        loop {
            let before = (self.best.len(), self.best.clone());
            // delete spans, largest first
            let mut progress = true;
            while progress && !self.exhausted() {
                progress = false;
                let mut spans = self.spans.clone();
                spans.sort_by_key(|(a, b)| (usize::MAX - (b - a), *a));
                spans.dedup();
                for (a, b) in spans.into_iter().rev().collect::<Vec<_>>().into_iter().rev() {
                    if b <= a || b > self.best.len() {
                        continue;
                    }
                    let mut c = self.best.clone();
                    c.drain(a..b);
                    if self.attempt(c) {
                        progress = true;
                        break;
                    }
                }
            }
            // delete runs of choices
            for size in [16usize, 8, 4, 2, 1] {
                let mut i = self.best.len();
                while i >= size && !self.exhausted() {
                    i -= 1;
                    if i + size <= self.best.len() {
                        let mut c = self.best.clone();
                        c.drain(i..i + size);
                        self.attempt(c);
                    }
                    if self.best.len() > 3000 {
                        i = i.saturating_sub(size * 8);
                    }
                }
            }
            // lower single choices
            let mut i = 0;
            while i < self.best.len() && !self.exhausted() {
                let v = self.best[i];
                if v > 0 {
                    let mut c = self.best.clone();
                    c[i] = 0;
                    if !self.attempt(c) {
                        // binary search for the least failing value
                        let (mut lo, mut hi) = (0u64, v);
                        while hi - lo > 1 && !self.exhausted() {
                            let mid = lo + (hi - lo) / 2;
                            if i >= self.best.len() {
                                break;
                            }
                            let mut c = self.best.clone();
                            c[i] = mid;
                            if self.attempt(c) {
                                hi = mid;
                            } else {
                                lo = mid;
                            }
                        }
                    }
                }
                i += 1;
            }
            if (self.best.len(), self.best.clone()) == before || self.exhausted() {
                break;
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trace_of(run: LawFn, choices: &[u64]) -> (R, Vec<String>) {
    let mut src = Src::new(Mode::Replay(choices.to_vec()), true, false);
    let r = run_case(run, &mut src);
    (r, src.notes)
}

fn write_replay(root: &str, prop: &Prop, law: &Law, choices: &[u64], msg: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{:016x}.replay", prop.id, law.name, hash_choices(choices));
    let (_, notes) = trace_of(law.run, choices);
    let mut t = String::new();
    let _ = writeln!(t, "property {}", prop.id);
    let _ = writeln!(t, "law {}", law.name);
    let _ = writeln!(
        t,
        "choices {}",
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    );
    for l in msg.lines() {
        let _ = writeln!(t, "# violated: {l}");
    }
    for n in notes {
        for l in n.lines() {
            let _ = writeln!(t, "#   {l}");
        }
    }
    std::fs::write(&path, t).expect("cannot write the replay file");
    path
}

fn parse_replay(text: &str) -> Option<(String, String, Vec<u64>)> {
    let mut p = None;
    let mut l = None;
    let mut c = None;
    for line in text.lines() {
        if let Some(x) = line.strip_prefix("property ") {
            p = Some(x.trim().to_string());
        } else if let Some(x) = line.strip_prefix("law ") {
            l = Some(x.trim().to_string());
        } else if let Some(x) = line.strip_prefix("choices ") {
            c = Some(
                x.split(',')
                    .filter(|s| !s.trim().is_empty())
                    .map(|s| s.trim().parse().ok())
                    .collect::<Option<Vec<u64>>>()?,
            );
        }
    }
    Some((p?, l?, c.unwrap_or_default()))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// The main function of every harness binary:
///   check ID            (VERIF_SEED, VERIF_TIER, VERIF_ROOT)
///   replay FILE
///   list
pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => args[2..].iter().map(|id| sup::check(props, id)).max().unwrap_or(3),
        Some("check-inner") => {
            let mut code = 0;
            for id in &args[2..] {
                match props.iter().find(|p| p.id == *id) {
                    Some(p) => code = code.max(check_prop(p)),
                    None => {
                        eprintln!("no such property here: {id}");
                        code = 3;
                    }
                }
            }
            code
        }
        Some("case") => sup::case(props, &args[2..]),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let (p, l, c) = parse_replay(&text).expect("malformed replay file");
            let prop = props.iter().find(|x| x.id == p).expect("property");
            let law = prop.laws.iter().find(|x| x.name == l).expect("law");
            sup::replay(prop, law, &c, &args[2])
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID.. | replay FILE | list");
            3
        }
    };
    std::process::exit(code)
}

fn check_prop(prop: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let scale = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|v| v.parse::<f64>().ok())
        .unwrap_or(1.0);
    let threads = env_u64("VERIF_THREADS", 8) as usize;
    let budget = std::time::Duration::from_secs(env_u64("VERIF_BUDGET", if thorough { 7200 } else { 480 }));
    let mut violations = 0;
    let mut code = 0;
    let mut per_law = vec![];
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut replayed = 0u64;

    for f in prop.findings {
        match guarded(f.probe) {
            Ok(true) => println!("KNOWN-FINDING: property={} {}", prop.id, f.text),
            _ => println!("note: a listed finding no longer shows: property={} {}", prop.id, f.text),
        }
    }

    // saved regressions first: plain replays, no search
    if let Ok(rd) = std::fs::read_dir(format!("{root}/regressions")) {
        let mut files: Vec<_> = rd
            .filter_map(|e| e.ok())
            .map(|e| e.path())
            .filter(|p| {
                p.file_name()
                    .and_then(|n| n.to_str())
                    .map_or(false, |n| n.starts_with(&format!("{}-", prop.id)))
            })
            .collect();
        files.sort();
        for f in files {
            let Some((_, l, c)) = std::fs::read_to_string(&f).ok().and_then(|t| parse_replay(&t)) else {
                continue;
            };
            let Some(law) = prop.laws.iter().find(|x| x.name == l) else {
                continue;
            };
            replayed += 1;
            let mut src = Src::new(Mode::Replay(c), false, false);
            if let Err(m) = run_case(law.run, &mut src) {
                violations += 1;
                code = 1;
                println!("{}/{}: {}", prop.id, law.name, m);
                let path = write_replay(&root, prop, law, &src.rec, &m);
                println!("VIOLATION property={} replay={}", prop.id, path);
            }
        }
    }

    if code == 0 {
        for (law_no, law) in prop.laws.iter().enumerate() {
            let only = std::env::var("VERIF_LAW").ok();
            if only.as_deref().map_or(false, |o| o != law.name) {
                continue;
            }
            let base = if thorough { law.thorough } else { law.quick };
            let cases = ((base as f64 * scale) as u64).max(1);
            let tl = Instant::now();
            let deadline = t0 + budget.mul_f64((law_no + 1) as f64 / prop.laws.len() as f64);
            let mut res = run_law(prop, law, seed, cases, threads, deadline);
            let mut fuzzed = false;
            if res.failure.is_none() && thorough && law.fuzz && cov::available() {
                let (n, edges, fail) = fuzz_law(prop, law, seed, (cases / 4).max(1000), deadline);
                res.stats.evals += n;
                res.edges = edges;
                res.failure = fail;
                fuzzed = true;
            }
            evals += res.stats.evals;
            nontriv += res.stats.nontrivial.len() as u64;
            for s in &res.stats.samples {
                samples.push(format!("[{}] {}", law.name, s));
            }
            let labels = res
                .stats
                .labels
                .iter()
                .map(|(k, v)| format!("{}: {}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(", ");
            per_law.push(format!(
                "{{\"law\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"mean_choices\": {:.1}, \"edges\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
                json_str(law.name),
                res.stats.evals,
                res.stats.nontrivial.len(),
                res.stats.choices as f64 / res.stats.evals.max(1) as f64,
                res.edges,
                tl.elapsed().as_secs_f64(),
                labels
            ));
            eprintln!(
                "{}/{}: {} cases, {} non-trivial, {:.1}s {:?}",
                prop.id,
                law.name,
                res.stats.evals,
                res.stats.nontrivial.len(),
                tl.elapsed().as_secs_f64(),
                res.stats.labels
            );
            if let Some((i, choices, spans, msg)) = res.failure {
                violations += 1;
                code = 1;
                let mut sh = Shrinker {
                    run: law.run,
                    law_no,
                    case: i,
                    phase: if fuzzed { sup::SHRINK_FUZZ } else { sup::SHRINK },
                    best: choices,
                    spans,
                    msg,
                    tries: 0,
                    deadline: Instant::now() + std::time::Duration::from_secs(60),
                };
                // a failure must reproduce from its choices
                let (again, _) = trace_of(law.run, &sh.best);
                if again.is_err() {
                    std::thread::scope(|sc| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, || sh.go())
                            .unwrap();
                    });
                }
                println!(
                    "{}/{}: case {i}, {} shrinking steps: {}",
                    prop.id, law.name, sh.tries, sh.msg
                );
                let path = write_replay(&root, prop, law, &sh.best, &sh.msg);
                println!("VIOLATION property={} replay={}", prop.id, path);
                break;
            }
        }
    }

    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"regressions_replayed\": {},\n  \"laws\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        nontriv,
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        replayed,
        per_law.join(",\n   "),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", prop.id), o) {
        eprintln!("cannot write the evidence file: {e}");
        return code.max(3);
    }
    code
}

/// Coverage-guided search over choice sequences (thorough tier, instrumented build): keeps every sequence that reaches
/// a new edge count class, mutates kept sequences.
fn fuzz_law(
    prop: &Prop,
    law: &Law,
    seed: u64,
    runs: u64,
    deadline: Instant,
) -> (u64, usize, Option<(u64, Vec<u64>, Vec<(usize, usize)>, String)>) {
    let mut rng = Rng::new(seed_of(seed, prop.id, law.name, u64::MAX / 2));
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut map = cov::Map::new();
    let mut out = None;
    let mut n = 0;
    let law_no = prop.laws.iter().position(|l| l.name == law.name).unwrap_or(0);
    for i in 0..runs {
        if Instant::now() > deadline {
            break;
        }
        let fresh = corpus.len() < 8 || rng.upto(9) == 0;
        let mode = if fresh {
            let seed = rng.next();
            sup::fuzz_input(0, &[seed]);
            Mode::Gen(Rng::new(seed))
        } else {
            let mut c = corpus[rng.upto(corpus.len() as u64 - 1) as usize].clone();
            for _ in 0..=rng.upto(4) {
                if c.is_empty() {
                    break;
                }
                let p = rng.upto(c.len() as u64 - 1) as usize;
                match rng.upto(6) {
                    0 => c[p] = rng.next() >> rng.upto(63),
                    1 => c[p] = c[p].wrapping_add(rng.upto(4)).wrapping_sub(2),
                    2 => c[p] = c[p] ^ (1 << rng.upto(63)),
                    3 => {
                        let l = (rng.upto(8) as usize + 1).min(c.len() - p);
                        c.drain(p..p + l);
                    }
                    4 => {
                        let l = (rng.upto(16) as usize + 1).min(c.len() - p);
                        let part: Vec<u64> = c[p..p + l].to_vec();
                        let q = rng.upto(c.len() as u64) as usize;
                        c.splice(q..q, part);
                    }
                    _ => {
                        let other = &corpus[rng.upto(corpus.len() as u64 - 1) as usize];
                        let q = rng.upto(other.len() as u64) as usize;
                        c.truncate(p);
                        c.extend_from_slice(&other[q..]);
                    }
                }
            }
            sup::fuzz_input(1, &c);
            Mode::Replay(c)
        };
        sup::progress(0, sup::FUZZ, law_no, i, n);
        let mut src = Src::new(mode, false, false);
        map.reset();
        let r = run_case(law.run, &mut src);
        n += 1;
        let new = map.absorb();
        if let Err(m) = r {
            out = Some((i, src.rec, src.spans, m));
            break;
        }
        if new && src.rec.len() < 20_000 {
            corpus.push(src.rec);
        }
    }
    (n, map.edges(), out)
}
