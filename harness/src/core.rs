//! Case runner, statistics, verdicts, evidence.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// Err(message) is a violation of the property under check.
pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15)), mix(seed ^ 0xd1b54a32d192ed03) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0 ^ self.1.rotate_left(17))
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: u32, b: u32) -> u32 {
        a + self.below((b - a) as u64 + 1) as u32
    }
    pub fn irange(&mut self, a: i32, b: i32) -> i32 {
        a + self.below((b - a) as u64 + 1) as i32
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as u64) < num as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
pub fn hash_str(s: &str) -> u64 {
    fnv(s.as_bytes())
}
pub fn hash_f32(v: &[f32]) -> u64 {
    let mut h = 0x1234u64 ^ v.len() as u64;
    for x in v {
        h = mix(h ^ (x.to_bits() as u64).wrapping_mul(0x9e3779b97f4a7c15));
    }
    h
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub keys: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub distinct: BTreeMap<String, HashSet<u64>>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
}
#[derive(Clone)]
pub struct Violation {
    pub family: String,
    pub idx: u64,
    pub message: String,
    pub desc: String,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.keys.extend(o.keys);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.distinct {
            self.distinct.entry(k).or_default().extend(v);
        }
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            e.extend(v);
            e.sort_by_key(|s| s.len());
            e.truncate(2);
        }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub family: &'a str,
    pub idx: u64,
    pub thorough: bool,
    pub seed: u64,
    calm: bool,
    stats: &'a mut Stats,
    key: u64,
    nontrivial: bool,
    desc: String,
}
impl<'a> Case<'a> {
    /// Count monitored events.
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.stats.counts.get_mut(name) {
            *c += n;
        } else {
            self.stats.counts.insert(name.to_string(), n);
        }
    }
    /// Remember a distinct state / configuration that a monitor saw.
    pub fn see(&mut self, name: &str, h: u64) {
        if let Some(c) = self.stats.distinct.get_mut(name) {
            c.insert(h);
        } else {
            self.stats.distinct.insert(name.to_string(), HashSet::from([h]));
        }
    }
    /// Describe the case: the text identifies its input.
    pub fn describe(&mut self, d: String) {
        self.key = mix(self.key ^ hash_str(&d));
        self.desc = d;
    }
    pub fn key(&mut self, h: u64) {
        self.key = mix(self.key ^ h);
    }
    /// Length of a history: one in 120 is long enough for a counter of one byte to wrap, and half of
    /// those seldom switch modes or clear.
    pub fn steps(&mut self, a: u32, b: u32) -> u32 {
        if self.rng.chance(1, 120) {
            self.calm = self.rng.chance(1, 2);
            *self.stats.counts.entry("long_histories".into()).or_insert(0) += 1;
            self.rng.range(280, 620)
        } else {
            self.rng.range(a, b)
        }
    }
    /// One of n operations, of which the first `resets` are rare in a calm history.
    pub fn op(&mut self, n: u64, resets: u64) -> u64 {
        let k = self.rng.below(n);
        if self.calm && k < resets && !self.rng.chance(1, 250) {
            resets + self.rng.below(n - resets)
        } else {
            k
        }
    }
    /// The case exercised the property non-vacuously.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // the standard library's checks of unsafe code: the process aborts right after this
        if msg.contains("unsafe precondition(s) violated") {
            eprintln!("{msg} at {loc}");
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// Whether a panic still reaches the hook installed above.
pub fn hook_is_ours() -> bool {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let _ = catch_unwind(|| panic!("probe of the hook"));
    LAST_PANIC.with(|p| p.borrow().as_ref().is_some_and(|p| p.0 == "probe of the hook"))
}
/// Runs f; a panic raised by the code under test is reported as Err((message, location)).
/// A panic raised by the harness itself is re-raised.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if l.starts_with("src/") {
                std::panic::resume_unwind(e);
            }
            Err(format!("panicked: '{}' at {}", m, l))
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub thorough: bool,
    pub factor: u64,
    pub scale: f64,
    /// Start no more cases after this moment (Miri only).
    pub deadline: Option<std::time::Instant>,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    /// Judge only what the case does to the process around it (C30).
    pub surround: bool,
    pub trace: Option<String>,
    pub stats: Stats,
    pub insufficient: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub scratch: std::path::PathBuf,
}

impl Ctx {
    /// n * factor cases (times --scale).
    pub fn family(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        let n = n * self.factor;
        self.family_n(name, ((n as f64 * self.scale).ceil() as u64).max(1), f)
    }
    /// Exactly n cases.
    pub fn family_n(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        if let Some((fam, _)) = &self.only {
            if fam != name {
                return;
            }
        }
        // Miri is some thousand times slower: no large objects, and a sample of long enumerations
        let cap = ((15000.0 * self.scale).ceil() as u64).max(2);
        let spread = if cfg!(miri) && n > cap && !name.starts_with("hostile") { n / cap } else { 1 };
        if cfg!(miri) && name.starts_with("large") {
            return;
        }
        let range: (u64, u64) = match &self.only {
            Some((_, i)) => (*i, *i + 1),
            None => (0, n / spread),
        };
        let t0 = std::time::Instant::now();
        let next = AtomicU64::new(range.0);
        let stop = AtomicBool::new(false);
        let total = Mutex::new(Stats::default());
        let workers = if self.only.is_some() || self.trace.is_some() { 1 } else { self.threads };
        let me = &*self;
        // a case that does not end ends the process, which names it
        let current: Vec<Mutex<Option<(u64, std::time::Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let limit = std::time::Duration::from_secs(if self.thorough { 300 } else { 100 });
        let over = AtomicBool::new(false);
        std::thread::scope(|s| {
            let watch = s.spawn(|| {
                while !cfg!(miri) && !over.load(Ordering::Relaxed) {
                    for c in &current {
                        let c = *c.lock().unwrap();
                        if let Some((idx, t)) = c {
                            if t.elapsed() > limit {
                                use std::io::Write;
                                let _ = writeln!(std::io::stderr(), "HANG {name}:{idx}");
                                std::process::exit(77);
                            }
                        }
                    }
                    std::thread::park_timeout(std::time::Duration::from_secs(1));
                }
            });
            let mut hs = vec![];
            for w in 0..workers {
                let (next, stop, total, f, current) = (&next, &stop, &total, &f, &current);
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .name(format!("w{w}"))
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        while !stop.load(Ordering::Relaxed) {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= range.1 {
                                break;
                            }
                            if me.deadline.is_some_and(|d| std::time::Instant::now() > d) {
                                st.counts.insert("stopped_by_time_budget".into(), 1);
                                break;
                            }
                            let idx = if spread > 1 { idx * spread + me.seed % spread } else { idx };
                            if let Some(t) = &me.trace {
                                std::fs::write(t, format!("{}:{}", name, idx)).unwrap();
                            }
                            if !cfg!(miri) {
                                *current[w].lock().unwrap() = Some((idx, std::time::Instant::now()));
                            }
                            me.run_one(name, idx, f, &mut st);
                            if st.violations.len() >= 3 || st.harness_errors.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        *current[w].lock().unwrap() = None;
                        total.lock().unwrap().merge(st);
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                if let Err(e) = h.join() {
                    over.store(true, Ordering::Relaxed);
                    watch.thread().unpark();
                    std::panic::resume_unwind(e);
                }
            }
            over.store(true, Ordering::Relaxed);
            watch.thread().unpark();
        });
        if std::env::var_os("VH_TIMES").is_some() {
            use std::io::Write;
            let _ = writeln!(std::io::stderr(), "{name}: {} cases {:.2} s", range.1 - range.0, t0.elapsed().as_secs_f64());
        }
        self.stats.merge(total.into_inner().unwrap());
    }
    fn run_one(&self, name: &str, idx: u64, f: &(impl Fn(&mut Case) -> R + Sync), st: &mut Stats) {
        let mut case = Case {
            rng: Rng::new(mix(self.seed) ^ hash_str(name) ^ mix(idx.wrapping_mul(0x9e37))),
            family: name,
            idx,
            thorough: self.thorough,
            seed: self.seed,
            calm: false,
            stats: st,
            key: hash_str(name),
            nontrivial: false,
            desc: String::new(),
        };
        let before = self.surround.then(crate::surround::begin);
        let mut r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        if let Some(before) = before {
            // the case's own verdict is another check's business
            let fine = matches!(r, Ok(Ok(())));
            case.nontrivial |= !fine;
            r = Ok(crate::surround::end(before));
            case.count("surroundings_compared", 1);
        }
        let (key, nontrivial, desc) = (case.key, case.nontrivial, std::mem::take(&mut case.desc));
        st.evaluations += 1;
        let ne = st.counts.entry(format!("cases:{name}")).or_default();
        *ne += 1;
        match r {
            Ok(Ok(())) => {
                if nontrivial {
                    st.keys.insert(key);
                    let s = st.samples.entry(name.to_string()).or_default();
                    if s.len() < 2 {
                        s.push(desc);
                    }
                }
            }
            Ok(Err(m)) => st.violations.push(Violation { family: name.into(), idx, message: m, desc }),
            Err(_) => {
                let (m, l) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
                if l.starts_with("src/") {
                    st.harness_errors.push(format!("{name}:{idx}: {m} at {l} [{desc}]"));
                } else {
                    st.violations.push(Violation {
                        family: name.into(),
                        idx,
                        message: format!("a call panicked: '{m}' at {l}"),
                        desc,
                    })
                }
            }
        }
    }
    /// The run is inconclusive unless the monitors saw at least this much.
    pub fn require(&mut self, counter: &str, min: u64) {
        if self.only.is_some() || self.scale < 1.0 {
            return;
        }
        let c = self.stats.counts.get(counter).copied().unwrap_or(0)
            + self.stats.distinct.get(counter).map(|s| s.len() as u64).unwrap_or(0);
        if c < min {
            self.insufficient.push(format!("{counter}: saw {c}, need {min}"));
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

impl Ctx {
    pub fn result_json(&self, wall: f64) -> String {
        let s = &self.stats;
        let mut o = String::from("{");
        o += &format!("\"property\":{},\"tier\":{},\"seed\":{},", js(&self.prop), js(&self.tier), self.seed);
        o += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", s.evaluations, s.keys.len());
        o += &format!("\"rule\":{},", js(&self.rule));
        let mut sm = vec![];
        for (f, v) in &s.samples {
            for d in v {
                sm.push(js(&format!("{f}: {}", cut(d, 400))));
            }
        }
        o += &format!("\"samples\":[{}],", sm.join(","));
        let c: Vec<String> = s.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        o += &format!("\"observed_events\":{{{}}},", c.join(","));
        let c: Vec<String> = s.distinct.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect();
        o += &format!("\"distinct_observed\":{{{}}},", c.join(","));
        let a: Vec<String> = self.assumptions.iter().map(|x| js(x)).collect();
        o += &format!("\"assumptions\":[{}],", a.join(","));
        let v: Vec<String> = s
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"family\":{},\"idx\":{},\"message\":{},\"case\":{}}}",
                    js(&v.family),
                    v.idx,
                    js(&cut(&v.message, 2000)),
                    js(&cut(&v.desc, 4000))
                )
            })
            .collect();
        o += &format!("\"violations\":[{}],", v.join(","));
        let h: Vec<String> = s.harness_errors.iter().map(|x| js(&cut(x, 1000))).collect();
        o += &format!("\"harness_errors\":[{}],", h.join(","));
        let h: Vec<String> = self.insufficient.iter().map(|x| js(x)).collect();
        o += &format!("\"insufficient\":[{}],", h.join(","));
        o += &format!("\"wall_s\":{:.3}}}\n", wall);
        o
    }
}
