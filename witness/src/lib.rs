//! Shared parts of the witness searches: a seeded generator, counting, and a watchdog.
pub mod grammar;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub rng: Rng,
    pub evaluations: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    rule: &'static str,
    start: Instant,
    limit: Duration,
    only: Option<String>,
    trace: Option<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.limit
    }
    /// Pick by tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() { thorough } else { quick }
    }
    fn finish(&self, violation: Option<(&str, &str)>) -> ! {
        let v = match violation {
            None => "null".to_string(),
            Some((case, what)) => format!("{{\"case\":{},\"what\":{}}}", esc(case), esc(what)),
        };
        let samples: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        println!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violation\":{v}}}",
            self.evaluations, self.seen.len(), esc(self.rule), samples.join(",")
        );
        std::process::exit(0)
    }
    /// One case: `case` describes the input completely; `f` returns what is wrong, if anything.
    pub fn case(&mut self, case: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != case {
                return;
            }
        }
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            if self.seen.insert(h.finish()) && self.samples.len() < 4 && self.seen.len() % 97 == 1 {
                self.samples.push(case.to_string());
            }
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(case);
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, case);
        }
        TICK.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(what)) => self.finish(Some((case, &what))),
            Err(_) => {
                let what = format!("panicked: {}", PANIC.with(|p| p.borrow().clone()));
                self.finish(Some((case, &what)))
            }
        }
    }
}

/// `bin PROP TIER SEED SECONDS [--only CASE] [--trace FILE]`
pub fn run(rule: &'static str, f: impl FnOnce(&mut Run) + Send + 'static) {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let only = opt("--only").map(|p| std::fs::read_to_string(&p).expect("replay file"));
    let secs: u64 = a[4].parse().unwrap();
    let mut r = Run {
        prop: a[1].clone(),
        tier: a[2].clone(),
        rng: Rng::new(a[3].parse().unwrap()),
        evaluations: 0,
        seen: HashSet::new(),
        samples: vec![],
        rule,
        start: Instant::now(),
        limit: Duration::from_secs(secs),
        only,
        trace: opt("--trace"),
    };
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    std::thread::spawn(|| {
        let (mut last, mut stuck) = (0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::SeqCst);
            stuck = if t == last && t != 0 { stuck + 1 } else { 0 };
            last = t;
            if stuck >= 12 {
                let c = CURRENT.lock().unwrap().clone();
                println!("{{\"evaluations\":{t},\"distinct_nontrivial\":{t},\"rule\":\"\",\"samples\":[],\"violation\":{{\"case\":{},\"what\":\"does not terminate (no answer for 6 s)\"}}}}", esc(&c));
                std::process::exit(0);
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        f(&mut r);
        r.finish(None)
    });
    let _ = h.unwrap().join();
    eprintln!("{}", PANIC.with(|p| p.borrow().clone()));
    std::process::exit(3);
}
