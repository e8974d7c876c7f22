// shared by the harness programs: random numbers, the run loop with its watchdog, and the report
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
    for _ in 0..4 {
      r.next();
    }
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      0
    } else {
      (self.next() % n as u64) as usize
    }
  }
  pub fn range(&mut self, a: i64, b: i64) -> i64 {
    a + (self.next() % ((b - a + 1) as u64)) as i64
  }
  pub fn chance(&mut self, p: usize) -> bool {
    self.below(100) < p
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
}

pub fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

static DEADLINE_MS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Report {
  pub prop: String,
  pub seed: u64,
  pub thorough: bool,
  pub out: String,
  pub trace: Option<String>,
  pub budget: Duration,
  pub start: Instant,
  pub evaluations: u64,
  pub distinct: HashSet<u64>,
  pub samples: Vec<String>,
  pub violations: Vec<(String, String)>,
  pub known: Vec<(String, String)>,
  pub groups: Vec<(String, u64)>,
}

thread_local! { pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

/// runs f; a panic becomes an Err with its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

fn now_ms() -> u64 {
  std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
fn rss_mb() -> u64 {
  std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).map(|p| p * 4096 / 1_000_000).unwrap_or(0)
}

impl Report {
  /// args: property, output file, seed, tier, budget seconds [, trace file]
  pub fn from_args() -> Report {
    let a: Vec<String> = std::env::args().collect();
    let r = Report {
      prop: a[1].clone(),
      out: a[2].clone(),
      seed: a[3].parse().unwrap(),
      thorough: a[4] == "thorough",
      budget: Duration::from_millis((a[5].parse::<f64>().unwrap() * 1000.0) as u64),
      trace: a.get(6).cloned(),
      start: Instant::now(),
      evaluations: 0,
      distinct: HashSet::new(),
      samples: vec![],
      violations: vec![],
      known: vec![],
      groups: vec![],
    };
    std::panic::set_hook(Box::new(|i| {
      let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
      let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
    let (out, prop) = (r.out.clone(), r.prop.clone());
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(100));
      let d = DEADLINE_MS.load(Ordering::Relaxed);
      let late = d != 0 && now_ms() > d;
      let big = rss_mb() > 6000;
      if late || big {
        let c = CURRENT.try_lock().map(|c| c.clone()).unwrap_or_default();
        let why = if late { "does not return" } else { "uses unbounded memory" };
        let t = format!(
          "{{\"property\":{},\"evaluations\":1,\"distinct\":1,\"samples\":[{}],\"groups\":{{}},\"known\":[],\"violations\":[{{\"case\":{},\"what\":{}}}]}}",
          js(&prop), js(&c), js(&c), js(why)
        );
        let _ = std::fs::write(&out, t);
        std::process::exit(0);
      }
    });
    r
  }
  pub fn more(&self) -> bool {
    self.start.elapsed() < self.budget && self.violations.len() < 3
  }
  /// announces the case that runs next (for the watchdog and, after a crash, the trace file)
  pub fn begin(&mut self, what: impl FnOnce() -> String, full: bool) {
    if full || self.trace.is_some() {
      let w = what();
      if let Some(t) = &self.trace {
        let mut f = std::fs::File::create(t).unwrap();
        f.write_all(w.as_bytes()).unwrap();
      }
      *CURRENT.lock().unwrap() = w;
    }
    DEADLINE_MS.store(now_ms() + 20_000, Ordering::Relaxed);
  }
  pub fn current(&self, w: String) {
    if let Some(t) = &self.trace {
      let _ = std::fs::write(t, &w);
    }
    *CURRENT.lock().unwrap() = w;
  }
  pub fn idle(&self) {
    DEADLINE_MS.store(0, Ordering::Relaxed);
  }
  /// one evaluated case; `nontrivial` says whether it counts for distinct_nontrivial
  pub fn count(&mut self, key: &str, nontrivial: bool) {
    self.evaluations += 1;
    if nontrivial && self.distinct.len() < 3_000_000 {
      let mut h: u64 = 0xcbf29ce484222325;
      for b in key.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
      }
      if self.distinct.insert(h) && self.samples.len() < 6 && self.distinct.len() % 97 == 1 {
        self.samples.push(key.to_string());
      }
    }
  }
  pub fn violate(&mut self, case: String, what: String) {
    if self.violations.len() < 5 {
      self.violations.push((case, what));
    }
  }
  pub fn known(&mut self, id: &str, case: String) {
    if !self.known.iter().any(|k| k.0 == id) {
      self.known.push((id.to_string(), case));
    }
  }
  pub fn group(&mut self, name: &str) {
    match self.groups.iter_mut().find(|g| g.0 == name) {
      Some(g) => g.1 += 1,
      None => self.groups.push((name.to_string(), 1)),
    }
  }
  /// evaluate one case given as text: f says what is wrong, if anything
  pub fn case(&mut self, key: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
    self.begin(|| key.clone(), true);
    let r = guard(f);
    self.idle();
    self.count(&key, nontrivial);
    match r {
      Ok(Ok(())) => (),
      Ok(Err(w)) => self.violate(key, w),
      Err(p) => self.violate(key, p),
    }
  }
  pub fn finish(self) {
    let l = |v: &Vec<(String, String)>, a: &str, b: &str| v.iter().map(|(c, w)| format!("{{\"{}\":{},\"{}\":{}}}", a, js(c), b, js(w))).collect::<Vec<_>>().join(",");
    let t = format!(
      "{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"groups\":{{{}}},\"known\":[{}],\"violations\":[{}]}}",
      js(&self.prop),
      self.evaluations,
      self.distinct.len(),
      self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
      self.groups.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","),
      l(&self.known, "id", "case"),
      l(&self.violations, "case", "what")
    );
    std::fs::write(&self.out, t).unwrap();
  }
}
