//! Shared runtime for the monitors: deterministic workload generation, panic capture, crash isolation,
//! three-valued verdicts, evidence and replay files.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

/// xoshiro256** seeded by splitmix64: the only source of randomness in any check.
#[derive(Clone)]
pub struct Rng {
  s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in bytes {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100_0000_01b3);
  }
  h
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut x = seed;
    Rng {
      s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
    }
  }
  pub fn for_case(seed: u64, prop: &str, suite: &str, index: u64) -> Self {
    let h = fnv(format!("{}/{}/{}/{}", seed, prop, suite, index).as_bytes());
    Rng::new(h)
  }
  pub fn next(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0];
    self.s[3] ^= self.s[1];
    self.s[1] ^= self.s[2];
    self.s[0] ^= self.s[3];
    self.s[2] ^= t;
    self.s[3] = self.s[3].rotate_left(45);
    r
  }
  /// uniform in 0..n (n > 0)
  pub fn below(&mut self, n: usize) -> usize {
    assert!(n > 0);
    (self.next() % n as u64) as usize
  }
  /// uniform in lo..=hi
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    assert!(lo <= hi);
    lo + (self.next() % ((hi - lo) as u64 + 1)) as i64
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn weighted(&mut self, ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut r = self.below(total);
    for (i, w) in ws.iter().enumerate() {
      if r < *w {
        return i;
      }
      r -= *w;
    }
    unreachable!()
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      xs.swap(i, self.below(i + 1));
    }
  }
}

// ---------------------------------------------------------------- panic capture

thread_local! {
  static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
  static FUEL: Cell<u64> = Cell::new(u64::MAX);
}

pub const FUEL_MSG: &str = "__fuel_exhausted__";

/// Logical step clock: instrumented callbacks call `tick`; when the step budget is spent the run is
/// ended by a panic that `guard` reports as `Stop::Fuel`. Deterministic, unlike a wall-clock limit.
pub fn set_fuel(n: u64) {
  FUEL.with(|f| f.set(n));
}
pub fn fuel_left() -> u64 {
  FUEL.with(|f| f.get())
}
pub fn tick() {
  FUEL.with(|f| {
    let v = f.get();
    if v == 0 {
      panic!("{}", FUEL_MSG);
    }
    f.set(v - 1);
  });
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
  Panic { msg: String, loc: String },
  Fuel,
}

impl Stop {
  pub fn text(&self) -> String {
    match self {
      Stop::Panic { msg, loc } => format!("panic at {}: {}", loc, msg),
      Stop::Fuel => "step budget exhausted (no termination within the bound)".into(),
    }
  }
}

/// Runs code under test; a panic becomes an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => {
      let (msg, loc) = LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "?".into()));
      if msg == FUEL_MSG {
        set_fuel(u64::MAX);
        Err(Stop::Fuel)
      } else {
        Err(Stop::Panic { msg, loc })
      }
    }
  }
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".to_string()
    };
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    LAST_PANIC.with(|l| *l.borrow_mut() = Some((msg, loc)));
  }));
}

// ---------------------------------------------------------------- context

#[derive(Clone)]
pub struct Violation {
  pub suite: String,
  pub index: u64,
  pub sig: String,
  pub detail: String,
}

#[derive(Default)]
pub struct Ctx {
  pub evaluations: u64,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub violations: Vec<Violation>,
  pub discarded: u64,
  suite: String,
  index: u64,
  pub tier_thorough: bool,
}

impl Ctx {
  /// One observed execution that the oracle judged. `key` identifies the case, `nontrivial` says if it counts.
  pub fn judged(&mut self, key: &str, nontrivial: bool) {
    self.evaluations += 1;
    if nontrivial {
      self.distinct.insert(fnv(key.as_bytes()));
    }
  }
  pub fn hit(&mut self, name: &str) {
    self.add(name, 1);
  }
  pub fn add(&mut self, name: &str, n: u64) {
    if let Some(c) = self.counters.get_mut(name) {
      *c += n;
    } else {
      self.counters.insert(name.to_string(), n);
    }
  }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.samples.len() < 3 {
      let s = f();
      self.samples.push(trunc(&s, 600));
    }
  }
  pub fn want_sample(&self) -> bool {
    self.samples.len() < 3
  }
  pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
    if self.violations.len() < 2000 {
      self.violations.push(Violation {
        suite: self.suite.clone(),
        index: self.index,
        sig: sig.into(),
        detail: shorten(detail.into()),
      });
    }
  }
  fn merge(&mut self, o: Ctx) {
    self.evaluations += o.evaluations;
    self.discarded += o.discarded;
    self.distinct.extend(o.distinct);
    for (k, v) in o.counters {
      *self.counters.entry(k).or_insert(0) += v;
    }
    for s in o.samples {
      if self.samples.len() < 6 {
        self.samples.push(s);
      }
    }
    self.violations.extend(o.violations);
  }
}

pub fn trunc(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    let t: String = s.chars().take(n).collect();
    format!("{}…", t)
  }
}

// ---------------------------------------------------------------- properties

pub type CaseFn = fn(&mut Ctx, &mut Rng, u64);

pub struct Suite {
  pub name: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub run: CaseFn,
}

pub struct Property {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  /// Counters that must be non-zero for a "held" verdict: an unobserved property is inconclusive.
  pub required: &'static [&'static str],
  pub suites: Vec<Suite>,
}

struct Known {
  property: String,
  sig: String,
  what: String,
}

fn load_known(root: &str) -> Vec<Known> {
  let mut out = vec![];
  let text = fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
  for line in text.lines() {
    let line = line.trim();
    if let Some(rest) = line.strip_prefix("finding: property=") {
      let mut it = rest.splitn(2, ' ');
      let p = it.next().unwrap_or("").to_string();
      let rest = it.next().unwrap_or("");
      if let Some(r) = rest.strip_prefix("sig=[[") {
        if let Some(e) = r.find("]] ") {
          out.push(Known {
            property: p,
            sig: r[..e].to_string(),
            what: r[e + 3..].to_string(),
          });
        }
      }
    }
  }
  out
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn root() -> String {
  std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn write_evidence(p: &Property, seed: u64, thorough: bool, ctx: &Ctx, new_violations: usize, known: usize, wall: f64) {
  let r = root();
  let _ = fs::create_dir_all(format!("{}/evidence", r));
  let mut s = String::new();
  s.push_str(&format!(
    "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
    json_str(p.id),
    json_str(if thorough { "thorough" } else { "quick" }),
    seed
  ));
  s.push_str(&format!(
    "\"evaluations\":{},\"distinct_nontrivial\":{},\"discarded\":{},\"rule\":{},\"samples\":[{}],",
    ctx.evaluations,
    ctx.distinct.len(),
    ctx.discarded,
    json_str(p.rule),
    ctx.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
  ));
  s.push_str("\"observed\":{");
  s.push_str(
    &ctx
      .counters
      .iter()
      .map(|(k, v)| format!("{}:{}", json_str(k), v))
      .collect::<Vec<_>>()
      .join(","),
  );
  s.push_str(&format!("}},\"known_findings_seen\":{}}},", known));
  s.push_str(&format!(
    "\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
    p.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","),
    wall,
    new_violations
  ));
  let path = format!("{}/evidence/{}.json", r, p.id);
  let tmp = format!("{}.tmp", path);
  fs::write(&tmp, s).expect("evidence");
  fs::rename(&tmp, &path).expect("evidence");
}

fn write_replay(p: &Property, seed: u64, n: usize, v: &Violation) -> String {
  let r = root();
  let _ = fs::create_dir_all(format!("{}/replays", r));
  let path = format!("{}/replays/{}-{}.txt", r, p.id, n);
  let _ = fs::write(
    &path,
    format!(
      "property: {}\nsuite: {}\nindex: {}\nseed: {}\nsignature: {}\nreplay: VERIF_SEED={} ./run.sh {} --replay {}:{}\n\n{}\n",
      p.id, v.suite, v.index, seed, v.sig, seed, p.id, v.suite, v.index, v.detail
    ),
  );
  path
}

fn opt_val(args: &[String], name: &str) -> Option<String> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

const SLOTS: usize = 64;

fn run_case(ctx: &mut Ctx, p: &Property, suite: &Suite, seed: u64, index: u64) {
  ctx.suite = suite.name.to_string();
  ctx.index = index;
  let mut rng = Rng::for_case(seed, p.id, suite.name, index);
  set_fuel(u64::MAX);
  // A panic that escapes `guard` comes from code under test that the workload calls unguarded, or from the workload
  // finding a result it relies on (e.g. a part that must be there) missing: neither happens where the property holds.
  if let Err(s) = guard(|| (suite.run)(ctx, &mut rng, index)) {
    ctx.violation(
      format!("unexpected-stop:{}:{}", suite.name, index),
      format!("case {}:{} stopped: {}", suite.name, index, s.text()),
    );
  }
}

fn child(p: &'static Property, seed: u64, thorough: bool, slots: Option<String>, cap: Duration) -> i32 {
  let start = Instant::now();
  let threads: usize = std::env::var("VH_THREADS")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(8)
    .min(SLOTS);
  let slot_file = slots.map(|s| Arc::new(fs::OpenOptions::new().write(true).open(s).expect("slots")));
  let total = Arc::new(Mutex::new(Ctx::default()));
  let stop = Arc::new(AtomicBool::new(false));
  let known = load_known(&root());
  let known_sigs: Arc<HashSet<String>> =
    Arc::new(known.iter().filter(|k| k.property == p.id).map(|k| k.sig.clone()).collect());
  let counters: Arc<Vec<AtomicU64>> = Arc::new(p.suites.iter().map(|_| AtomicU64::new(0)).collect());
  let mut hs = vec![];
  for t in 0..threads {
    let total = total.clone();
    let stop = stop.clone();
    let counters = counters.clone();
    let slot_file = slot_file.clone();
    let known_sigs = known_sigs.clone();
    hs.push(
      std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
          let mut ctx = Ctx::default();
          ctx.tier_thorough = thorough;
          // All suites advance together, each in proportion to its size, so that a run cut short by the time cap has
          // seen some of each.
          let sizes: Vec<u64> = p.suites.iter().map(|s| if thorough { s.thorough } else { s.quick }).collect();
          let mut slowest = vec![(Duration::ZERO, 0u64); p.suites.len()];
          loop {
            if stop.load(Ordering::Relaxed) {
              break;
            }
            if start.elapsed() > cap {
              ctx.hit("stopped_by_time_cap");
              break;
            }
            let mut next: Option<(f64, usize)> = None;
            for (si, n) in sizes.iter().enumerate() {
              let c = counters[si].load(Ordering::Relaxed);
              let done = c as f64 / *n as f64;
              if c < *n && next.map_or(true, |x| done < x.0) {
                next = Some((done, si));
              }
            }
            let Some((_, si)) = next else { break };
            let suite = &p.suites[si];
            let i = counters[si].fetch_add(1, Ordering::Relaxed);
            if i >= sizes[si] {
              continue;
            }
            if let Some(f) = &slot_file {
              let mut b = [0u8; 16];
              b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
              b[8..].copy_from_slice(&i.to_le_bytes());
              let _ = f.write_all_at(&b, (t * 16) as u64);
            }
            let t0 = Instant::now();
            run_case(&mut ctx, p, suite, seed, i);
            slowest[si] = slowest[si].max((t0.elapsed(), i));
            if ctx.violations.iter().filter(|v| !known_sigs.contains(&v.sig)).count() >= 5 {
              stop.store(true, Ordering::Relaxed);
              break;
            }
          }
          if std::env::var("VH_SLOW").is_ok() {
            for (s, (d, i)) in p.suites.iter().zip(slowest) {
              eprintln!("slowest {}:{} {:?}", s.name, i, d);
            }
          }
          if let Some(f) = &slot_file {
            let _ = f.write_all_at(&[0u8; 16], (t * 16) as u64);
          }
          total.lock().unwrap().merge(ctx);
        })
        .expect("thread"),
    );
  }
  for h in hs {
    if h.join().is_err() {
      eprintln!("HARNESS-ERROR worker thread failed");
      return 2;
    }
  }
  let ctx = std::mem::take(&mut *total.lock().unwrap());
  finish(p, seed, thorough, ctx, start.elapsed().as_secs_f64())
}

fn finish(p: &Property, seed: u64, thorough: bool, mut ctx: Ctx, wall: f64) -> i32 {
  let known = load_known(&root());
  ctx.violations.sort_by(|a, b| (&a.suite, a.index).cmp(&(&b.suite, b.index)));
  let mut seen_known: Vec<&Known> = vec![];
  let mut fresh: Vec<Violation> = vec![];
  let mut sigs = HashSet::new();
  for v in &ctx.violations {
    if let Some(k) = known.iter().find(|k| k.property == p.id && k.sig == v.sig) {
      if !seen_known.iter().any(|x| x.sig == k.sig) {
        seen_known.push(k);
      }
    } else if sigs.insert(v.sig.clone()) {
      fresh.push(v.clone());
    }
  }
  for k in &seen_known {
    println!("KNOWN-FINDING: property={} {}", p.id, k.what);
  }
  write_evidence(p, seed, thorough, &ctx, fresh.len(), seen_known.len(), wall);
  println!(
    "property={} seed={} tier={} evaluations={} distinct_nontrivial={} discarded={} wall={:.1}s",
    p.id,
    seed,
    if thorough { "thorough" } else { "quick" },
    ctx.evaluations,
    ctx.distinct.len(),
    ctx.discarded,
    wall
  );
  if !fresh.is_empty() {
    for (n, v) in fresh.iter().take(5).enumerate() {
      let path = write_replay(p, seed, n, v);
      println!("  case {}:{} signature {}", v.suite, v.index, trunc(&v.sig, 200));
      println!("  {}", trunc(&v.detail, 1500).replace('\n', "\n  "));
      println!("VIOLATION property={} replay={}", p.id, path);
    }
    return 1;
  }
  let missing: Vec<&&str> = p
    .required
    .iter()
    .filter(|c| ctx.counters.get(**c).copied().unwrap_or(0) == 0)
    .collect();
  if !missing.is_empty() {
    println!("INCONCLUSIVE property={}: never observed {:?}", p.id, missing);
    return 2;
  }
  println!("HELD property={} on everything explored", p.id);
  0
}

pub fn main(props: Vec<Property>) -> ! {
  let props: &'static Vec<Property> = Box::leak(Box::new(props));
  let args: Vec<String> = std::env::args().collect();
  let id = args.get(1).cloned().unwrap_or_default();
  let p = match props.iter().find(|p| p.id == id) {
    Some(p) => p,
    None => {
      eprintln!("unknown property {:?}", id);
      std::process::exit(2);
    }
  };
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let thorough = match opt_val(&args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()) {
    Some(t) => t == "thorough",
    None => false,
  };
  let cap = Duration::from_secs(
    std::env::var("VH_CAP")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(if thorough { 600 } else { 420 }),
  );
  if let Some(case) = opt_val(&args, "--replay") {
    // run one case in a big-stack thread
    let verbose = !args.iter().any(|a| a == "--silent");
    let (s, i) = case.rsplit_once(':').expect("suite:index");
    let (s, i) = (s.to_string(), i.parse::<u64>().expect("index"));
    install_hook();
    let h = std::thread::Builder::new()
      .stack_size(512 << 20)
      .spawn(move || {
        let suite = p.suites.iter().find(|x| x.name == s).expect("suite");
        let mut ctx = Ctx::default();
        run_case(&mut ctx, p, suite, seed, i);
        ctx
      })
      .unwrap();
    let ctx = h.join().unwrap();
    if verbose {
      for v in &ctx.violations {
        println!("signature {}\n{}", v.sig, v.detail);
      }
      for s in &ctx.samples {
        println!("sample {}", s);
      }
      println!("counters {:?} discarded {}", ctx.counters, ctx.discarded);
    }
    std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
  }
  if args.iter().any(|a| a == "--child") {
    install_hook();
    let code = child(p, seed, thorough, opt_val(&args, "--slots"), cap);
    let _ = std::io::stdout().flush();
    std::process::exit(code);
  }
  // parent: isolates the code under test in a child process
  let exe = std::env::current_exe().expect("exe");
  let slots = std::env::temp_dir().join(format!("vh-slots-{}-{}", p.id, std::process::id()));
  fs::write(&slots, vec![0u8; SLOTS * 16]).expect("slots");
  let start = Instant::now();
  let mut c = Command::new(&exe)
    .args(&args[1..])
    .arg("--child")
    .arg("--slots")
    .arg(&slots)
    .stdin(Stdio::null())
    .spawn()
    .expect("spawn");
  let limit = cap + Duration::from_secs(120);
  // A case normally takes milliseconds, the largest a few seconds: one that stays in flight for long is taken out and
  // re-run alone under a CPU-time limit, which decides whether it terminates.
  let stuck_after = Duration::from_secs(100);
  let mut last: Vec<(Vec<u8>, Instant)> = vec![(vec![0u8; 16], Instant::now()); SLOTS];
  let mut polls = 0u32;
  let status = loop {
    match c.try_wait().expect("wait") {
      Some(s) => break Some(s),
      None => {
        polls += 1;
        let mut stuck = false;
        if polls % 50 == 0 {
          let b = fs::read(&slots).unwrap_or_default();
          for (i, ch) in b.chunks(16).enumerate().take(SLOTS) {
            if ch != &last[i].0[..] {
              last[i] = (ch.to_vec(), Instant::now());
            } else if ch.iter().any(|x| *x != 0) && last[i].1.elapsed() > stuck_after {
              stuck = true;
            }
          }
        }
        if stuck || start.elapsed() > limit {
          let _ = c.kill();
          let _ = c.wait();
          break None;
        }
        std::thread::sleep(Duration::from_millis(20));
      }
    }
  };
  let slot_bytes = fs::read(&slots).unwrap_or_default();
  let _ = fs::remove_file(&slots);
  let mut inflight: Vec<(u64, u64)> = vec![];
  for ch in slot_bytes.chunks(16) {
    if ch.len() == 16 {
      let si = u64::from_le_bytes(ch[..8].try_into().unwrap());
      let ix = u64::from_le_bytes(ch[8..].try_into().unwrap());
      if si > 0 && (si as usize) <= p.suites.len() {
        inflight.push((si - 1, ix));
      }
    }
  }
  let rerun = |case: &str| -> std::process::ExitStatus {
    Command::new("/bin/sh")
      .arg("-c")
      .arg("ulimit -c 0; ulimit -t 40; ulimit -v 6000000; exec \"$0\" \"$@\"")
      .arg(&exe)
      .arg(p.id)
      .arg("--replay")
      .arg(case)
      .arg("--silent")
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .stderr(Stdio::null())
      .status()
      .expect("rerun")
  };
  let code = match status {
    None => {
      let names: Vec<String> = inflight
        .iter()
        .map(|(s, i)| format!("{}:{}", p.suites[*s as usize].name, i))
        .collect();
      let mut ctx = Ctx::default();
      let ends: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = names.iter().map(|case| sc.spawn(|| rerun(case))).collect();
        hs.into_iter().map(|h| h.join().expect("rerun")).collect()
      });
      for (k, (case, st)) in names.iter().zip(ends).enumerate() {
        // 24 = SIGXCPU, 9 = hard CPU limit, 6 = allocation failure under the address-space limit
        if matches!(st.signal(), Some(24) | Some(9) | Some(6) | Some(11)) {
          ctx.suite = p.suites[inflight[k].0 as usize].name.to_string();
          ctx.index = inflight[k].1;
          ctx.violation(
            format!("no-termination {}", case),
            "this case alone does not finish within 40 s of CPU time (it takes milliseconds when the property holds)",
          );
          break;
        } else if st.code() == Some(1) {
          ctx.suite = p.suites[inflight[k].0 as usize].name.to_string();
          ctx.index = inflight[k].1;
          ctx.violation(format!("violating {}", case), "this case reports a violation when re-run alone");
          break;
        }
      }
      if ctx.violations.is_empty() {
        println!("INCONCLUSIVE property={}: watchdog after {:?}; in flight: {:?}", p.id, start.elapsed(), names);
        2
      } else {
        ctx.evaluations = 1;
        finish(p, seed, thorough, ctx, start.elapsed().as_secs_f64())
      }
    }
    Some(st) if st.code().is_some() => st.code().unwrap(),
    Some(st) => {
      // died from a signal: find the case that does it deterministically
      let sig = st.signal().unwrap_or(0);
      let mut ctx = Ctx::default();
      for (si, ix) in &inflight {
        let suite = &p.suites[*si as usize];
        let case = format!("{}:{}", suite.name, ix);
        let mut died = 0;
        for _ in 0..2 {
          {
            let o = rerun(&case);
            // SIGABRT and SIGSEGV come from the code (stack overflow, abort); SIGKILL does not count.
            if matches!(o.signal(), Some(6) | Some(11) | Some(4) | Some(7)) {
              died += 1;
            }
          }
        }
        if died == 2 {
          ctx.suite = suite.name.to_string();
          ctx.index = *ix;
          ctx.violation(
            format!("crash {}", case),
            format!("the process running this case is killed by a signal ({}) every time", sig),
          );
        }
      }
      if ctx.violations.is_empty() {
        println!("INCONCLUSIVE property={}: child died from signal {} without a reproducible case", p.id, sig);
        2
      } else {
        ctx.evaluations = 1;
        finish(p, seed, thorough, ctx, start.elapsed().as_secs_f64())
      }
    }
  };
  std::process::exit(code);
}

/// Reports stay readable: the middle of a long one is left out.
fn shorten(s: String) -> String {
  if s.len() < 6000 {
    return s;
  }
  let cut = |mut i: usize| {
    while !s.is_char_boundary(i) {
      i -= 1
    }
    i
  };
  format!("{} [...{} bytes...] {}", &s[..cut(3000)], s.len() - 5000, &s[cut(s.len() - 2000)..])
}
