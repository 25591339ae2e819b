//! Explorer core: shards a deterministic enumeration of cases over worker processes, runs every
//! case on the real code under supervision (panic, crash, hang and memory containment), counts
//! what was covered, and turns disagreements into replayable violations.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// FNV-1a over `Hash`: stable between runs, unlike the default hasher of HashMap.
pub struct Fnv(u64);
impl Default for Fnv {
  fn default() -> Self {
    Fnv(0xcbf29ce484222325)
  }
}
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 ^= *b as u64;
      self.0 = self.0.wrapping_mul(0x100000001b3);
    }
  }
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = Fnv::default();
  t.hash(&mut h);
  h.finish()
}

#[derive(Default, Clone)]
struct IdHasher(u64);
impl Hasher for IdHasher {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, _: &[u8]) {
    unreachable!()
  }
  fn write_u64(&mut self, n: u64) {
    self.0 = n.wrapping_mul(0x9E3779B97F4A7C15)
  }
}
type IdBuild = std::hash::BuildHasherDefault<IdHasher>;

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`, converting a panic into Err(message at file:line).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
  }));
}

/// Distinct-state fingerprints kept per worker; the reported state count is a lower bound beyond it.
const STATE_CAP: usize = 25_000_000;

pub struct Ctx {
  pub tier: Tier,
  shard: u64,
  nshards: u64,
  groups: u64,
  counter: u64,
  locate: Option<u64>,
  only_desc: Option<String>,
  progress: Option<File>,
  max_violations: usize,
  // measured
  evaluations: u64,
  transitions: u64,
  states: HashSet<u64, IdBuild>,
  outcomes: HashSet<u64, IdBuild>,
  samples: Vec<String>,
  notes: BTreeMap<String, u64>,
  violations: Vec<(String, String)>,
  deadline: Option<Instant>,
  /// exists once any worker has found a violation; exploring on is then limited
  found: Option<std::path::PathBuf>,
  enough: Instant,
  truncated: bool,
}

impl Ctx {
  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }
  /// quick/thorough bound selection
  pub fn pick<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough() {
      thorough
    } else {
      quick
    }
  }

  /// Next unit of work; true when it belongs to this shard.
  pub fn mine(&mut self) -> bool {
    let g = self.groups;
    self.groups += 1;
    g % self.nshards == self.shard
  }
  /// The answer `mine()` gave last, for work that belongs to the same unit.
  pub fn last_mine(&self) -> bool {
    (self.groups.wrapping_sub(1)) % self.nshards == self.shard
  }
  pub fn full(&mut self) -> bool {
    if let Some(d) = self.deadline {
      if Instant::now() > d {
        self.truncated = true;
      }
    }
    self.violations.len() >= self.max_violations || self.truncated
  }
  pub fn state(&mut self, h: u64) {
    if self.states.len() < STATE_CAP {
      self.states.insert(h);
    } else if !self.states.contains(&h) {
      self.note("states_beyond_the_fingerprint_cap_not_counted", 1);
    }
  }
  pub fn outcome(&mut self, h: u64) {
    self.outcomes.insert(h);
  }
  pub fn steps(&mut self, n: u64) {
    self.transitions += n;
  }
  pub fn note(&mut self, key: &str, n: u64) {
    *self.notes.entry(key.to_string()).or_insert(0) += n;
  }

  /// One execution on the real code. `run` returns Ok(outcome fingerprint) or Err(disagreement).
  /// A panic escaping `run` is a disagreement too: harnesses guard calls whose panic they expect.
  pub fn case(&mut self, desc: impl Fn() -> String, run: impl FnOnce() -> Result<u64, String>) {
    let c = self.counter;
    self.counter += 1;
    if let Some(l) = self.locate {
      if c < l {
        return;
      }
      println!("LOCATED {}", desc().replace('\n', "\\n"));
      std::process::exit(0);
    }
    if let Some(d) = &self.only_desc {
      if desc().replace('\n', "\\n") != *d {
        return;
      }
    }
    if self.evaluations % 16 == 0 {
      let now = Instant::now();
      if self.deadline.map_or(false, |d| now > d) {
        self.truncated = true;
      }
      if now > self.enough {
        self.enough = now + Duration::from_secs(1);
        self.truncated |= self.found.as_ref().map_or(false, |f| f.exists());
      }
    }
    if self.violations.len() >= self.max_violations || self.truncated {
      return;
    }
    if let Some(p) = &self.progress {
      let _ = p.write_all_at(&(c + 1).to_le_bytes(), 0);
    }
    self.evaluations += 1;
    match guarded(run) {
      Ok(Ok(o)) => {
        if self.outcomes.insert(o) && self.samples.len() < 40 {
          let d = desc();
          self.samples.push(d);
        }
      }
      Ok(Err(e)) | Err(e) => {
        self.violations.push((desc(), e));
        if let Some(f) = &self.found {
          let _ = File::create(f);
        }
      }
    }
  }
}

pub struct Check {
  pub id: &'static str,
  pub run: fn(&mut Ctx),
  /// what one state / transition / trace is, and the bounds, for the evidence file
  pub explain: &'static str,
  pub bounds_quick: &'static str,
  pub bounds_thorough: &'static str,
  pub assumptions: &'static [&'static str],
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn unline(s: &str) -> String {
  s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
fn reline(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\\' {
      match it.next() {
        Some('n') => o.push('\n'),
        Some('r') => o.push('\r'),
        Some('t') => o.push('\t'),
        Some(c) => o.push(c),
        None => {}
      }
    } else {
      o.push(c)
    }
  }
  o
}

fn worker(check: &Check, tier: Tier, shard: u64, nshards: u64, locate: Option<u64>, progress: Option<&str>) {
  install_hook();
  let only_desc = std::env::var("MC_CASE").ok();
  let deadline = std::env::var("MC_BUDGET_S")
    .ok()
    .and_then(|s| s.parse::<u64>().ok())
    .or(if tier == Tier::Quick { Some(780) } else { None })
    .map(|s| Instant::now() + Duration::from_secs(s));
  let found = progress.filter(|p| !p.is_empty() && only_desc.is_none()).map(|p| std::path::Path::new(p).with_file_name("found"));
  let check_run = check.run;
  let progress = progress.map(|p| OpenOptions::new().write(true).create(true).open(p).expect("progress file"));
  // The main thread's stack is limited by ulimit; run on a thread whose stack is fixed here.
  let h = std::thread::Builder::new()
    .stack_size(64 << 20)
    .spawn(move || {
      let mut ctx = Ctx {
        tier,
        shard,
        nshards,
        groups: 0,
        counter: 0,
        locate,
        only_desc,
        progress,
        max_violations: 20,
        evaluations: 0,
        transitions: 0,
        states: Default::default(),
        outcomes: Default::default(),
        samples: vec![],
        notes: BTreeMap::new(),
        violations: vec![],
        deadline,
        found,
        enough: Instant::now() + Duration::from_secs(if tier == Tier::Quick { 200 } else { 600 }),
        truncated: false,
      };
      (check_run)(&mut ctx);
      ctx
    })
    .unwrap();
  let mut ctx = match h.join() {
    Ok(c) => c,
    Err(_) => {
      eprintln!("engine error in worker: {}", "panic outside a case");
      LAST_PANIC.with(|p| eprintln!("{}", p.borrow()));
      std::process::exit(70);
    }
  };
  ctx.violations.sort_by_key(|(d, _)| d.len());
  let mut out = String::new();
  out.push_str(&format!(
    "STATS\t{}\t{}\t{}\t{}\n",
    ctx.evaluations,
    ctx.transitions,
    ctx.states.len(),
    ctx.truncated as u8
  ));
  for o in &ctx.outcomes {
    out.push_str(&format!("O\t{:x}\n", o));
  }
  for (k, v) in &ctx.notes {
    out.push_str(&format!("NOTE\t{}\t{}\n", unline(k), v));
  }
  for s in ctx.samples.iter() {
    out.push_str(&format!("SAMPLE\t{}\n", unline(s)));
  }
  for (d, e) in &ctx.violations {
    out.push_str(&format!("V\t{}\t{}\n", unline(d), unline(e)));
  }
  out.push_str("DONE\n");
  std::io::stdout().write_all(out.as_bytes()).unwrap();
}

fn cpu_ticks(pid: u32) -> u64 {
  fs::read_to_string(format!("/proc/{}/stat", pid))
    .ok()
    .and_then(|s| {
      let rest = s.rsplit(')').next()?.to_string();
      let f: Vec<&str> = rest.split_whitespace().collect();
      Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
    })
    .unwrap_or(0)
}

struct Known {
  property: String,
  case: String,
  what: String,
}

/// Minimal reader for known_findings.jsonl: string fields only, one flat object per line.
fn read_known(root: &str) -> Vec<Known> {
  let mut v = vec![];
  if let Ok(text) = fs::read_to_string(format!("{}/known_findings.jsonl", root)) {
    for line in text.lines() {
      let get = |k: &str| -> Option<String> {
        let pat = format!("\"{}\":", k);
        let i = line.find(&pat)? + pat.len();
        let rest = line[i..].trim_start();
        let mut it = rest.strip_prefix('"')?.chars();
        let mut o = String::new();
        while let Some(c) = it.next() {
          match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
              'n' => o.push('\n'),
              't' => o.push('\t'),
              'r' => o.push('\r'),
              c => o.push(c),
            },
            c => o.push(c),
          }
        }
        None
      };
      if get("status").as_deref() == Some("known") {
        if let (Some(p), Some(c), Some(w)) = (get("property"), get("case"), get("what")) {
          v.push(Known { property: p, case: c, what: w });
        }
      }
    }
  }
  v
}

pub fn main_with(checks: &[Check]) -> ! {
  let args: Vec<String> = std::env::args().collect();
  let usage = || -> ! {
    eprintln!("usage: {} <ID> quick|thorough", args[0]);
    std::process::exit(64)
  };
  if args.len() < 3 {
    usage()
  }
  let check = match checks.iter().find(|c| c.id == args[1]) {
    Some(c) => c,
    None => {
      eprintln!("unknown check {}", args[1]);
      std::process::exit(64)
    }
  };
  let tier = match args[2].as_str() {
    "quick" => Tier::Quick,
    "thorough" => Tier::Thorough,
    _ => usage(),
  };
  if args.len() >= 6 && args[3] == "--worker" {
    let shard = args[4].parse().unwrap();
    let n = args[5].parse().unwrap();
    let progress = args.get(6).map(|s| s.as_str()).filter(|s| !s.is_empty());
    let locate = args.get(7).and_then(|s| s.parse().ok());
    worker(check, tier, shard, n, locate, progress);
    std::process::exit(0);
  }
  supervise(check, tier)
}

fn spawn(id: &str, tier: Tier, shard: u64, n: u64, progress: &str, locate: Option<u64>) -> std::process::Child {
  spawn_case(id, tier, shard, n, progress, locate, None)
}

fn spawn_case(id: &str, tier: Tier, shard: u64, n: u64, progress: &str, locate: Option<u64>, only: Option<&str>) -> std::process::Child {
  let exe = std::env::current_exe().unwrap();
  let t = if tier == Tier::Quick { "quick" } else { "thorough" };
  let mem_kb = 3_500_000u64;
  let mut c = Command::new("sh");
  c.arg("-c")
    .arg(format!("ulimit -c 0; ulimit -v {}; exec \"$@\"", mem_kb))
    .arg("sh")
    .arg(exe)
    .args([id, t, "--worker", &shard.to_string(), &n.to_string(), progress]);
  if let Some(l) = locate {
    c.arg(l.to_string());
  }
  c.env("RUST_BACKTRACE", "0").env_remove("RUST_LOG").stdin(Stdio::null());
  match only {
    Some(d) => c.env("MC_CASE", d).stdout(Stdio::null()).stderr(Stdio::null()),
    None => c.stdout(Stdio::piped()).stderr(Stdio::piped()),
  };
  c.spawn().expect("spawn worker")
}

/// Runs one case in a process of its own; true when it finishes.
fn runs_alone(id: &str, tier: Tier, desc: &str, hang_s: u64) -> bool {
  let tmp = std::env::temp_dir().join(format!("mc-{}-{}-alone-{}", id, std::process::id(), h64(desc)));
  let prog = tmp.to_string_lossy().to_string();
  let mut child = spawn_case(id, tier, 0, 1, &prog, None, Some(desc));
  let pid = child.id();
  let read = || -> u64 {
    fs::read(&prog).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(0)
  };
  let mut base = 0u64;
  let ok = loop {
    if let Some(s) = child.try_wait().unwrap() {
      break s.success();
    }
    // the clock starts when the case starts; enumerating up to it does not count
    let cpu = cpu_ticks(pid);
    if read() == 0 {
      base = cpu;
    } else if cpu.saturating_sub(base) > hang_s * 100 * 3 {
      let _ = child.kill();
      let _ = child.wait();
      break false;
    }
    std::thread::sleep(Duration::from_millis(50));
  };
  let _ = fs::remove_file(&tmp);
  ok
}

fn supervise(check: &Check, tier: Tier) -> ! {
  let t0 = Instant::now();
  let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let n: u64 = std::env::var("MC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let hang_s: u64 = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
  let tmp = std::env::temp_dir().join(format!("mc-{}-{}", check.id, std::process::id()));
  fs::create_dir_all(&tmp).expect("scratch dir");
  let mut handles = vec![];
  for shard in 0..n {
    let prog = tmp.join(format!("p{}", shard)).to_string_lossy().to_string();
    let id = check.id;
    handles.push(std::thread::spawn(move || {
      let mut child = spawn(id, tier, shard, n, &prog, None);
      let pid = child.id();
      let out = child.stdout.take().unwrap();
      let err = child.stderr.take().unwrap();
      let to = std::thread::spawn(move || BufReader::new(out).lines().map_while(|l| l.ok()).collect::<Vec<_>>());
      let te = std::thread::spawn(move || {
        let mut keep: Vec<String> = vec![];
        for l in BufReader::new(err).lines().map_while(|l| l.ok()) {
          if keep.len() < 20 {
            keep.push(l)
          }
        }
        keep
      });
      let read = || -> u64 {
        fs::read(&prog).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(0)
      };
      let mut last = (0u64, 0u64);
      let mut hung = false;
      let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
          break s;
        }
        let c = read();
        let cpu = cpu_ticks(pid);
        if c != last.0 {
          last = (c, cpu);
        } else if c != 0 && cpu.saturating_sub(last.1) > hang_s * 100 {
          hung = true;
          let _ = child.kill();
        }
        std::thread::sleep(Duration::from_millis(50));
      };
      let lines = to.join().unwrap();
      if hung || !status.success() {
        let _ = File::create(std::path::Path::new(&prog).with_file_name("found"));
      }
      let errs = te.join().unwrap();
      let done = lines.last().map(|l| l == "DONE").unwrap_or(false);
      let mut crash = None;
      if !done {
        let c = read();
        let in_case = c > 0 && (hung || status.signal().is_some());
        if in_case {
          let loc = spawn(id, tier, shard, n, "", Some(c - 1)).wait_with_output().unwrap();
          let text = String::from_utf8_lossy(&loc.stdout).to_string();
          let d = text.lines().find_map(|l| l.strip_prefix("LOCATED ").map(|s| s.to_string()));
          let why = if hung {
            format!("did not terminate within {} s of CPU time", hang_s)
          } else {
            format!("process died: {:?} {}", status, errs.join(" / "))
          };
          // Confirm on the case alone: what only dies with the whole exploration behind it (memory
          // kept by the harness, say) is no verdict on the code.
          let alone = d.as_ref().filter(|_| !hung && why.contains("memory allocation")).map(|d| runs_alone(id, tier, d, hang_s));
          crash = Some(match d {
            Some(d) if alone == Some(true) => {
              Err(format!("worker {} failed ({}) at {:?}, which runs to its end on its own", shard, why, d))
            }
            Some(d) => Ok((d, why)),
            None => Err(format!("worker crashed ({}) and the case could not be located", why)),
          });
        } else {
          crash = Some(Err(format!("worker {} failed: {:?}\n{}", shard, status, errs.join("\n"))));
        }
      }
      (lines, crash)
    }));
  }
  let mut evals = 0u64;
  let mut transitions = 0u64;
  let mut states = 0u64;
  let mut truncated = false;
  let mut outcomes: HashSet<String> = HashSet::new();
  let mut samples: Vec<String> = vec![];
  let mut notes: BTreeMap<String, u64> = BTreeMap::new();
  let mut viols: Vec<(String, String)> = vec![];
  let mut engine_errors: Vec<String> = vec![];
  for h in handles {
    let (lines, crash) = h.join().unwrap();
    for l in lines {
      let f: Vec<&str> = l.split('\t').collect();
      match f[0] {
        "STATS" => {
          evals += f[1].parse::<u64>().unwrap();
          transitions += f[2].parse::<u64>().unwrap();
          states += f[3].parse::<u64>().unwrap();
          truncated |= f[4] == "1";
        }
        "O" => {
          outcomes.insert(f[1].to_string());
        }
        "NOTE" => *notes.entry(reline(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
        "SAMPLE" => samples.push(reline(f[1])),
        "V" => viols.push((reline(f[1]), reline(f[2]))),
        _ => {}
      }
    }
    match crash {
      Some(Ok(v)) => viols.push(v),
      Some(Err(e)) => engine_errors.push(e),
      None => {}
    }
  }
  let _ = fs::remove_dir_all(&tmp);
  let known = read_known(&root);
  viols.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
  let mut fresh = vec![];
  let mut seen_known: HashSet<String> = HashSet::new();
  for (d, e) in viols {
    match known.iter().find(|k| k.property == check.id && k.case == d) {
      Some(k) => {
        if seen_known.insert(k.case.clone()) {
          println!("KNOWN-FINDING: property={} {}", check.id, k.what)
        }
      }
      None => fresh.push((d, e)),
    }
  }
  samples.sort_by_key(|s| (s.len(), s.clone()));
  let step = (samples.len() / 12).max(1);
  let samples: Vec<String> = samples.into_iter().step_by(step).take(14).collect();
  let (tname, bounds) = match tier {
    Tier::Quick => ("quick", check.bounds_quick),
    Tier::Thorough => ("thorough", check.bounds_thorough),
  };
  let mut j = String::new();
  j.push_str(&format!(
    "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n",
    esc(check.id),
    esc(tname),
    seed
  ));
  j.push_str(&format!(
    "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n",
    states,
    transitions,
    evals,
    outcomes.len(),
    !truncated && fresh.is_empty()
  ));
  j.push_str(&format!("  \"rule\": {},\n  \"bounds\": {},\n", esc(check.explain), esc(bounds)));
  for (k, v) in &notes {
    j.push_str(&format!("  {}: {},\n", esc(k), v));
  }
  j.push_str(&format!(
    "  \"samples\": [{}]\n }},\n",
    samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
  ));
  j.push_str(&format!(
    " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    check.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
    t0.elapsed().as_secs_f64(),
    fresh.len()
  ));
  fs::create_dir_all(format!("{}/evidence", root)).ok();
  fs::write(format!("{}/evidence/{}.json", root, check.id), j).expect("write evidence");
  println!(
    "{} {}: states={} transitions={} executions={} distinct_outcomes={} violations={} wall={:.1}s{}",
    check.id,
    tname,
    states,
    transitions,
    evals,
    outcomes.len(),
    fresh.len(),
    t0.elapsed().as_secs_f64(),
    if truncated { " (time cap hit)" } else { "" }
  );
  for (k, v) in &notes {
    println!("  {} = {}", k, v);
  }
  if !fresh.is_empty() {
    let dir = format!("{}/replays", root);
    fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}.txt", dir, check.id);
    let mut t = format!("property {}\n\n", check.id);
    for (d, e) in fresh.iter().take(20) {
      t.push_str(&format!(
        "case: {}\ndisagreement: {}\nreplay: cd /verif && MC_CASE='{}' ./run.sh {} {}\n\n",
        d.replace('\n', "\\n"),
        e,
        d.replace('\n', "\\n").replace('\'', "'\\''"),
        check.id,
        tname
      ));
    }
    fs::write(&path, &t).ok();
    for (d, e) in fresh.iter().take(5) {
      println!("  case: {}\n    {}", d.replace('\n', "\\n"), e.replace('\n', "\\n"));
    }
    println!("VIOLATION property={} replay={}", check.id, path);
    std::process::exit(1);
  }
  if !engine_errors.is_empty() {
    for e in &engine_errors {
      eprintln!("engine error: {}", e);
    }
    std::process::exit(70);
  }
  if evals == 0 && std::env::var("MC_CASE").is_err() {
    eprintln!("engine error: nothing was explored");
    std::process::exit(70);
  }
  std::process::exit(0);
}

/// All words over `alphabet` of length 0..=max, shortest first.
pub fn words<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
  let mut all: Vec<Vec<T>> = vec![vec![]];
  let mut layer: Vec<Vec<T>> = vec![vec![]];
  for _ in 0..max {
    let mut next = Vec::with_capacity(layer.len() * alphabet.len());
    for w in &layer {
      for a in alphabet {
        let mut x = w.clone();
        x.push(a.clone());
        next.push(x);
      }
    }
    all.extend(next.iter().cloned());
    layer = next;
  }
  all
}

/// Calls `f` on every word of length 0..=max without materialising them.
pub fn for_words(alphabet: &[&str], max: usize, f: &mut dyn FnMut(&str, usize)) {
  fn go(alphabet: &[&str], max: usize, cur: &mut String, n: usize, f: &mut dyn FnMut(&str, usize)) {
    f(cur, n);
    if n == max {
      return;
    }
    for a in alphabet {
      let l = cur.len();
      cur.push_str(a);
      go(alphabet, max, cur, n + 1, f);
      cur.truncate(l);
    }
  }
  go(alphabet, max, &mut String::new(), 0, f)
}
