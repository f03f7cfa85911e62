//! Case runner: numbered, seeded cases on a thread pool; violations, counters, evidence, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// the system allocator, counting the bytes each thread holds
struct Counting;
thread_local! { static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xDEAD_BEEF_1234) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0 ^ self.1)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// uniform integer in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    /// uniform integer in [a, b]
    pub fn int(&mut self, a: i32, b: i32) -> i32 {
        a + (self.u64() % ((b - a + 1) as u64)) as i32
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * self.unit() as f32
    }
    /// log-uniform in [a, b], a > 0
    pub fn log(&mut self, a: f32, b: f32) -> f32 {
        (a.ln() + (b.ln() - a.ln()) * self.unit() as f32).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn sign(&mut self) -> f32 {
        if self.chance(0.5) { 1.0 } else { -1.0 }
    }
    pub fn angle(&mut self) -> f32 {
        self.f(-3.2, 3.2)
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub part: &'static str,
    pub seed: u64,
    pub idx: u64,
    pub verbose: bool,
    pub rng: Rng,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
}

impl Ctx {
    /// count one oracle evaluation and record a violation if it fails
    pub fn check<F: FnOnce() -> String>(&mut self, cond: bool, msg: F) -> bool {
        self.evals += 1;
        if !cond {
            let m = msg();
            self.fail(m);
        }
        cond
    }
    pub fn fail(&mut self, m: String) {
        if self.violations.len() < 8 {
            if self.verbose {
                println!("  violation: {}", m);
            }
            self.violations.push(m);
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// keep the largest value seen (reported in the evidence as max_*), scaled by 1e6
    pub fn max(&mut self, name: &str, v: f64) {
        let k = format!("max_{}_e6", name);
        let v = (v * 1e6).min(1e18).max(0.0) as u64;
        let c = self.counters.entry(k).or_insert(0);
        if v > *c {
            *c = v;
        }
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 20000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 2 {
            self.samples.push(s);
        }
    }
    pub fn log<F: FnOnce() -> String>(&self, f: F) {
        if self.verbose {
            println!("  {}", f());
        }
    }
    /// |a - b| <= tol
    pub fn near(&mut self, what: &str, a: f64, b: f64, tol: f64) -> bool {
        let ok = (a - b).abs() <= tol;
        self.check(ok, || format!("{}: got {} expected {} (tolerance {})", what, a, b, tol))
    }
}

pub type CaseFn = fn(&mut Ctx);
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
pub struct Property {
    pub id: &'static str,
    /// what makes an evaluated situation non-trivial and distinct
    pub rule: &'static str,
    pub parts: Vec<Part>,
    /// counters which must reach a minimum for the run to mean anything (for the quick tier)
    pub required: Vec<(&'static str, u64)>,
    pub assumptions: &'static str,
}
pub fn part(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Part {
    Part { name, quick, thorough, f }
}

#[derive(Clone, Default, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
    pub in_repo: bool,
}
thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        if std::env::var("B2MON_BT").is_ok() {
            let bt = format!("{}", std::backtrace::Backtrace::force_capture());
            let l: Vec<&str> = bt.lines().map(|l| l.trim()).filter(|l| l.contains("/repo/src")).take(8).collect();
            println!("panic {} at {:?}:\n   {}", msg, info.location(), l.join("\n   "));
        }
        let mut in_repo = file.starts_with("/repo/") || file.contains("/repo/src/");
        let harness = file.starts_with("src/") || file.contains("/harness/src");
        if !in_repo && (!harness || msg.contains("already")) {
            // attribute panics raised elsewhere (e.g. in std) by the innermost frame that is ours or theirs
            let bt = format!("{}", std::backtrace::Backtrace::force_capture());
            let mut hook_passed = false;
            for l in bt.lines() {
                let l = l.trim();
                if !l.starts_with("at ") {
                    continue;
                }
                if l.contains("/repo/src") {
                    in_repo = true;
                    break;
                }
                if l.contains("src/core.rs") && !hook_passed {
                    hook_passed = true;
                    continue;
                }
                if l.contains("harness/src") || l.starts_with("at ./src") || l.starts_with("at src/") {
                    break;
                }
            }
            // an object still borrowed by the library when it is handed to, or left for, the user
            if msg.contains("already borrowed") || msg.contains("already mutably borrowed") {
                in_repo = true;
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { msg, file, line, in_repo }));
    }));
}

/// runs `f`; a panic inside is returned
pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Result<R, PanicInfo> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for x in w {
        h = mix(h ^ *x);
    }
    h
}
pub fn hash_f(w: &[f32]) -> u64 {
    let mut h = 0x7654321u64;
    for x in w {
        h = mix(h ^ x.to_bits() as u64);
    }
    h
}

pub enum CaseEnd {
    Done,
    HarnessError(String),
}

pub fn run_case(prop: &Property, part: &Part, seed: u64, idx: u64, verbose: bool) -> (Ctx, CaseEnd) {
    let s = hash_words(&[seed, hash_str(prop.id), hash_str(part.name), idx]);
    let mut ctx = Ctx {
        prop: prop.id,
        part: part.name,
        seed,
        idx,
        verbose,
        rng: Rng::new(s),
        evals: 0,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        violations: vec![],
    };
    let f = part.f;
    let end = match guarded(|| f(&mut ctx)) {
        Ok(()) => CaseEnd::Done,
        Err(p) => {
            if p.in_repo {
                ctx.evals += 1;
                ctx.fail(format!("panic at {}:{}: {}", p.file, p.line, p.msg));
                CaseEnd::Done
            } else {
                CaseEnd::HarnessError(format!("{}:{}: {}", p.file, p.line, p.msg))
            }
        }
    };
    (ctx, end)
}

pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

struct Total {
    evals: u64,
    cases: BTreeMap<&'static str, u64>,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(usize, u64, Vec<String>)>,
    errors: Vec<String>,
}

pub fn run_property(prop: &'static Property, seed: u64, tier: &str, root: &std::path::Path) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let budget = if thorough { 420.0 } else { 75.0 };
    let budget = std::env::var("B2MON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
    let scale: f64 = std::env::var("B2MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("B2MON_PART").ok();
    // interleave the parts so that a truncated run still covers all of them
    let mut tasks: Vec<(f64, usize, u64)> = vec![];
    for (pi, p) in prop.parts.iter().enumerate() {
        if let Some(o) = &only {
            if o != p.name {
                continue;
            }
        }
        let n = ((if thorough { p.thorough } else { p.quick }) as f64 * scale).ceil() as u64;
        for i in 0..n {
            tasks.push(((i as f64 + 0.5) / n as f64, pi, i));
        }
    }
    tasks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n_tasks = tasks.len();
    let tasks = Arc::new(tasks);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total {
        evals: 0,
        cases: BTreeMap::new(),
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        violations: vec![],
        errors: vec![],
    }));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let running: Arc<Mutex<Vec<Option<(usize, u64, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let mut hs = vec![];
    for ti in 0..threads {
        let (tasks, next, stop, total, running) =
            (tasks.clone(), next.clone(), stop.clone(), total.clone(), running.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > budget {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= tasks.len() {
                        break;
                    }
                    let (_, pi, idx) = tasks[i];
                    running.lock().unwrap()[ti] = Some((pi, idx, Instant::now()));
                    let (ctx, end) = run_case(prop, &prop.parts[pi], seed, idx, false);
                    running.lock().unwrap()[ti] = None;
                    let mut t = total.lock().unwrap();
                    t.evals += ctx.evals;
                    *t.cases.entry(prop.parts[pi].name).or_insert(0) += 1;
                    for (k, v) in ctx.counters {
                        if k.starts_with("max_") {
                            let c = t.counters.entry(k).or_insert(0);
                            if v > *c {
                                *c = v
                            }
                        } else {
                            *t.counters.entry(k).or_insert(0) += v;
                        }
                    }
                    if t.distinct.len() < 2_000_000 {
                        t.distinct.extend(ctx.distinct);
                    }
                    if t.samples.len() < 8 && (idx < 2 || t.samples.is_empty()) {
                        t.samples.extend(ctx.samples);
                    }
                    if let CaseEnd::HarnessError(e) = end {
                        if t.errors.len() < 20 {
                            t.errors.push(format!("{}#{}: {}", prop.parts[pi].name, idx, e));
                        }
                    }
                    if !ctx.violations.is_empty() {
                        t.violations.push((pi, idx, ctx.violations));
                        if t.violations.len() >= 6 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not end gives no answer (never a violation), unless one was already found
    let done = Arc::new(AtomicBool::new(false));
    {
        let (done, total, running) = (done.clone(), total.clone(), running.clone());
        let root = root.to_path_buf();
        let tier = tier.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            if done.load(Ordering::Relaxed) {
                return;
            }
            let el = t0.elapsed().as_secs_f64();
            let stuck = running.lock().unwrap().iter().flatten().any(|r| r.2.elapsed().as_secs_f64() > 150.0);
            if el > budget + 200.0 || (stuck && el > budget) || stuck {
                let t = total.lock().unwrap();
                for r in running.lock().unwrap().iter().flatten() {
                    println!("still running: part {} case {} for {:.0}s", prop.parts[r.0].name, r.1, r.2.elapsed().as_secs_f64());
                }
                let code = finish(prop, seed, &tier, &root, &t, n_tasks, t0, true);
                std::process::exit(code);
            }
        });
    }
    for h in hs {
        let _ = h.join();
    }
    done.store(true, Ordering::Relaxed);
    let t = total.lock().unwrap();
    finish(prop, seed, tier, root, &t, n_tasks, t0, only.is_some())
}

fn finish(
    prop: &'static Property,
    seed: u64,
    tier: &str,
    root: &std::path::Path,
    t: &Total,
    n_tasks: usize,
    t0: Instant,
    partial: bool,
) -> i32 {
    let known = known_findings(root, prop.id);
    let mut printed_known: HashSet<String> = HashSet::new();
    let mut real: Vec<(usize, u64, Vec<String>)> = vec![];
    for (pi, idx, ms) in &t.violations {
        let mut rest = vec![];
        for m in ms {
            if let Some(k) = known.iter().find(|k| m.starts_with(&format!("[{}]", k.0))) {
                if printed_known.insert(k.0.clone()) {
                    println!("KNOWN-FINDING: property={} {}", prop.id, k.1);
                }
            } else {
                rest.push(m.clone());
            }
        }
        if !rest.is_empty() {
            real.push((*pi, *idx, rest));
        }
    }
    real.sort_by_key(|v| (v.1, v.0));
    let mut replay_paths = vec![];
    for (pi, idx, ms) in real.iter().take(3) {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}-{}.json", prop.id, prop.parts[*pi].name, seed, idx));
        let s = format!(
            "{{\"property\":{},\"part\":{},\"seed\":{},\"case\":{},\"messages\":[{}]}}\n",
            json_str(prop.id),
            json_str(prop.parts[*pi].name),
            seed,
            idx,
            ms.iter().map(|m| json_str(m)).collect::<Vec<_>>().join(",")
        );
        let _ = std::fs::write(&path, s);
        replay_paths.push((path, prop.parts[*pi].name, *idx, ms.clone()));
    }
    let mut missing = vec![];
    if !partial {
        for (name, min) in &prop.required {
            let got = t.counters.get(*name).copied().unwrap_or(0);
            if got < *min {
                missing.push(format!("{} = {} < {}", name, got, min));
            }
        }
        if t.evals == 0 {
            missing.push("no evaluations".into());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let cases_total: u64 = t.cases.values().sum();
    let mut j = String::new();
    j += &format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",",
        json_str(prop.id),
        json_str(tier),
        seed
    );
    j += &format!(
        "\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"cases_planned\":{},\"cases_run\":{},\"cases\":{{{}}},\"observed\":{{{}}},\"samples\":[{}]}},",
        t.evals,
        t.distinct.len(),
        json_str(prop.rule),
        n_tasks,
        cases_total,
        t.cases.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
        t.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
        t.samples.iter().take(8).map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    j += &format!("\"wall_s\":{:.3},\"assumptions\":[{}],", wall, json_str(prop.assumptions));
    j += &format!(
        "\"violations\":[{}]}}\n",
        replay_paths
            .iter()
            .map(|(p, part, idx, ms)| format!(
                "{{\"replay\":{},\"part\":{},\"case\":{},\"messages\":[{}]}}",
                json_str(&p.display().to_string()),
                json_str(part),
                idx,
                ms.iter().map(|m| json_str(m)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let wrote = std::fs::write(dir.join(format!("{}.json", prop.id)), &j);
    println!(
        "{} tier={} seed={} cases={}/{} evaluations={} distinct={} wall={:.1}s",
        prop.id, tier, seed, cases_total, n_tasks, t.evals, t.distinct.len(), wall
    );
    if std::env::var("B2MON_COUNTERS").is_ok() {
        for (k, v) in &t.counters {
            println!("  {} = {}", k, v);
        }
    }
    if !real.is_empty() {
        for (p, part, idx, ms) in &replay_paths {
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            for m in ms.iter().take(4) {
                println!("    [{}#{}] {}", part, idx, m);
            }
        }
        return 1;
    }
    if !t.errors.is_empty() {
        for e in &t.errors {
            println!("HARNESS-ERROR {}", e);
        }
        return 3;
    }
    if partial && std::env::var("B2MON_PART").is_err() {
        println!("NO-ANSWER property={} a case did not finish", prop.id);
        return 3;
    }
    if !missing.is_empty() {
        println!("NO-ANSWER property={} observed too little: {}", prop.id, missing.join("; "));
        return 3;
    }
    if let Err(e) = wrote {
        println!("HARNESS-ERROR cannot write evidence: {}", e);
        return 3;
    }
    0
}

/// lines `known: property=<id> key=<key> <text>` in known_findings.txt
fn known_findings(root: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} key=", id)) {
                let mut it = r.splitn(2, ' ');
                let k = it.next().unwrap_or("").to_string();
                let text = it.next().unwrap_or("").to_string();
                if !k.is_empty() {
                    v.push((k, text));
                }
            }
        }
    }
    v
}

pub fn replay(props: &'static [Property], path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            println!("bad replay file: {}", e);
            return 2;
        }
    };
    let prop = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property");
    let part = prop.parts.iter().find(|p| Some(p.name) == v["part"].as_str()).expect("part");
    let (seed, idx) = (v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap());
    let path = path.to_string();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let (ctx, end) = run_case(prop, part, seed, idx, true);
            for (k, v) in &ctx.counters {
                println!("  {} = {}", k, v);
            }
            match end {
                CaseEnd::HarnessError(e) => {
                    println!("HARNESS-ERROR {}", e);
                    3
                }
                CaseEnd::Done => {
                    if ctx.violations.is_empty() {
                        println!("no violation");
                        0
                    } else {
                        println!("VIOLATION property={} replay={}", prop.id, path);
                        for m in &ctx.violations {
                            println!("    {}", m);
                        }
                        1
                    }
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}
