//! The runner: shards, supervision of crashes and hangs, shrinking, evidence and known findings.
use crate::guide::Guide;
use crate::src::{hash_str, mix, Rng, Src};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use std::{env, fs, panic, process};

pub enum Outcome {
    /// the property held; whether the case was non-trivial, and labels for the coverage counts
    Pass { nontrivial: bool, tags: Vec<String> },
    /// it failed in exactly the way which the known finding with this id describes
    Known(&'static str, String),
    Fail(String),
}

pub fn pass(nontrivial: bool, tags: &[&str]) -> Outcome {
    Outcome::Pass { nontrivial, tags: tags.iter().map(|t| (*t).to_string()).collect() }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return $crate::core::Outcome::Fail(format!($($a)*)) };
}

pub struct Env {
    pub scratch: PathBuf,
    pub n: u64,
}

impl Env {
    /// An empty directory for one case
    pub fn dir(&mut self) -> PathBuf {
        let prev = self.scratch.join(format!("c{}", self.n));
        let _ = fs::remove_dir_all(&prev);
        self.n += 1;
        let d = self.scratch.join(format!("c{}", self.n));
        fs::create_dir_all(&d).unwrap();
        d
    }
}

pub struct Def<C> {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C, &mut Env) -> Outcome,
    /// a human readable rendering for samples
    pub show: fn(&C) -> Value,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn quota(&self, tier: &str) -> u64;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str];
    fn gen(&self, s: &mut Src) -> Value;
    fn check(&self, case: &Value, env: &mut Env) -> Outcome;
    fn show(&self, case: &Value) -> Value;
}

impl<C: Serialize + DeserializeOwned> Prop for Def<C> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn quota(&self, tier: &str) -> u64 {
        if tier == "thorough" { self.thorough } else { self.quick }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn assumptions(&self) -> &'static [&'static str] {
        self.assumptions
    }
    fn gen(&self, s: &mut Src) -> Value {
        serde_json::to_value((self.gen)(s)).expect("serializable case")
    }
    fn check(&self, case: &Value, env: &mut Env) -> Outcome {
        let c: C = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("unusable case file: {e}");
                process::exit(2);
            }
        };
        (self.check)(&c, env)
    }
    fn show(&self, case: &Value) -> Value {
        match serde_json::from_value(case.clone()) {
            Ok(c) => (self.show)(&c),
            Err(_) => case.clone(),
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{msg} at {loc}");
        if let Ok(mut p) = ANY_PANIC.lock() {
            *p = full.clone();
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = full);
    }));
}

/// Runs `f`, turning a panic (on any thread which propagates it here) into an `Err`
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if let Ok(mut p) = ANY_PANIC.lock() {
        p.clear();
    }
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|_| {
        ANY_PANIC.lock().map(|p| p.clone()).unwrap_or_default()
    })
}

pub fn checked(p: &dyn Prop, case: &Value, env: &mut Env) -> Outcome {
    match no_panic(|| p.check(case, env)) {
        Ok(o) => o,
        Err(m) => Outcome::Fail(format!("panic: {m}")),
    }
}

// ---------------------------------------------------------------- known findings

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct Finding {
    pub id: String,
    pub property: String,
    pub what: String,
    /// a concrete failing case, which is run every time
    pub case: Value,
    /// the case ends the process (a stack overflow)
    #[serde(default)]
    pub aborts: bool,
}

pub fn load_findings(root: &Path, prop: &str) -> Vec<Finding> {
    let Ok(s) = fs::read_to_string(root.join("known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    let all: Vec<Finding> = serde_json::from_value(v["findings"].clone()).expect("findings");
    all.into_iter().filter(|f| f.property == prop).collect()
}

// ---------------------------------------------------------------- shard

#[derive(Default, Serialize, Deserialize)]
struct ShardReport {
    evaluations: u64,
    nontrivial: Vec<u64>,
    tags: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    samples: Vec<Value>,
    fail: Option<(Value, String)>,
    shrink_evals: u64,
    /// cases which are mutations of cases that reached something new
    guided: u64,
    kept: u64,
    edges: u64,
    edges_total: u64,
}

/// What a case was generated from: these choices, and random ones after them
#[derive(Serialize, Deserialize)]
struct Origin(u64, Vec<u64>);

impl Origin {
    fn src(&self) -> Src {
        Src::extended(self.1.clone(), self.0)
    }
}

fn truncate(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 600 => {
            Value::String(s.chars().take(600).collect::<String>() + "…")
        }
        Value::Array(a) if a.len() > 40 => {
            let mut x: Vec<Value> = a.iter().take(40).map(truncate).collect();
            x.push(json!(format!("… {} more", a.len() - 40)));
            Value::Array(x)
        }
        Value::Array(a) => Value::Array(a.iter().map(truncate).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), truncate(v))).collect()),
        v => v.clone(),
    }
}

/// in-process shrinking
fn shrink(p: &dyn Prop, choices: Vec<u64>, env: &mut Env, budget: Duration) -> (Value, String, u64) {
    let mut evals = 0;
    let mut test = |c: &[u64]| -> Option<(Vec<u64>, Value, String)> {
        evals += 1;
        let mut s = Src::replay(c.to_vec());
        let v = no_panic(|| p.gen(&mut s)).ok()?;
        match checked(p, &v, env) {
            Outcome::Fail(m) => Some((s.rec, v, m)),
            _ => None,
        }
    };
    let r = shrink_with(choices, budget, &mut test);
    (r.1, r.2, evals)
}

type Tester<'a> = &'a mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, Value, String)>;

fn shrink_with(choices: Vec<u64>, budget: Duration, test: Tester) -> (Vec<u64>, Value, String) {
    let start = Instant::now();
    let mut best = test(&choices).unwrap_or((choices, Value::Null, "not reproducible".to_string()));
    if best.1.is_null() {
        return best;
    }
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        let mut size = best.0.len().max(1).next_power_of_two();
        while size >= 1 {
            let mut i = best.0.len().saturating_sub(size);
            loop {
                if start.elapsed() > budget {
                    return best;
                }
                if i + size <= best.0.len() {
                    let mut c = best.0.clone();
                    c.drain(i..i + size);
                    if let Some(b) = test(&c) {
                        if b.0.len() < best.0.len() || (b.0.len() == best.0.len() && b.0 < best.0) {
                            best = b;
                            progress = true;
                        }
                    } else if size > 1 && best.0[i..i + size].iter().any(|x| *x != 0) {
                        let mut c = best.0.clone();
                        c[i..i + size].iter_mut().for_each(|x| *x = 0);
                        if let Some(b) = test(&c) {
                            best = b;
                            progress = true;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.0.len() {
            let mut lo = 0;
            while lo < best.0[i] {
                if start.elapsed() > budget {
                    return best;
                }
                let mid = lo + (best.0[i] - lo) / 2;
                let mut c = best.0.clone();
                c[i] = mid;
                match test(&c) {
                    Some(b) if b.0.len() <= best.0.len() && i < b.0.len() => {
                        best = b;
                        progress = true;
                    }
                    _ => lo = mid + 1,
                }
                if i >= best.0.len() {
                    break;
                }
            }
            i += 1;
        }
    }
    best
}

pub struct Opts {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
}

fn shard_seed(o: &Opts, id: &str, shard: u64, i: u64) -> u64 {
    mix(mix(o.seed.wrapping_mul(0x1_0001) ^ hash_str(id), shard), i)
}

pub fn shard_main(p: &dyn Prop, o: &Opts, shard: u64, quota: u64, dir: &Path, deadline: Duration) {
    install_panic_hook();
    let start = Instant::now();
    let listed: HashSet<String> =
        load_findings(&o.root, p.id()).into_iter().map(|f| f.id).collect();
    let mut env = Env { scratch: dir.join("scratch"), n: 0 };
    fs::create_dir_all(&env.scratch).unwrap();
    let mut r = ShardReport::default();
    let mut seen = HashSet::new();
    let cur = dir.join("cur");
    let guided = env::var("VERIF_GUIDED").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
    let mut guide = Guide::new();
    for i in 0..quota {
        if start.elapsed() > deadline {
            break;
        }
        let seed = shard_seed(o, p.id(), shard, i);
        let mut rng = Rng::new(mix(seed, 0x6775));
        let mutant = if rng.next() % 100 < guided { guide.mutant(&mut rng) } else { None };
        r.guided += u64::from(mutant.is_some());
        let origin = Origin(seed, mutant.unwrap_or_default());
        fs::write(&cur, serde_json::to_string(&(i, &origin)).unwrap()).unwrap();
        let mut s = origin.src();
        let case = p.gen(&mut s);
        guide.reset();
        let outcome = checked(p, &case, &mut env);
        guide.learn(&s.rec, &s.bounds, &mut rng);
        r.evaluations += 1;
        let failure = match outcome {
            Outcome::Pass { nontrivial, tags } => {
                for t in tags {
                    *r.tags.entry(t).or_default() += 1;
                }
                if nontrivial {
                    let h = hash_str(&case.to_string());
                    if seen.insert(h) {
                        r.nontrivial.push(h);
                        if r.samples.len() < 2 || (r.samples.len() < 4 && i > quota / 2) {
                            r.samples.push(truncate(&p.show(&case)));
                        }
                    }
                }
                None
            }
            Outcome::Known(id, m) => {
                if listed.contains(id) {
                    let e = r.known.entry(id.to_string()).or_insert((0, m));
                    e.0 += 1;
                    None
                } else {
                    Some(format!("(unlisted finding {id}) {m}"))
                }
            }
            Outcome::Fail(m) => Some(m),
        };
        if let Some(m) = failure {
            // save it before shrinking, in case that doesn't end well
            fs::write(dir.join("fail.json"), json!([case, m]).to_string()).unwrap();
            let time = if env::var_os("VERIF_NO_SHRINK").is_some() { 0 } else { 25 };
            let (sc, sm, evals) = shrink(p, s.rec, &mut env, Duration::from_secs(time));
            r.shrink_evals = evals;
            r.fail = Some(if sc.is_null() { (case, m) } else { (sc, sm) });
            break;
        }
    }
    (r.kept, r.edges, r.edges_total) =
        (guide.corpus_len() as u64, guide.edges, guide.edges_total());
    let _ = fs::remove_dir_all(&env.scratch);
    fs::write(dir.join("report.json"), serde_json::to_string(&r).unwrap()).unwrap();
}

/// Run a single case; exits 0 (held), 1 (failed) or 3 (as the known finding says)
pub fn one_main(p: &dyn Prop, case: &Value) -> i32 {
    install_panic_hook();
    let scratch = scratch_dir(&format!("one-{}", process::id()));
    let mut env = Env { scratch: scratch.clone(), n: 0 };
    let r = checked(p, case, &mut env);
    let _ = fs::remove_dir_all(&scratch);
    match r {
        Outcome::Pass { .. } => {
            println!("held");
            0
        }
        Outcome::Known(id, m) => {
            println!("KNOWN {id}\n{m}");
            3
        }
        Outcome::Fail(m) => {
            println!("FAILED {m}");
            1
        }
    }
}

pub fn scratch_dir(name: &str) -> PathBuf {
    let base = env::temp_dir();
    let d = base.join(format!("csvpp-verif-{name}"));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

// ---------------------------------------------------------------- supervisor

fn limited(args: &[String]) -> process::Command {
    let exe = env::current_exe().unwrap();
    let mut c = process::Command::new("/bin/sh");
    c.arg("-c").arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(args);
    c.stdin(process::Stdio::null());
    c
}

#[derive(Debug)]
enum Ending {
    Exit(i32, String),
    Signal(i32, String),
    Timeout,
}

fn run_one(p: &dyn Prop, case: &Value, dir: &Path, timeout: Duration) -> Ending {
    use std::os::unix::process::ExitStatusExt;
    let f = dir.join("one.json");
    fs::write(&f, case.to_string()).unwrap();
    let out = dir.join("one.out");
    let mut child = limited(&["one".into(), p.id().into(), f.display().to_string()])
        .stdout(fs::File::create(&out).unwrap())
        .stderr(fs::File::create(dir.join("one.err")).unwrap())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let o = fs::read(&out).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
            let e = fs::read(dir.join("one.err"))
                .map(|b| String::from_utf8_lossy(&b).chars().take(400).collect::<String>())
                .unwrap_or_default();
            return match st.code() {
                Some(c) => Ending::Exit(c, o),
                None => Ending::Signal(st.signal().unwrap_or(0), e),
            };
        }
        if start.elapsed() > timeout {
            let _ = child.kill();
            let _ = child.wait();
            return Ending::Timeout;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn write_replay(o: &Opts, p: &dyn Prop, case: &Value, msg: &str) -> PathBuf {
    let dir = o.root.join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{:016x}.json", p.id(), hash_str(&case.to_string())));
    let v = json!({"property": p.id(), "case": case, "shown": p.show(case), "message": msg});
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn violation(o: &Opts, p: &dyn Prop, case: &Value, msg: &str) {
    let path = write_replay(o, p, case, msg);
    println!("{}", msg.chars().take(3000).collect::<String>());
    println!("{}", serde_json::to_string_pretty(&truncate(&p.show(case))).unwrap());
    println!("VIOLATION property={} replay={}", p.id(), path.display());
    let _ = std::io::stdout().flush();
}

/// shrinking with each candidate in it's own process (for cases which end the process)
fn shrink_in_processes(p: &dyn Prop, origin: &Origin, dir: &Path) -> Option<(Value, String)> {
    let mut s = origin.src();
    let _ = p.gen(&mut s);
    let mut test = |c: &[u64]| {
        let mut s = Src::replay(c.to_vec());
        let v = p.gen(&mut s);
        match run_one(p, &v, dir, Duration::from_secs(20)) {
            Ending::Signal(sig, e) => Some((s.rec, v, format!("the process was ended by signal {sig}: {e}"))),
            Ending::Timeout => Some((s.rec, v, "no result within 20 s".to_string())),
            Ending::Exit(1, o) => Some((s.rec, v, o)),
            Ending::Exit(..) => None,
        }
    };
    let r = shrink_with(s.rec, Duration::from_secs(60), &mut test);
    if r.1.is_null() { None } else { Some((r.1, r.2)) }
}

pub fn supervise(p: &dyn Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let scratch = scratch_dir(&format!("{}-{}", p.id(), process::id()));
    let code = supervise_in(p, o, &scratch, start);
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn supervise_in(p: &dyn Prop, o: &Opts, scratch: &Path, start: Instant) -> i32 {
    install_panic_hook();
    let mut violations = 0;
    let mut known_lines = vec![];
    let mut total = ShardReport::default();

    // pinned cases of the known findings
    let findings = load_findings(&o.root, p.id());
    for f in &findings {
        total.evaluations += 1;
        let end = run_one(p, &f.case, scratch, Duration::from_secs(60));
        match end {
            Ending::Exit(3, out) if out.starts_with(&format!("KNOWN {}\n", f.id)) => {
                known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id(), f.what));
            }
            Ending::Signal(..) if f.aborts => {
                known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id(), f.what));
            }
            Ending::Exit(0, _) => eprintln!("note: known finding {} no longer occurs", f.id),
            e => {
                violations += 1;
                violation(o, p, &f.case, &format!("the case of known finding {} now ends: {e:?}", f.id));
            }
        }
    }
    // regression cases
    let mut regress: Vec<PathBuf> = fs::read_dir(o.root.join("regress").join(p.id()))
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    regress.sort();
    for f in &regress {
        let v: Value = serde_json::from_str(&fs::read_to_string(f).unwrap()).expect("regression case");
        let case = if v.get("case").is_some() { v["case"].clone() } else { v };
        total.evaluations += 1;
        match run_one(p, &case, scratch, Duration::from_secs(60)) {
            Ending::Exit(0 | 3, _) => (),
            Ending::Exit(1, out) => {
                violations += 1;
                violation(o, p, &case, &out);
            }
            e => {
                violations += 1;
                violation(o, p, &case, &format!("regression case {} ended: {e:?}", f.display()));
            }
        }
    }
    let pinned_s = start.elapsed().as_secs_f64();

    if violations == 0 {
        let shards = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8) as u64;
        // (both of these are for trying things out)
        let part = env::var("VERIF_PERCENT").ok().and_then(|v| v.parse().ok()).unwrap_or(100);
        let quota = (p.quota(&o.tier) * part / 100).div_ceil(shards);
        let deadline = if o.tier == "thorough" { 640 } else { 130 };
        let stuck_after = Duration::from_secs(25);
        let mut children = vec![];
        for s in 0..shards {
            let dir = scratch.join(format!("s{s}"));
            fs::create_dir_all(&dir).unwrap();
            let args = [
                "shard".to_string(), p.id().to_string(), o.tier.clone(), o.seed.to_string(),
                s.to_string(), quota.to_string(), dir.display().to_string(), deadline.to_string(),
            ];
            let child = limited(&args)
                .env("RAYON_NUM_THREADS", "3")
                .stdout(process::Stdio::null())
                .stderr(fs::File::create(dir.join("err")).unwrap())
                .spawn()
                .unwrap();
            children.push((s, child, dir, String::new(), Instant::now(), false));
        }
        let mut stop = false;
        loop {
            let mut running = 0;
            for (s, child, dir, last, since, done) in &mut children {
                if *done {
                    continue;
                }
                if stop {
                    let _ = child.kill();
                    let _ = child.wait();
                    *done = true;
                    continue;
                }
                let status = child.try_wait().unwrap();
                let cur = fs::read_to_string(dir.join("cur")).unwrap_or_default();
                let mut suspect = None;
                if let Some(st) = status {
                    *done = true;
                    if st.success() {
                        continue;
                    }
                    suspect = Some(format!("shard {s} ended with {st}"));
                } else {
                    running += 1;
                    if cur != *last {
                        *last = cur.clone();
                        *since = Instant::now();
                    } else if since.elapsed() > stuck_after && !dir.join("fail.json").exists() {
                        let _ = child.kill();
                        let _ = child.wait();
                        *done = true;
                        suspect = Some(format!("shard {s} was stuck on one case for {stuck_after:?}"));
                    }
                }
                if let Some(why) = suspect {
                    // a failure it found before ending?
                    if let Some((case, m)) = fs::read_to_string(dir.join("fail.json"))
                        .ok()
                        .and_then(|s| serde_json::from_str::<(Value, String)>(&s).ok())
                    {
                        violations += 1;
                        violation(o, p, &case, &m);
                        stop = true;
                        continue;
                    }
                    let err = fs::read_to_string(dir.join("err")).unwrap_or_default();
                    let Ok((_, origin)) = serde_json::from_str::<(u64, Origin)>(&cur) else {
                        eprintln!("error: {why} before its first case: {err}");
                        return 2;
                    };
                    let case = p.gen(&mut origin.src());
                    let end = run_one(p, &case, scratch, Duration::from_secs(90));
                    match end {
                        Ending::Exit(0 | 3, _) => {
                            eprintln!("note: {why}, but its case holds when run alone: {err}");
                        }
                        e => {
                            violations += 1;
                            let (c, m) = shrink_in_processes(p, &origin, scratch)
                                .unwrap_or((case, format!("{why}; alone: {e:?}")));
                            violation(o, p, &c, &m);
                            stop = true;
                        }
                    }
                }
            }
            if running == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(30));
        }
        let mut seen = HashSet::new();
        let mut reported = false;
        for (_, _, dir, ..) in &children {
            let Some(r) = fs::read_to_string(dir.join("report.json"))
                .ok()
                .and_then(|s| serde_json::from_str::<ShardReport>(&s).ok())
            else {
                continue;
            };
            total.evaluations += r.evaluations;
            total.shrink_evals += r.shrink_evals;
            total.guided += r.guided;
            total.kept += r.kept;
            total.edges = total.edges.max(r.edges);
            total.edges_total = r.edges_total;
            seen.extend(r.nontrivial);
            for (k, v) in r.tags {
                *total.tags.entry(k).or_default() += v;
            }
            for (k, (n, m)) in r.known {
                total.known.entry(k).or_insert((0, m)).0 += n;
            }
            if total.samples.len() < 8 {
                total.samples.extend(r.samples.into_iter().take(2));
            }
            if let Some((case, m)) = r.fail {
                if !reported && violations == 0 {
                    violation(o, p, &case, &m);
                    reported = true;
                }
                violations += 1;
            }
        }
        total.nontrivial = seen.into_iter().collect();
    }

    for l in &known_lines {
        println!("{l}");
    }
    let evidence = json!({
        "property": p.id(),
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": p.rule(),
            "samples": total.samples,
            "classes": total.tags,
            "pinned_cases": findings.len() + regress.len(),
            "pinned_s": pinned_s,
            "known_findings_seen": total.known.iter().map(|(k, (n, m))| (k.clone(), json!({"count": n, "example": m.chars().take(300).collect::<String>()}))).collect::<serde_json::Map<String, Value>>(),
            "shrink_evaluations": total.shrink_evals,
            "guided_cases": total.guided,
            "kept_for_coverage": total.kept,
            "edges_reached": total.edges,
            "edges_total": total.edges_total,
        },
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    fs::create_dir_all(o.root.join("evidence")).unwrap();
    fs::write(
        o.root.join("evidence").join(format!("{}.json", p.id())),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
        p.id(), o.tier, total.evaluations, total.nontrivial.len(), violations, start.elapsed().as_secs_f64()
    );
    i32::from(violations > 0)
}
