//! Case runner: proptest generation and shrinking, sharding over processes, deterministic entropy,
//! evidence, replay files, known findings.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Res<T> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::runner::fail($sig, format!($($arg)*)); }
    };
}

/// A single case that takes longer counts as one that does not end (the longest takes a tenth of that).
const HANG_S: u64 = 240;

static IN_SUT: AtomicBool = AtomicBool::new(false);

/// Runs code of the system under test; a panic becomes a failure of the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    let was = IN_SUT.swap(true, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.store(was, Ordering::SeqCst);
    match r {
        Ok(v) => Ok(v),
        Err(e) if e.is::<Fail>() => Err(e.downcast_ref::<Fail>().unwrap().clone()),
        Err(e) => fail("panic", format!("{} panicked: {}", what, panic_text(&e))),
    }
}

/// As `sut`, for helpers that give back plain values: the failure travels to the end of the case as a panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match sut(what, f) {
        Ok(v) => v,
        Err(f) => std::panic::panic_any(f),
    }
}

/// Where the last panic outside `sut` came from.
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    };
    s.chars().take(400).collect()
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Obs {
    pub evals: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    #[serde(skip)]
    pub hashes: HashSet<u64>,
    #[serde(skip)]
    pub known_list: Vec<(String, String)>,
}

impl Obs {
    /// One more evaluation of the oracle inside the current case.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn class(&mut self, name: impl Into<String>) {
        *self.classes.entry(name.into()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    /// The current case (or step) is non-trivial; `key` identifies it.
    pub fn nontrivial(&mut self, key: impl Hash) {
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        self.hashes.insert(h.finish());
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let t = s();
            self.samples.push(t.chars().take(600).collect());
        }
    }
    /// A violation that may be a listed known finding: recorded and passed over if so.
    pub fn finding(&mut self, sig: &str, msg: impl Into<String>) -> Res {
        let msg = msg.into();
        if let Some((_, what)) = self.known_list.iter().find(|(s, _)| s == sig) {
            let e = self.known.entry(sig.to_string()).or_insert((0, what.clone()));
            e.0 += 1;
            return Ok(());
        }
        fail(sig, msg)
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        for (k, (n, w)) in o.known {
            self.known.entry(k).or_insert((0, w)).0 += n;
        }
        self.hashes.extend(o.hashes);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Deserialize, Clone)]
struct ReplayFile {
    property: String,
    family: String,
    rng: u64,
    case: serde_json::Value,
    message: String,
    signature: String,
    how: String,
}

#[derive(Serialize, Deserialize, Default)]
struct ShardOut {
    obs: BTreeMap<String, Obs>,
    cases: BTreeMap<String, u64>,
    violation: Option<String>, // replay path
    message: String,
}

enum Mode {
    Parent,
    Shard { index: usize, of: usize, out: PathBuf },
    Replay(ReplayFile),
}

pub struct Prop {
    pub id: &'static str,
    rule: &'static str,
    assumptions: Vec<&'static str>,
    level: &'static str,
    mode: Mode,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    known: Vec<(String, String)>,
    out: ShardOut,
    hashes: HashSet<u64>,
    shards: usize,
    only: Option<String>,
    replay_hit: bool,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Scratch directory of this process.
pub fn scratch() -> PathBuf {
    let d = verif_dir().join("work").join(format!("scratch-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // lines: "known: property=C31 signature=<sig> <what fails>"; "fixed:" lines suppress nothing
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, s, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                if let Some(sig) = s.strip_prefix("signature=") {
                    v.push((sig.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn str_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

impl Prop {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let tier = match get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
        let mode = if let Some(f) = get("--replay") {
            let t = std::fs::read_to_string(&f).unwrap_or_else(|e| {
                eprintln!("cannot read {}: {}", f, e);
                std::process::exit(2)
            });
            Mode::Replay(serde_json::from_str(&t).expect("replay file"))
        } else if let Some(i) = get("--shard") {
            Mode::Shard {
                index: i.parse().unwrap(),
                of: get("--of").unwrap().parse().unwrap(),
                out: PathBuf::from(get("--out").unwrap()),
            }
        } else {
            Mode::Parent
        };
        std::panic::set_hook(Box::new(|info| {
            if !IN_SUT.load(Ordering::SeqCst) && !info.payload().is::<Fail>() {
                if let Some(l) = info.location() {
                    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = l.file().to_string();
                }
                eprintln!("harness panic: {}", info);
                if std::env::var("VERIF_BT").is_ok() {
                    eprintln!("{}", std::backtrace::Backtrace::force_capture());
                }
            }
        }));
        Prop {
            id,
            rule,
            assumptions: vec![],
            level: "exploration",
            mode,
            tier,
            seed,
            start: Instant::now(),
            known: load_known(id),
            out: ShardOut::default(),
            hashes: HashSet::new(),
            shards: 8,
            only: get("--family"),
            replay_hit: false,
        }
    }

    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }

    pub fn shards(mut self, n: usize) -> Self {
        self.shards = n;
        self
    }

    /// A family of generated cases with its oracle. `cases` = (quick, thorough), summed over shards.
    pub fn family<C, S, F>(&mut self, name: &str, cases: (u32, u32), strategy: S, test: F)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
        S: Strategy<Value = C>,
        F: Fn(&C, &mut Obs) -> Res + Sync,
    {
        self.family_opts(name, cases, 400, strategy, test)
    }

    pub fn family_opts<C, S, F>(&mut self, name: &str, cases: (u32, u32), max_shrink: u32, strategy: S, test: F)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
        S: Strategy<Value = C>,
        F: Fn(&C, &mut Obs) -> Res + Sync,
    {
        if self.out.violation.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        match &self.mode {
            Mode::Parent => {}
            Mode::Replay(r) => {
                if r.family == name {
                    self.replay_hit = true;
                    let case: C = serde_json::from_value(r.case.clone()).expect("case");
                    let mut obs = Obs { known_list: self.known.clone(), ..Default::default() };
                    println!("replaying {} / {}: {:?}", self.id, name, case);
                    match run_case(&case, r.rng, &test, &mut obs) {
                        Ok(()) => println!("the case passes"),
                        Err(f) => {
                            println!("FAILS [{}]: {}", f.sig, f.msg);
                            self.out.violation = Some("given".into());
                        }
                    }
                }
            }
            Mode::Shard { index, of, out } => {
                let (index, of) = (*index, *of);
                let current = out.with_extension(format!("current"));
                let total = if self.tier == Tier::Quick { cases.0 } else { cases.1 };
                let n = total / of as u32 + if (index as u32) < total % of as u32 { 1 } else { 0 };
                if n == 0 {
                    return;
                }
                let s0 = mix(self.seed ^ mix(str_hash(self.id) ^ mix(str_hash(name) ^ mix(index as u64))));
                let mut seed = [0u8; 32];
                for i in 0..4 {
                    seed[i * 8..i * 8 + 8].copy_from_slice(&mix(s0.wrapping_add(i as u64 * 77)).to_le_bytes());
                }
                let cfg = Config {
                    cases: n,
                    failure_persistence: None,
                    max_shrink_iters: max_shrink,
                    max_global_rejects: 1_000_000,
                    ..Config::default()
                };
                let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                let obs = RefCell::new(Obs { known_list: self.known.clone(), ..Default::default() });
                let failed = RefCell::new(false);
                let count = RefCell::new(0u64);
                let (start, soft) = (self.start, Duration::from_secs(self.limit() * 2 / 3));
                let shrink_start: RefCell<Option<Instant>> = RefCell::new(None);
                let id = self.id;
                let strat = (proptest::strategy::Strategy::no_shrink(proptest::num::u64::ANY), strategy);
                let res = runner.run(&strat, |(rng, case)| {
                    let shrinking = *failed.borrow();
                    if shrinking && shrink_start.borrow().map_or(false, |t| t.elapsed() > Duration::from_secs(60)) {
                        return Ok(()); // stop shrinking, keep the smallest failure so far
                    }
                    if !shrinking && start.elapsed() > soft {
                        return Ok(()); // a slow machine: the evidence tells how many cases there were
                    }
                    let rf = ReplayFile {
                        property: id.into(),
                        family: name.into(),
                        rng,
                        case: serde_json::to_value(&case).expect("serialise case"),
                        message: String::new(),
                        signature: String::new(),
                        how: String::new(),
                    };
                    let _ = std::fs::write(&current, serde_json::to_vec(&rf).unwrap());
                    let mut scratch_obs;
                    let mut main_obs;
                    let o: &mut Obs = if shrinking {
                        scratch_obs = Obs { known_list: obs.borrow().known_list.clone(), ..Default::default() };
                        &mut scratch_obs
                    } else {
                        *count.borrow_mut() += 1;
                        main_obs = obs.borrow_mut();
                        &mut main_obs
                    };
                    match run_case(&case, rng, &test, o) {
                        Ok(()) => Ok(()),
                        Err(f) => {
                            if !shrinking {
                                *shrink_start.borrow_mut() = Some(Instant::now());
                            }
                            *failed.borrow_mut() = true;
                            Err(TestCaseError::fail(serde_json::to_string(&f).unwrap()))
                        }
                    }
                });
                let _ = std::fs::remove_file(&current);
                let obs = obs.into_inner();
                self.hashes.extend(obs.hashes.iter());
                *self.out.cases.entry(name.into()).or_insert(0) += *count.borrow();
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, (rng, case))) => {
                        let f: Fail = serde_json::from_str(reason.message())
                            .unwrap_or(Fail { sig: "?".into(), msg: reason.message().to_string() });
                        let path = write_replay(self.id, name, rng, serde_json::to_value(&case).unwrap(), &f);
                        self.out.violation = Some(path);
                        self.out.message = format!("[{}] {} | case: {:?}", f.sig, f.msg, case);
                    }
                    Err(TestError::Abort(r)) => {
                        eprintln!("harness error: generator aborted: {}", r.message());
                        std::process::exit(2);
                    }
                }
                self.out.obs.insert(name.into(), obs);
            }
        }
    }

    pub fn finish(mut self) -> ! {
        match &self.mode {
            Mode::Replay(_) => {
                cleanup_scratch();
                if !self.replay_hit {
                    eprintln!("no such family in the replay file");
                    std::process::exit(2);
                }
                std::process::exit(if self.out.violation.is_some() { 1 } else { 0 });
            }
            Mode::Shard { out, .. } => {
                let mut bytes = vec![];
                for h in &self.hashes {
                    bytes.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(out.with_extension("hashes"), bytes).unwrap();
                std::fs::write(out, serde_json::to_vec(&self.out).unwrap()).unwrap();
                cleanup_scratch();
                std::process::exit(if self.out.violation.is_some() { 1 } else { 0 });
            }
            Mode::Parent => {
                let code = self.parent();
                std::process::exit(code);
            }
        }
    }

    /// Seconds after which an answer is given at the latest; from two thirds on no further cases are started.
    fn limit(&self) -> u64 {
        std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if self.tier == Tier::Quick { 720 } else { 12 * 3600 })
    }

    fn parent(&mut self) -> i32 {
        let dir = verif_dir().join("work").join(format!("{}-{}", self.id, std::process::id()));
        std::fs::create_dir_all(&dir).expect("work dir");
        let exe = std::env::current_exe().unwrap();
        let limit = self.limit();
        let n = self.shards;
        let mut children = vec![];
        for i in 0..n {
            let out = dir.join(format!("shard{}.json", i));
            let mut cmd = std::process::Command::new(&exe);
            cmd.args(["--shard", &i.to_string(), "--of", &n.to_string(), "--out", out.to_str().unwrap()])
                .args(["--seed", &self.seed.to_string()])
                .args(["--tier", if self.tier == Tier::Quick { "quick" } else { "thorough" }])
                .env("OMP_NUM_THREADS", "1")
                .env("MKL_NUM_THREADS", "1")
                .env("RAYON_NUM_THREADS", "1")
                .env("RUST_BACKTRACE", "0")
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::File::create(dir.join(format!("shard{}.err", i))).unwrap());
            if let Some(o) = &self.only {
                cmd.args(["--family", o]);
            }
            children.push((i, out, cmd.spawn().expect("spawn shard"), None::<std::process::ExitStatus>));
        }
        let mut timeout = false;
        let mut stuck = vec![];
        loop {
            let mut running = 0;
            let mut violated = false;
            for c in children.iter_mut() {
                if c.3.is_none() {
                    match c.2.try_wait().expect("wait") {
                        Some(st) => {
                            c.3 = Some(st);
                        }
                        None => {
                            running += 1;
                            // one case that does not come to an end
                            let age = std::fs::metadata(c.1.with_extension("current")).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
                            if age.map_or(false, |a| a > Duration::from_secs(HANG_S)) {
                                if let Some(rf) = std::fs::read(c.1.with_extension("current")).ok().and_then(|b| serde_json::from_slice::<ReplayFile>(&b).ok()) {
                                    stuck.push(rf);
                                }
                            }
                        }
                    }
                }
                if c.3.map_or(false, |s| s.code() == Some(1)) {
                    violated = true;
                }
            }
            if running == 0 {
                break;
            }
            timeout = self.start.elapsed() > Duration::from_secs(limit);
            if violated || timeout || !stuck.is_empty() {
                for c in children.iter_mut() {
                    if c.3.is_none() {
                        let _ = c.2.kill();
                        let _ = c.2.wait();
                        let _ = std::fs::remove_dir_all(verif_dir().join("work").join(format!("scratch-{}", c.2.id())));
                    }
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let mut merged: BTreeMap<String, Obs> = BTreeMap::new();
        let mut cases: BTreeMap<String, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut violation: Option<(String, String)> = None;
        let mut error = timeout || !stuck.is_empty();
        if let Some(rf) = stuck.into_iter().next() {
            let f = Fail { sig: "hang".into(), msg: format!("the case does not end within {} s", HANG_S) };
            let path = write_replay(self.id, &rf.family, rf.rng, rf.case.clone(), &f);
            // confirm on that one case alone
            let mut c = std::process::Command::new(&exe).args(["--replay", &path])
                .env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").env("RAYON_NUM_THREADS", "1")
                .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("spawn");
            let t = Instant::now();
            loop {
                match c.try_wait().expect("wait") {
                    Some(st) if st.code() == Some(1) => {
                        violation = Some((path, format!("[{}] family {}", f.msg, rf.family)));
                        break;
                    }
                    Some(_) => {
                        let _ = std::fs::remove_file(&path);
                        break;
                    }
                    None if t.elapsed() > Duration::from_secs(HANG_S) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        let _ = std::fs::remove_dir_all(verif_dir().join("work").join(format!("scratch-{}", c.id())));
                        violation = Some((path, format!("[hang] {} family {}", f.msg, rf.family)));
                        break;
                    }
                    None => std::thread::sleep(Duration::from_millis(50)),
                }
            }
        }
        for (i, out, child, st) in &children {
            let st = match st {
                Some(s) => s,
                None => continue,
            };
            let _ = std::fs::remove_dir_all(verif_dir().join("work").join(format!("scratch-{}", child.id())));
            match std::fs::read(out).ok().and_then(|b| serde_json::from_slice::<ShardOut>(&b).ok()) {
                Some(so) => {
                    for (k, o) in so.obs {
                        merged.entry(k).or_default().merge(o);
                    }
                    for (k, v) in so.cases {
                        *cases.entry(k).or_insert(0) += v;
                    }
                    if let Some(p) = so.violation {
                        violation.get_or_insert((p, so.message));
                    }
                    for c in std::fs::read(out.with_extension("hashes")).unwrap_or_default().chunks_exact(8) {
                        hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
                None => {
                    // the shard died: a crash of the code under test, or an error of the harness
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.signal();
                    let cur = std::fs::read(out.with_extension("current")).ok().and_then(|b| serde_json::from_slice::<ReplayFile>(&b).ok());
                    if let (Some(s @ (4 | 6 | 8 | 11 | 7)), Some(rf)) = (sig, cur) {
                        let f = Fail { sig: "crash".into(), msg: format!("process died with signal {}", s) };
                        let path = write_replay(self.id, &rf.family, rf.rng, rf.case.clone(), &f);
                        // confirm on that one case alone
                        let st2 = std::process::Command::new(&exe).args(["--replay", &path])
                            .env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").env("RAYON_NUM_THREADS", "1")
                            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
                        if st2.ok().and_then(|s2| s2.signal()) == Some(s) {
                            violation.get_or_insert((path, format!("[crash] {} family {}", f.msg, rf.family)));
                            continue;
                        }
                        let _ = std::fs::remove_file(&path);
                    }
                    eprintln!("shard {} ended without a result: {:?}", i, st);
                    eprintln!("{}", std::fs::read_to_string(dir.join(format!("shard{}.err", i))).unwrap_or_default());
                    error = true;
                }
            }
        }
        let wall = self.start.elapsed().as_secs_f64();
        let evaluations: u64 = cases.values().sum::<u64>() + merged.values().map(|o| o.evals).sum::<u64>();
        let mut samples = vec![];
        let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut fams = serde_json::Map::new();
        for (k, o) in &merged {
            for s in o.samples.iter().take(2) {
                samples.push(format!("{}: {}", k, s));
            }
            for (s, (n, w)) in &o.known {
                known.entry(s.clone()).or_insert((0, w.clone())).0 += n;
            }
            fams.insert(k.clone(), serde_json::json!({
                "cases": cases.get(k), "oracle_steps": o.evals, "classes": o.classes }));
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": hashes.len(),
                "rule": self.rule,
                "samples": samples,
                "families": fams,
                "known_findings_met": known.iter().map(|(k, (n, _))| format!("{} x{}", k, n)).collect::<Vec<_>>(),
                "shards": n,
            },
            "assumptions": self.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": if violation.is_some() { 1 } else { 0 },
        });
        let evd = verif_dir().join("evidence");
        std::fs::create_dir_all(&evd).expect("evidence dir");
        std::fs::write(evd.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        let _ = std::fs::remove_dir_all(&dir);
        for (_, (n, w)) in &known {
            println!("KNOWN-FINDING: property={} {} ({} cases)", self.id, w, n);
        }
        if let Some((path, msg)) = violation {
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        if error {
            println!("ERROR property={}: {}", self.id, if timeout { "time limit reached, inconclusive" } else { "a shard failed" });
            return 3;
        }
        println!("{} holds on {} evaluations ({} distinct non-trivial), {:.1}s", self.id, evaluations, hashes.len(), wall);
        if std::env::var("VERIF_VERBOSE").is_ok() {
            println!("{}", serde_json::to_string_pretty(&ev["coverage"]["families"]).unwrap());
        }
        0
    }
}

fn cleanup_scratch() {
    let _ = std::fs::remove_dir_all(verif_dir().join("work").join(format!("scratch-{}", std::process::id())));
}

fn write_replay(id: &str, family: &str, rng: u64, case: serde_json::Value, f: &Fail) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = case.to_string();
    let path = dir.join(format!("{}-{}-{:016x}.json", id, family, mix(str_hash(&body) ^ rng)));
    let rf = ReplayFile {
        property: id.into(),
        family: family.into(),
        rng,
        case,
        message: f.msg.clone(),
        signature: f.sig.clone(),
        how: format!("/verif/run.sh {} replay {}", id, path.display()),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).expect("replay file");
    path.display().to_string()
}

/// One case in a fresh thread, with the entropy stream restarted from `rng`.
fn run_case<C, F>(case: &C, rng: u64, test: &F, obs: &mut Obs) -> Res
where
    C: Clone + Debug + Send + 'static,
    F: Fn(&C, &mut Obs) -> Res + Sync,
{
    getrandom::verif_reseed(mix(rng));
    let own = case.clone();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                tch::manual_seed((rng >> 1) as i64);
                test(&own, obs)
            })
            .expect("spawn")
            .join()
    });
    match r {
        Ok(r) => r,
        Err(e) => {
            if let Some(f) = e.downcast_ref::<Fail>() {
                return Err(f.clone());
            }
            // a panic raised by a line of the code under test is its own, wherever it was called from
            if LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).contains("/repo/src/") {
                return fail("panic", format!("the code under test panicked: {}", panic_text(&e)));
            }
            eprintln!("harness error: panic outside the code under test in case {:?}", case);
            std::process::exit(2);
        }
    }
}

/// Runs `f` in a fresh one-thread rayon pool so that parallel iterators are deterministic.
pub fn one_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).build().expect("pool").install(f)
}

/// Runs `f` in a fresh thread whose entropy (also torch's) starts from `seed`: same seed, same randomness.
pub fn with_entropy<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    getrandom::verif_reseed(mix(seed));
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                tch::manual_seed((seed >> 1) as i64);
                f()
            })
            .expect("spawn")
            .join()
    });
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// The same for things that are not Send (networks); the calling thread only waits.
pub fn with_entropy_here<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    struct Lent<X>(X);
    unsafe impl<X> Send for Lent<X> {}
    impl<X> Lent<X> {
        fn get(self) -> X {
            self.0
        }
    }
    let f = Lent(f);
    with_entropy(seed, move || Lent(f.get()())).get()
}

pub fn write_text(path: &Path, text: &str) {
    std::fs::write(path, text).expect("write");
}
