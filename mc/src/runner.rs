//! Case runner: a check is a deterministic enumeration of cases. The parent process
//! splits it over worker processes (case index modulo worker count), survives crashes and
//! hangs of the code under test, aggregates coverage and writes the evidence file.
use crate::alloc;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static str,
    pub run: fn(&mut Ctx),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Only(u64),
    Replay(String),
}

/// A violation found in one case.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub tier: Tier,
    worker: u64,
    nworkers: u64,
    skip_to: u64,
    idx: u64,
    mode: Mode,
    shm: *mut u64,
    describe: bool,
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    distinct: BTreeSet<u64>,
    groups: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    n_viols: u64,
    seen_what: BTreeMap<String, u32>,
}

pub struct CaseOut {
    /// Distinguishes outcomes, for the count of distinct non-trivial evaluations.
    pub class: u64,
    pub states: u64,
    pub transitions: u64,
}
impl Default for CaseOut {
    fn default() -> Self {
        CaseOut { class: 0, states: 1, transitions: 1 }
    }
}
pub type CaseResult = Result<CaseOut, String>;
pub fn ok() -> CaseResult {
    Ok(CaseOut::default())
}
pub fn ok_class(c: u64) -> CaseResult {
    Ok(CaseOut { class: c, ..Default::default() })
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

static SHM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Notes the input a case with many of them is at: it's reported if the process dies or hangs.
pub fn at(input: &[u8]) {
    let p = SHM.load(std::sync::atomic::Ordering::Relaxed) as *mut u64;
    if p.is_null() {
        return;
    }
    let n = input.len().min(1000);
    unsafe {
        let q = p.add(1);
        std::ptr::write_volatile(q, std::ptr::read_volatile(q).wrapping_add(1));
        std::ptr::write_volatile(p.add(2), n as u64);
        std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(3) as *mut u8, n);
    }
}
fn noted(p: *mut u64) -> String {
    unsafe {
        let n = std::ptr::read_volatile(p.add(2)).min(1000) as usize;
        if n == 0 {
            return String::new();
        }
        format!(" at input {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(p.add(3) as *const u8, n)))
    }
}

/// Catch a panic of the code under test; Err(message with location).
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            drop(p);
            let on = alloc::pause();
            let m = PANIC_MSG.lock().unwrap().clone();
            alloc::resume(on);
            Err(m)
        }
    }
}
/// True if the last caught panic originated in this harness rather than the code under test.
pub fn panic_in_harness(msg: &str) -> bool {
    msg.contains("@src/")
}

/// Run with allocation tracking; the closure must drop everything it created before returning
/// (its return value must not own heap memory: use `untracked` for messages).
pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, alloc::Report) {
    alloc::start();
    let r = f();
    let rep = alloc::stop();
    (r, rep)
}
/// Run harness bookkeeping outside of tracking.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let on = alloc::pause();
    let r = f();
    alloc::resume(on);
    r
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// One case. `desc` must identify it uniquely and replayably; `body` decides it.
    pub fn case(&mut self, group: &str, desc: &dyn Fn() -> String, body: impl FnOnce() -> CaseResult) {
        let idx = self.idx;
        self.idx += 1;
        match &self.mode {
            Mode::Run => {
                if idx % self.nworkers != self.worker || idx < self.skip_to {
                    return;
                }
            }
            Mode::Only(k) => {
                if idx != *k {
                    return;
                }
            }
            Mode::Replay(s) => {
                if *s != format!("{group}: {}", desc()) {
                    return;
                }
            }
        }
        if self.describe {
            println!("DESC {group}: {}", desc());
            std::process::exit(0);
        }
        if !self.shm.is_null() {
            unsafe {
                std::ptr::write_volatile(self.shm.add(2), 0);
                std::ptr::write_volatile(self.shm, idx + 1)
            };
        }
        let r = match catching(body) {
            Ok(r) => r,
            Err(m) => {
                if alloc::is_on() {
                    alloc::stop();
                }
                if panic_in_harness(&m) {
                    Err(format!("HARNESS PANIC {m}"))
                } else {
                    Err(format!("panic: {m}"))
                }
            }
        };
        let r = r.map_err(|m| match m.char_indices().nth(2000) {
            Some((i, _)) => format!("{} ..", &m[..i]),
            None => m,
        });
        self.evals += 1;
        *self.groups.entry(group.to_string()).or_default() += 1;
        match r {
            Ok(o) => {
                self.states += o.states;
                self.transitions += o.transitions;
                if o.class != 0 && self.distinct.len() < 2_000_000 {
                    self.distinct.insert(o.class);
                }
                if self.samples.len() < 6 && idx % 7 == 3 {
                    self.samples.push(format!("{group}: {}", desc()));
                }
            }
            Err(what) => {
                self.n_viols += 1;
                // keep all distinct kinds, few of each
                let kind: String = what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                let c = self.seen_what.entry(format!("{group}|{kind}")).or_default();
                *c += 1;
                if *c <= 40 && self.viols.len() < 4000 {
                    let what = String::from_utf8_lossy(what.as_bytes()).into_owned();
                    self.viols.push(Viol { key: format!("{group}: {}", desc()), what });
                }
            }
        }
    }
    pub fn note_states(&mut self, s: u64, t: u64) {
        if self.worker == 0 {
            self.states += s;
            self.transitions += t;
        }
    }
}

fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let on = alloc::pause();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = format!("{msg} @{loc}");
        }
        alloc::resume(on);
    }));
}

fn set_limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
}

fn shm_open(path: &str) -> *mut u64 {
    unsafe {
        let c = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR);
        assert!(fd >= 0);
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        libc::close(fd);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

fn new_ctx(tier: Tier, worker: u64, nworkers: u64, mode: Mode) -> Ctx {
    Ctx {
        tier,
        worker,
        nworkers,
        skip_to: 0,
        idx: 0,
        mode,
        shm: std::ptr::null_mut(),
        describe: false,
        evals: 0,
        states: 0,
        transitions: 0,
        validated: 0,
        distinct: BTreeSet::new(),
        groups: BTreeMap::new(),
        samples: vec![],
        viols: vec![],
        n_viols: 0,
        seen_what: BTreeMap::new(),
    }
}

pub fn main(chk: Check) {
    let args: Vec<String> = std::env::args().collect();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") || args.iter().any(|a| a == "--thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker_main(&chk, tier, &args),
        Some("--describe") => {
            install_hook();
            let mut c = new_ctx(tier, 0, 1, Mode::Only(args[2].parse().unwrap()));
            c.describe = true;
            (chk.run)(&mut c);
        }
        Some("--replay") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&f).unwrap();
            install_hook();
            set_limits();
            let t = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let mut c = new_ctx(t, 0, 1, Mode::Replay(v["case"].as_str().unwrap().to_string()));
            (chk.run)(&mut c);
            println!("replayed {} case(s)", c.evals);
            for v in &c.viols {
                println!("{}\n  {}", v.key, v.what);
            }
            std::process::exit(if c.n_viols > 0 { 1 } else { 0 });
        }
        _ => parent_main(&chk, tier),
    }
}

fn worker_main(chk: &Check, tier: Tier, args: &[String]) {
    // --worker i n shm skip_to
    let mut c = new_ctx(tier, args[2].parse().unwrap(), args[3].parse().unwrap(), Mode::Run);
    c.shm = shm_open(&args[4]);
    SHM.store(c.shm as usize, std::sync::atomic::Ordering::Relaxed);
    c.skip_to = args[5].parse().unwrap();
    install_hook();
    set_limits();
    (chk.run)(&mut c);
    unsafe { std::ptr::write_volatile(c.shm, u64::MAX) };
    let mut out = String::new();
    write!(
        out,
        "{{\"total\":{},\"evals\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"n_viols\":{},\"distinct\":[{}],",
        c.idx,
        c.evals,
        c.states,
        c.transitions,
        c.validated,
        c.n_viols,
        c.distinct.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    let g: Vec<String> = c.groups.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let s: Vec<String> = c.samples.iter().map(|x| jstr(x)).collect();
    let v: Vec<String> =
        c.viols.iter().map(|v| format!("{{\"key\":{},\"what\":{}}}", jstr(&v.key), jstr(&v.what))).collect();
    write!(out, "\"groups\":{{{}}},\"samples\":[{}],\"viols\":[{}]}}", g.join(","), s.join(","), v.join(",")).unwrap();
    std::io::stdout().write_all(out.as_bytes()).unwrap();
}

fn describe(chk_idx: u64, tier: Tier) -> String {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new(exe)
        .arg("--describe")
        .arg(chk_idx.to_string())
        .env("VERIF_TIER", if tier == Tier::Thorough { "thorough" } else { "quick" })
        .output();
    match o {
        Ok(o) => {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            s.lines().find_map(|l| l.strip_prefix("DESC ").map(|x| x.to_string())).unwrap_or(format!("case #{chk_idx}"))
        }
        Err(_) => format!("case #{chk_idx}"),
    }
}

fn parent_main(chk: &Check, tier: Tier) {
    let t0 = Instant::now();
    let n: u64 = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let work = format!("{verif}/target/work/{}-{}", chk.id, std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut handles = vec![];
    for w in 0..n {
        let exe = exe.clone();
        let work = work.clone();
        let tier = tier;
        handles.push(std::thread::spawn(move || -> (Option<serde_json::Value>, Vec<Viol>) {
            let shm = format!("{work}/shm{w}");
            std::fs::write(&shm, vec![0u8; 4096]).unwrap();
            let map = shm_open(&shm);
            let mut skip = 0u64;
            let mut crashes = vec![];
            let mut merged: Option<serde_json::Value> = None;
            loop {
                unsafe { std::ptr::write_volatile(map, 0) };
                let mut ch = Command::new(&exe)
                    .arg("--worker")
                    .arg(w.to_string())
                    .arg(n.to_string())
                    .arg(&shm)
                    .arg(skip.to_string())
                    .env("VERIF_TIER", if tier == Tier::Thorough { "thorough" } else { "quick" })
                    .stdout(Stdio::piped())
                    .stderr(Stdio::piped())
                    .spawn()
                    .unwrap();
                let mut so = ch.stdout.take().unwrap();
                let mut se = ch.stderr.take().unwrap();
                let rd = std::thread::spawn(move || {
                    let mut b = vec![];
                    let _ = so.read_to_end(&mut b);
                    b
                });
                let rde = std::thread::spawn(move || {
                    let mut b = vec![];
                    let _ = se.read_to_end(&mut b);
                    b
                });
                let mut last = (0u64, 0u64);
                let mut since = Instant::now();
                let mut hung = false;
                let status = loop {
                    if let Some(s) = ch.try_wait().unwrap() {
                        break s;
                    }
                    let cur = unsafe { std::ptr::read_volatile(map) };
                    let step = unsafe { std::ptr::read_volatile(map.add(1)) };
                    if (cur, step) != last {
                        last = (cur, step);
                        since = Instant::now();
                    } else if cur != 0 && cur != u64::MAX && since.elapsed() > Duration::from_secs(20) {
                        hung = true;
                        let _ = ch.kill();
                    } else if since.elapsed() > Duration::from_secs(600) {
                        let _ = ch.kill();
                    }
                    std::thread::sleep(Duration::from_millis(15));
                };
                let out = rd.join().unwrap();
                let errs = String::from_utf8_lossy(&rde.join().unwrap()).to_string();
                let cur = unsafe { std::ptr::read_volatile(map) };
                if status.success() && cur == u64::MAX {
                    // the code under test might have handed out invalid text
                    match serde_json::from_str::<serde_json::Value>(&String::from_utf8_lossy(&out)) {
                        Ok(v) => merged = Some(v),
                        Err(e) => crashes.push(Viol { key: "report".into(), what: format!("worker's report is garbled: {e}") }),
                    }
                    break;
                }
                if cur == 0 || cur == u64::MAX {
                    // died outside of any case: harness failure
                    let tail: String = errs.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                    crashes.push(Viol {
                        key: "outside of any case".into(),
                        what: format!("process died while enumerating the cases: {status} {tail}"),
                    });
                    break;
                }
                let k = cur - 1;
                let tail: String = errs.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                let what = if hung {
                    "does not terminate (no progress for 20 s)".to_string()
                } else {
                    format!("process died: {status} {tail}")
                };
                crashes.push(Viol { key: describe(k, tier), what: format!("{what}{}", noted(map)) });
                if crashes.len() >= 12 {
                    break;
                }
                skip = k + 1;
            }
            (merged, crashes)
        }));
    }
    let mut evals = 0;
    let mut states = 0;
    let mut transitions = 0;
    let mut validated = 0;
    let mut n_viols = 0;
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut groups: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<Viol> = vec![];
    let mut failed_workers = 0;
    for h in handles {
        let (v, cr) = h.join().unwrap();
        n_viols += cr.len() as u64;
        let had_crash = !cr.is_empty();
        viols.extend(cr);
        let Some(v) = v else {
            if !had_crash {
                failed_workers += 1;
            }
            continue;
        };
        evals += v["evals"].as_u64().unwrap();
        states += v["states"].as_u64().unwrap();
        transitions += v["transitions"].as_u64().unwrap();
        validated += v["validated"].as_u64().unwrap();
        n_viols += v["n_viols"].as_u64().unwrap();
        for d in v["distinct"].as_array().unwrap() {
            distinct.insert(d.as_u64().unwrap());
        }
        for (k, x) in v["groups"].as_object().unwrap() {
            *groups.entry(k.clone()).or_default() += x.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap().iter().take(2) {
            samples.push(s.as_str().unwrap().to_string());
        }
        for x in v["viols"].as_array().unwrap() {
            viols.push(Viol { key: x["key"].as_str().unwrap().into(), what: x["what"].as_str().unwrap().into() });
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    // known findings
    let known: Vec<(String, String)> = std::fs::read_to_string(format!("{verif}/known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .map(|v| {
            v["findings"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .filter(|f| f["property"] == chk.id)
                        .map(|f| (f["case"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
                        .collect()
                })
                .unwrap_or_default()
        })
        .unwrap_or_default();
    let mut new: Vec<Viol> = vec![];
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    for v in viols {
        if known.iter().any(|(k, _)| *k == v.key) {
            known_hit.insert(v.key.clone());
        } else {
            new.push(v);
        }
    }
    new.sort_by_key(|v| (v.key.len(), v.key.clone()));
    for (k, w) in &known {
        if known_hit.contains(k) {
            println!("KNOWN-FINDING: property={} {} [{}]", chk.id, w, k);
        }
    }
    let tier_s = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let mut vj = vec![];
    if !new.is_empty() {
        let dir = format!("{verif}/evidence/replay");
        std::fs::create_dir_all(&dir).unwrap();
        // group by kind of failure, show the smallest of each
        let mut kinds: BTreeMap<String, Viol> = BTreeMap::new();
        for v in &new {
            let kind: String = v.what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            let g = v.key.split(": ").next().unwrap_or("").to_string();
            kinds.entry(format!("{g}|{kind}")).or_insert(v.clone());
        }
        let mut shown: Vec<Viol> = kinds.into_values().collect();
        shown.sort_by_key(|v| (v.key.len(), v.key.clone()));
        for (k, v) in shown.iter().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(10)).enumerate() {
            let path = format!("{dir}/{}-{}.json", chk.id, k);
            std::fs::write(
                &path,
                format!(
                    "{{\"property\":{},\"tier\":{},\"case\":{},\"what\":{}}}\n",
                    jstr(chk.id),
                    jstr(tier_s),
                    jstr(&v.key),
                    jstr(&v.what)
                ),
            )
            .unwrap();
            println!("VIOLATION property={} replay={}", chk.id, path);
            println!("  {} :: {}", v.key, v.what.chars().take(600).collect::<String>());
            vj.push(format!("{{\"case\":{},\"what\":{},\"replay\":{}}}", jstr(&v.key), jstr(&v.what), jstr(&path)));
        }
        println!("  ({n_viols} violating case(s) in total)");
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if samples.is_empty() {
        samples.push("none".into());
    }
    samples.truncate(10);
    let common = format!(
        "\"exhaustive\":true,\"rule\":{},\"cases_per_group\":{{{}}},\"samples\":[{}]",
        jstr(chk.rule),
        groups.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    let cov = if chk.level == "model_checking" {
        format!(
            "{{\"states\":{states},\"transitions\":{transitions},\"traces_validated_against_impl\":{},\"outcome_classes\":{},{common}}}",
            evals + validated,
            distinct.len()
        )
    } else {
        format!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{},{common}}}", distinct.len())
    };
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{},\"wall_s\":{:.3},\"violations\":{},\"violation_list\":[{}],\"assumptions\":[{}]}}\n",
        jstr(chk.id),
        jstr(tier_s),
        seed,
        jstr(chk.level),
        cov,
        wall,
        new.len(),
        vj.join(","),
        jstr(chk.assumptions)
    );
    std::fs::create_dir_all(format!("{verif}/evidence")).unwrap();
    std::fs::write(format!("{verif}/evidence/{}.json", chk.id), ev).unwrap();
    println!(
        "{} {}: {} cases, {} states, {} transitions, {} outcome classes, {:.1}s",
        chk.id,
        tier_s,
        evals,
        states,
        transitions,
        distinct.len(),
        wall
    );
    if new.is_empty() && known_hit.is_empty() && failed_workers > 0 {
        println!("harness failure");
        std::process::exit(3);
    }
    // a case the checker itself could not digest is a violation too: it digests all those of the
    // unchanged tree
    std::process::exit(if new.is_empty() { 0 } else { 1 });
}
