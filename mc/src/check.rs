//! Bookkeeping shared by every check: enumeration counters, known findings, violations, replay, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub const VERIF: &str = "/verif";

#[derive(Clone)]
struct Known {
    pat: String,
    class: String,
    what: String,
    hits: u64,
}

/// What one explored case came to.
pub enum Out {
    /// held; the string is a canonical form of what was observed (counts distinct outcomes)
    Ok(String),
    /// the case does not apply (precondition of the property not met)
    Skip,
    /// failed: (class, detail). class is one of wrong, err, panic, ...
    Bad(&'static str, String),
}

/// Parent side: run the exploration in a child process, so that a crash (signal, abort) or a hang inside the code
/// under test becomes a verdict about the case that was running instead of an error of the check.
fn supervise(prop: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let prog = format!("{VERIF}/target/progress-{prop}-{}", std::process::id());
    let _ = std::fs::create_dir_all(format!("{VERIF}/target"));
    std::fs::write(&prog, [0u8; 4096]).expect("progress file");
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1))
        .env("MC_CHILD", &prog)
        .spawn()
        .expect("spawn");
    let rd = || -> (u64, String) {
        let b = std::fs::read(&prog).unwrap_or_default();
        if b.len() < 16 {
            return (0, String::new());
        }
        let c = u64::from_le_bytes(b[..8].try_into().unwrap());
        let n = (u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize).min(b.len() - 16);
        (c, String::from_utf8_lossy(&b[16..16 + n]).into_owned())
    };
    let limit: f64 = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120.0);
    let mut last = (0, Instant::now());
    let mut ms = 1;
    let (class, detail) = loop {
        match ch.try_wait().expect("wait") {
            Some(st) => match st.code() {
                Some(c) => {
                    let _ = std::fs::remove_file(&prog);
                    std::process::exit(c)
                },
                None => break ("crash", format!("the process was killed by signal {}", st.signal().unwrap_or(0))),
            },
            None => {
                let (c, k) = rd();
                if c != last.0 || k.is_empty() {
                    last = (c, Instant::now());
                } else if last.1.elapsed().as_secs_f64() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break ("hang", format!("no progress for {limit} s"));
                }
            },
        }
        std::thread::sleep(std::time::Duration::from_millis(ms));
        ms = (ms * 2).min(50);
    };
    let (n, key) = rd();
    let _ = std::fs::remove_file(&prog);
    if class == "crash" && (detail.ends_with(" 9") || detail.ends_with(" 15") || key.is_empty()) {
        eprintln!("check process killed from outside or outside a case: {detail}");
        std::process::exit(3);
    }
    let dir = format!("{VERIF}/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-crash.json");
    let _ = std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({"property": prop, "key": key, "class": class, "detail": detail,
            "rerun": format!("bash /verif/bin/check.sh {prop} --replay {path}")}))
        .unwrap(),
    );
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let _ = std::fs::write(
        format!("{VERIF}/evidence/{prop}.json"),
        serde_json::to_string_pretty(&json!({"property": prop,
            "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()), "seed": 1, "level": "other",
            "coverage": {"explanation": format!("aborted after {n} cases: {class} in {key}")}, "wall_s": 0.0, "violations": 1}))
        .unwrap(),
    );
    println!("  [{class}] {key}: {detail}");
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1)
}

pub struct Check {
    progress: Option<std::fs::File>,
    ncase: u64,
    pub prop: &'static str,
    pub level: &'static str,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    known: Vec<Known>,
    only: Option<String>,
    list_all: bool,
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    outcomes: HashSet<u64>,
    pub transitions: u64,
    pub evaluations: u64,
    pub skipped: u64,
    samples: Vec<Value>,
    sample_groups: HashSet<String>,
    violations: Vec<(String, &'static str, String)>,
    nviol: u64,
    pub notes: BTreeMap<String, Value>,
    pub assumptions: Vec<String>,
    deadline: f64,
    pub capped: bool,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// glob with `*` only
pub fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut pos = 0usize;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            if !s.starts_with(part) {
                return false;
            }
            pos = part.len();
        } else if i == parts.len() - 1 {
            return s.len() >= pos + part.len() && s.ends_with(part);
        } else {
            match s[pos..].find(part) {
                Some(k) => pos += k + part.len(),
                None => return false,
            }
        }
    }
    true
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

impl Check {
    pub fn new(prop: &'static str, level: &'static str) -> Self {
        let progress = match std::env::var("MC_CHILD") {
            Ok(p) => std::fs::OpenOptions::new().write(true).open(p).ok(),
            Err(_) => {
                if std::env::var("MC_NOFORK").is_err() {
                    supervise(prop)
                }
                None
            },
        };
        std::panic::set_hook(Box::new(|_| {}));
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut only = None;
        let mut list_all = false;
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            if a[i] == "--replay" && i + 1 < a.len() {
                let txt = std::fs::read_to_string(&a[i + 1]).unwrap_or_else(|_| a[i + 1].clone());
                only = Some(
                    serde_json::from_str::<Value>(&txt)
                        .ok()
                        .and_then(|v| v["key"].as_str().map(|s| s.to_string()))
                        .unwrap_or(txt),
                );
                i += 1;
            }
            if a[i] == "--all" {
                list_all = true;
            }
            i += 1;
        }
        let mut known = vec![];
        let txt = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
        for l in txt.lines() {
            // finding: property=P01 class=err key=<glob> :: what
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("finding: ") {
                let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                let mut f = BTreeMap::new();
                for w in head.split(' ') {
                    if let Some((k, v)) = w.split_once('=') {
                        f.insert(k.to_string(), v.to_string());
                    }
                }
                if f.get("property").map(|s| s.as_str()) == Some(prop) {
                    known.push(Known {
                        pat: f.get("key").cloned().unwrap_or_default(),
                        class: f.get("class").cloned().unwrap_or_default(),
                        what: what.to_string(),
                        hits: 0,
                    });
                }
            }
        }
        let deadline = std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(f64::INFINITY);
        Check {
            progress,
            ncase: 0,
            prop,
            level,
            tier,
            seed,
            start: Instant::now(),
            known,
            only,
            list_all,
            counters: BTreeMap::new(),
            states: HashSet::new(),
            outcomes: HashSet::new(),
            transitions: 0,
            evaluations: 0,
            skipped: 0,
            samples: vec![],
            sample_groups: HashSet::new(),
            violations: vec![],
            nviol: 0,
            notes: BTreeMap::new(),
            assumptions: vec![],
            deadline,
            capped: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn timed_out(&mut self) -> bool {
        if self.elapsed() > self.deadline {
            self.capped = true;
        }
        self.capped
    }
    /// in replay mode, whether this key is the one to run
    pub fn wants(&self, key: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o == key,
        }
    }
    /// in replay mode, whether the key to run lies below this prefix
    pub fn wants_prefix(&self, pre: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o.starts_with(pre),
        }
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    /// Run one case; a panic counts as class "panic".
    pub fn case(&mut self, group: &str, key: &str, f: impl FnOnce() -> Out) {
        if !self.wants(key) {
            return;
        }
        self.enter(key);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.leave();
        let out = match r {
            Ok(o) => o,
            Err(e) => Out::Bad("panic", format!("panicked: {}", panic_msg(e))),
        };
        self.record(group, key, out);
    }
    /// tell the supervisor which case is running
    pub fn enter(&mut self, key: &str) {
        use std::os::unix::fs::FileExt;
        self.ncase += 1;
        if let Some(f) = &self.progress {
            let k = &key.as_bytes()[..key.len().min(4000)];
            let mut b = Vec::with_capacity(16 + k.len());
            b.extend(self.ncase.to_le_bytes());
            b.extend((k.len() as u64).to_le_bytes());
            b.extend(k);
            let _ = f.write_at(&b, 0);
        }
    }
    pub fn leave(&mut self) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.progress {
            let _ = f.write_at(&0u64.to_le_bytes(), 8);
        }
    }
    pub fn record(&mut self, group: &str, key: &str, out: Out) {
        if self.replaying() {
            match &out {
                Out::Ok(s) => eprintln!("replay {key}: held, observed {s}"),
                Out::Skip => eprintln!("replay {key}: skipped"),
                Out::Bad(c, d) => eprintln!("replay {key}: {c}: {d}"),
            }
        }
        match out {
            Out::Skip => {
                self.skipped += 1;
            }
            Out::Ok(s) => {
                self.evaluations += 1;
                self.transitions += 1;
                *self.counters.entry(group.to_string()).or_default() += 1;
                self.states.insert(h64(key));
                self.outcomes.insert(h64(&(group, &s)));
                if self.samples.len() < 40 && self.sample_groups.insert(group.to_string()) {
                    let mut t = s;
                    if t.len() > 300 {
                        let mut k = 300;
                        while !t.is_char_boundary(k) {
                            k -= 1;
                        }
                        t.truncate(k);
                        t.push('…');
                    }
                    self.samples.push(json!({"case": key, "observed": t}));
                }
            }
            Out::Bad(class, detail) => {
                self.evaluations += 1;
                self.transitions += 1;
                *self.counters.entry(group.to_string()).or_default() += 1;
                self.states.insert(h64(key));
                let mut k = false;
                for kn in self.known.iter_mut() {
                    if (kn.class.is_empty() || kn.class.split('|').any(|c| c == class)) && glob(&kn.pat, key) {
                        kn.hits += 1;
                        k = true;
                        break;
                    }
                }
                if k {
                    if self.list_all {
                        println!("KNOWN {key} [{class}] {detail}");
                    }
                } else {
                    self.nviol += 1;
                    if self.list_all {
                        println!("BAD {key} [{class}] {detail}");
                    }
                    if self.violations.len() < 50 {
                        self.violations.push((key.to_string(), class, detail));
                    }
                }
            }
        }
    }
    /// executions made inside the last case beyond the first
    pub fn add(&mut self, n: u64) {
        self.transitions += n.saturating_sub(1);
    }
    pub fn note(&mut self, k: &str, v: impl Into<Value>) {
        self.notes.insert(k.into(), v.into());
    }
    pub fn finish(mut self, rule: &str) -> ! {
        let mut cov = serde_json::Map::new();
        match self.level {
            "model_checking" => {
                cov.insert("states".into(), json!(self.states.len()));
                cov.insert("transitions".into(), json!(self.transitions));
                cov.insert("traces_validated_against_impl".into(), json!(self.evaluations));
            },
            _ => {
                cov.insert("evaluations".into(), json!(self.evaluations));
                cov.insert("distinct_nontrivial".into(), json!(self.states.len()));
            },
        }
        cov.insert("distinct_outcomes".into(), json!(self.outcomes.len()));
        cov.insert("cases_skipped_precondition".into(), json!(self.skipped));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("per_group".into(), json!(self.counters));
        cov.insert("exhaustive".into(), json!(!self.capped && self.only.is_none()));
        let kn: Vec<Value> =
            self.known.iter().map(|k| json!({"key": k.pat, "what": k.what, "cases": k.hits})).collect();
        cov.insert("known_findings".into(), json!(kn));
        for (k, v) in &self.notes {
            cov.insert(k.clone(), v.clone());
        }
        let wall = self.elapsed();
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": wall, "violations": self.nviol,
        });
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
            if let Err(e) =
                std::fs::write(format!("{VERIF}/evidence/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap())
            {
                eprintln!("cannot write evidence: {e}");
                std::process::exit(3);
            }
        }
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {} [{}; {} case(s) this run]", self.prop, k.what, k.pat, k.hits);
        }
        println!(
            "{} tier={} cases={} states={} transitions={} outcomes={} skipped={} violations={} {:.1}s",
            self.prop,
            self.tier,
            self.evaluations,
            self.states.len(),
            self.transitions,
            self.outcomes.len(),
            self.skipped,
            self.nviol,
            wall
        );
        if self.nviol > 0 {
            // shortest key first: the simplest counterexample
            self.violations.sort_by_key(|v| v.0.len());
            let dir = format!("{VERIF}/replay");
            let _ = std::fs::create_dir_all(&dir);
            for (i, (key, class, detail)) in self.violations.iter().take(5).enumerate() {
                let path = format!("{dir}/{}-{}.json", self.prop, i);
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(
                        &json!({"property": self.prop, "key": key, "class": class, "detail": detail,
                            "rerun": format!("bash /verif/bin/check.sh {} --replay {}", self.prop, path)}),
                    )
                    .unwrap(),
                );
                println!("  [{class}] {key}: {detail}");
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            std::process::exit(1);
        }
        if self.evaluations == 0 {
            eprintln!("nothing was explored");
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}
