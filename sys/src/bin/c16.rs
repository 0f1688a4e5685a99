//! C16: the plugin registry and what is looked up in it. All reachable states of a registry over a few names under every
//! operation against a list; all histories of the plugin managers over scripted plugins, with the processes they start,
//! reuse and end; all registries of a few entries under every command; all protocol versions of a small alphabet.
use hodu_cli::commands::{build, convert, inspect, run};
use hodu_plugin_runtime::*;
use mc::check::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Back,
    Model,
    Tens,
}
/// What an entry offers
#[derive(Clone, Debug)]
struct Off {
    t: T,
    /// devices or extensions as registered
    what: Vec<&'static str>,
    builder: bool,
    save: bool,
}
fn off(t: T, what: &[&'static str]) -> Off {
    Off { t, what: what.to_vec(), builder: true, save: true }
}
fn entry(name: &str, o: &Off, enabled: bool, version: &str, deps: &[String]) -> PluginEntry {
    let w: Vec<String> = o.what.iter().map(|s| s.to_string()).collect();
    PluginEntry {
        name: name.into(),
        version: version.into(),
        description: None,
        license: None,
        plugin_type: match o.t {
            T::Back => PluginType::Backend,
            T::Model => PluginType::ModelFormat,
            T::Tens => PluginType::TensorFormat,
        },
        capabilities: match o.t {
            T::Back => PluginCapabilities::backend(true, o.builder, w, vec![]),
            T::Model => PluginCapabilities::model_format(true, o.save, w),
            T::Tens => PluginCapabilities::tensor_format(true, o.save, w),
        },
        binary: "plug".into(),
        source: PluginSource::Local { path: "/nowhere".into() },
        installed_at: "2026-01-01T00:00:00Z".into(),
        plugin_version: "0.1.0".into(),
        enabled,
        dependencies: deps.to_vec(),
    }
}
fn js(p: &PluginEntry) -> String {
    serde_json::to_string(p).unwrap()
}
fn norm(s: &str) -> String {
    s.trim_start_matches('.').to_lowercase()
}

// ---------------------------------------------------------------- the registry

const NAMES: [&str; 5] = ["a", "hodu-backend-a", "c", "d", "e"];
/// the two things a plugin of this name can be
fn variants(n: usize) -> [(Off, Vec<String>); 2] {
    let d = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match n {
        0 => [(off(T::Back, &["cpu"]), d(&[])), (off(T::Model, &["onnx"]), d(&["c"]))],
        1 => [(off(T::Back, &["CPU", "cuda::0"]), d(&["a"])), (off(T::Back, &[]), d(&["a", "d", "hodu-backend-a"]))],
        2 => [(off(T::Model, &[".ONNX", "pb"]), d(&[])), (off(T::Tens, &["npy", "onnx"]), d(&["c"]))],
        3 => [(off(T::Tens, &[".npy", "Npz"]), d(&["a", "c"])), (off(T::Back, &["Cuda::0"]), d(&["nobody"]))],
        _ => [(off(T::Model, &["pb", "cpu"]), d(&["e"])), (off(T::Tens, &["npz", "cpu"]), d(&["d", "d"]))],
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// name, what it offers, enabled
    Up(usize, usize, bool),
    Rem(usize),
    En(usize),
    Dis(usize),
    Reload,
}
/// the model: names in the order of registration with everything else
type Model = Vec<(usize, usize, bool, String)>;
fn made(m: &(usize, usize, bool, String)) -> PluginEntry {
    let v = variants(m.0);
    entry(NAMES[m.0], &v[m.1].0, m.2, &m.3, &v[m.1].1)
}
fn same(r: &PluginRegistry, m: &Model) -> Result<(), String> {
    let got: Vec<String> = r.plugins.iter().map(js).collect();
    let want: Vec<String> = m.iter().map(|x| js(&made(x))).collect();
    if got != want {
        return Err(format!("the registry is {got:?}, expected {want:?}"));
    }
    Ok(())
}
fn queries(r: &PluginRegistry, m: &Model) -> Result<u64, String> {
    let mut n = 0;
    let es: Vec<PluginEntry> = m.iter().map(made).collect();
    let ns = |v: Vec<&PluginEntry>| v.iter().map(|p| js(p)).collect::<Vec<_>>();
    let mut eq = |what: String, got: Vec<String>, want: Vec<String>| {
        n += 1;
        if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?} with {es:?}")) }
    };
    for name in NAMES.iter().chain(&["b", "", "A", "hodu-backend-c"]) {
        let want: Vec<&PluginEntry> = es.iter().filter(|p| p.name == *name).collect();
        eq(format!("find {name}"), ns(r.find(name).into_iter().collect()), ns(want.clone()))?;
        let miss: Vec<String> = want.iter().flat_map(|p| p.dependencies.clone()).filter(|d| !es.iter().any(|p| p.name == *d && p.enabled)).collect();
        let got = match r.check_dependencies(name) {
            Ok(()) => vec![],
            Err(v) => v,
        };
        eq(format!("missing dependencies of {name}"), got, miss)?;
    }
    use PluginType::*;
    let of = |t: PluginType, on: bool| -> Vec<&PluginEntry> { es.iter().filter(|p| p.plugin_type == t && (p.enabled || !on)).collect() };
    eq("backends".into(), ns(r.backends().collect()), ns(of(Backend, true)))?;
    eq("all backends".into(), ns(r.all_backends().collect()), ns(of(Backend, false)))?;
    eq("model formats".into(), ns(r.model_formats().collect()), ns(of(ModelFormat, true)))?;
    eq("all model formats".into(), ns(r.all_model_formats().collect()), ns(of(ModelFormat, false)))?;
    eq("tensor formats".into(), ns(r.tensor_formats().collect()), ns(of(TensorFormat, true)))?;
    eq("all tensor formats".into(), ns(r.all_tensor_formats().collect()), ns(of(TensorFormat, false)))?;
    for x in ["cpu", "CPU", "cuda::0", "CUDA::0", "cuda", "cuda::1", "", "onnx", "metal"] {
        let want = of(Backend, true).into_iter().find(|p| p.capabilities.devices.iter().any(|d| d.to_lowercase() == x.to_lowercase()));
        eq(format!("backend for {x}"), ns(r.find_backend_by_device(x).into_iter().collect()), ns(want.into_iter().collect()))?;
    }
    for x in ["onnx", ".onnx", "ONNX", ".OnnX", "pb", "npy", ".NPY", "npz", "cpu", "", ".", "onn"] {
        let want = of(ModelFormat, true).into_iter().find(|p| p.capabilities.model_extensions.iter().any(|d| norm(d) == norm(x)));
        eq(format!("model format for {x}"), ns(r.find_model_format_by_extension(x).into_iter().collect()), ns(want.into_iter().collect()))?;
        let want = of(TensorFormat, true).into_iter().find(|p| p.capabilities.tensor_extensions.iter().any(|d| norm(d) == norm(x)));
        eq(format!("tensor format for {x}"), ns(r.find_tensor_format_by_extension(x).into_iter().collect()), ns(want.into_iter().collect()))?;
    }
    Ok(n)
}
fn apply(r: &mut PluginRegistry, m: &mut Model, op: Op, file: &Path) -> Result<(), String> {
    match op {
        Op::Up(n, v, on) => {
            // the version says which of the two upserts this is
            let x = (n, v, on, "1.0.0".to_string());
            r.upsert(made(&x));
            match m.iter_mut().find(|y| y.0 == n) {
                Some(y) => *y = x,
                None => m.push(x),
            }
        },
        Op::Rem(n) => {
            let got = r.remove(NAMES[n]).map(|p| js(&p));
            let at = m.iter().position(|y| y.0 == n);
            let want = at.map(|i| js(&made(&m.remove(i))));
            if got != want {
                return Err(format!("remove gives {got:?}, expected {want:?}"));
            }
        },
        Op::En(n) | Op::Dis(n) => {
            let on = matches!(op, Op::En(_));
            let got = if on { r.enable(NAMES[n]) } else { r.disable(NAMES[n]) };
            let y = m.iter_mut().find(|y| y.0 == n);
            if got != y.is_some() {
                return Err(format!("{op:?} gives {got}"));
            }
            if let Some(y) = y {
                y.2 = on;
            }
        },
        Op::Reload => {
            r.save(file).map_err(|e| e.to_string())?;
            *r = PluginRegistry::load(file).map_err(|e| e.to_string())?;
        },
    }
    same(r, m)
}
/// Every state that can be reached over `names` names from the state after `first`, and every operation in it.
fn registries(names: usize, first: Op, home: &Path) -> Result<String, String> {
    let file = home.join("r/plugins.json");
    let mut ops = vec![Op::Reload];
    for n in 0..names {
        ops.extend([Op::Rem(n), Op::En(n), Op::Dis(n)]);
        for v in 0..2 {
            ops.extend([Op::Up(n, v, true), Op::Up(n, v, false)]);
        }
    }
    let mut seen = BTreeSet::new();
    let (mut trans, mut asked) = (0u64, 0u64);
    let mut start = (PluginRegistry::new(), Model::new(), vec![first]);
    apply(&mut start.0, &mut start.1, first, &file).map_err(|e| format!("{first:?}: {e}"))?;
    seen.insert(start.1.clone());
    let mut todo = std::collections::VecDeque::from([start]);
    while let Some((r, m, path)) = todo.pop_front() {
        asked += queries(&r, &m).map_err(|e| format!("after {path:?}: {e}"))?;
        for op in &ops {
            let (mut r2, mut m2) = (r.clone(), m.clone());
            apply(&mut r2, &mut m2, *op, &file).map_err(|e| format!("after {path:?} then {op:?}: {e}"))?;
            trans += 1;
            if seen.insert(m2.clone()) {
                let mut p = path.clone();
                p.push(*op);
                todo.push_back((r2, m2, p));
            }
        }
    }
    Ok(format!("{} {trans} {asked}", seen.len()))
}

// ---------------------------------------------------------------- plugins on disk

struct World {
    home: PathBuf,
}
impl World {
    fn new() -> World {
        let home = std::env::temp_dir().join(format!("mc-c16-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&home);
        std::fs::create_dir_all(home.join("tmp")).unwrap();
        std::env::set_var("HOME", &home);
        std::env::set_var("TMPDIR", home.join("tmp"));
        let w = World { home };
        let mut s = hodu_core::snapshot::Snapshot::new();
        s.name = Some("m".into());
        s.save(w.home.join("m.hdss")).unwrap();
        for f in ["m.onnx", "m.pb", "m.PB", "t.npy", "t.npz", "t.Npy"] {
            std::fs::write(w.home.join(f), f).unwrap();
        }
        let t = hodu_core::tensor::Tensor::new(vec![1.0f32, 2.0]).unwrap();
        hodu_core::format::hdt::save(&t, w.home.join("t.hdt")).unwrap();
        w
    }
    fn dir(&self, name: &str) -> PathBuf {
        self.home.join(".hodu/plugins").join(name)
    }
    /// install these plugins
    fn reset(&self, es: &[(PluginEntry, String)]) {
        let _ = std::fs::remove_dir_all(self.home.join(".hodu"));
        let mut r = PluginRegistry::new();
        for (e, behave) in es {
            let d = self.dir(&e.name);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("behave"), format!("{behave}\nmodel={0}/m.hdss\ntensor={0}/t.hdt\n", self.home.display())).unwrap();
            if behave != "gone" {
                let b = d.join("plug");
                let me = std::env::current_exe().unwrap().parent().unwrap().join("plug");
                std::fs::write(&b, format!("#!/bin/sh\nexec '{}' '{}'\n", me.display(), d.display())).unwrap();
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
            r.plugins.push(e.clone());
        }
        r.save(&PluginRegistry::default_path().unwrap()).unwrap();
    }
    fn log(&self, name: &str) -> Vec<String> {
        std::fs::read_to_string(self.dir(name).join("log")).unwrap_or_default().lines().map(|s| s.to_string()).collect()
    }
    fn pids(&self, name: &str) -> Vec<i32> {
        self.log(name).iter().filter_map(|l| l.strip_prefix("start ").map(|p| p.parse().unwrap())).collect()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.home);
    }
}
/// what has become of a child of this process: None is gone, 'Z' has ended but was not waited for
fn fate(pid: i32) -> Option<char> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let mut f = rest.split(' ');
    let c = f.next()?.chars().next();
    // the number may have been given to somebody else
    (f.next()?.parse::<u32>().ok()? == std::process::id()).then_some(())?;
    c
}
fn await_end(pid: i32) -> Result<(), String> {
    let t = Instant::now();
    while !matches!(fate(pid), None | Some('Z')) {
        if t.elapsed() > Duration::from_secs(20) {
            return Err(format!("process {pid} goes on"));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    Ok(())
}

// ---------------------------------------------------------------- the managers

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Get(usize),
    /// ask for whatever serves the device or extension
    For,
    /// a request that is answered, or ends the plugin
    Ask(usize),
    Stop(usize),
    All,
}
/// how the plugins behave
const PLUGS: [(&str, &str); 7] = [
    ("off", ""),
    ("ok", ""),
    ("fragile", "die-at-format.load_model\ndie-at-backend.supported_targets"),
    ("short", "die-when-initialized"),
    ("bad", "refuse-initialize"),
    ("old", "protocol=2.0.0"),
    ("gone", "gone"),
];
const ACTS: [M; 12] = [
    M::Get(0),
    M::Get(1),
    M::Get(2),
    M::Get(3),
    M::Get(4),
    M::Get(5),
    M::Get(6),
    M::For,
    M::Ask(1),
    M::Ask(2),
    M::Stop(1),
    M::All,
];
enum Mg {
    B(backend::PluginManager),
    F(format::PluginManager),
    C(hodu_cli::plugins::PluginManager),
}
impl Mg {
    fn new(k: usize) -> Mg {
        match k {
            0 => Mg::B(backend::PluginManager::new().unwrap()),
            1 => Mg::F(format::PluginManager::new().unwrap()),
            _ => Mg::C(hodu_cli::plugins::PluginManager::new().unwrap()),
        }
    }
    fn client(&mut self, name: Option<&str>) -> Result<&mut PluginClient, String> {
        match (self, name) {
            (Mg::B(m), Some(n)) => m.get_plugin(n).map_err(|e| e.to_string()),
            (Mg::B(m), None) => m.get_for_device("CPU").map_err(|e| e.to_string()),
            (Mg::F(m), Some(n)) => m.get_plugin(n).map_err(|e| e.to_string()),
            (Mg::F(m), None) => m.get_for_model_extension(".Onnx").map_err(|e| e.to_string()),
            (Mg::C(m), Some(n)) => m.get_plugin(n).map_err(|e| e.to_string()),
            (Mg::C(m), None) => m.get_format_for_extension("ONNX").map_err(|e| e.to_string()),
        }
    }
    fn ask(&mut self, name: &str) -> Result<(), String> {
        let back = matches!(self, Mg::B(_));
        let c = self.client(Some(name))?;
        if back {
            c.list_targets().map(|_| ()).map_err(|e| e.to_string())
        } else {
            c.load_model("x").map(|_| ()).map_err(|e| e.to_string())
        }
    }
    fn stop(&mut self, name: Option<&str>) {
        match (self, name) {
            (Mg::B(m), Some(n)) => m.shutdown_plugin(n).unwrap(),
            (Mg::B(m), None) => m.shutdown_all(),
            (Mg::F(m), Some(n)) => m.shutdown_plugin(n).unwrap(),
            (Mg::F(m), None) => m.shutdown_all(),
            (Mg::C(m), Some(n)) => m.shutdown_plugin(n).unwrap(),
            (Mg::C(m), None) => m.shutdown_all(),
        }
    }
    fn known(&self, name: &str) -> bool {
        match self {
            Mg::B(m) => m.get_info(name).is_some(),
            Mg::F(m) => m.get_info(name).is_some(),
            Mg::C(m) => m.get_info(name).is_some(),
        }
    }
}
fn managed(w: &World, kind: usize, acts: &[M]) -> Result<String, String> {
    let o = if kind == 0 { off(T::Back, &["cpu"]) } else { off(T::Model, &["onnx"]) };
    let es: Vec<(PluginEntry, String)> = PLUGS.iter().map(|(n, b)| (entry(n, &o, *n != "off", "1.0.0", &[]), b.to_string())).collect();
    w.reset(&es);
    let mut m = Mg::new(kind);
    let mut starts = [0usize; PLUGS.len()];
    // the process that is running, if any
    let mut alive: BTreeMap<usize, i32> = BTreeMap::new();
    let mut log = String::new();
    for (k, a) in acts.iter().enumerate() {
        let at = |e: String| format!("{:?}: {e}", &acts[..=k]);
        // (plugin, answers)
        let (who, fine) = match *a {
            M::Get(p) => (Some(p), m.client(Some(PLUGS[p].0)).map(|_| ())),
            M::For => (Some(1), m.client(None).map(|_| ())),
            M::Ask(p) => (Some(p), m.ask(PLUGS[p].0)),
            M::Stop(p) => {
                m.stop(Some(PLUGS[p].0));
                alive.remove(&p);
                (None, Ok(()))
            },
            M::All => {
                m.stop(None);
                alive.clear();
                (None, Ok(()))
            },
        };
        if let Some(p) = who {
            let starting = !alive.contains_key(&p) && !matches!(PLUGS[p].0, "off" | "gone");
            starts[p] += starting as usize;
            let good = matches!(PLUGS[p].0, "ok" | "short") || PLUGS[p].0 == "fragile" && !matches!(a, M::Ask(_));
            if fine.is_ok() != good {
                return Err(at(format!("{:?} gives {fine:?}", PLUGS[p])));
            }
            log.push(if good { '+' } else { '-' });
            let pids = w.pids(PLUGS[p].0);
            if pids.len() != starts[p] {
                return Err(at(format!("{} has been started {} times, expected {}", PLUGS[p].0, pids.len(), starts[p])));
            }
            if let Some(pid) = pids.last() {
                if good && PLUGS[p].0 != "short" {
                    alive.insert(p, *pid);
                } else {
                    // it ends by itself
                    if PLUGS[p].0 == "short" || PLUGS[p].0 == "fragile" {
                        await_end(*pid).map_err(at)?;
                    }
                    alive.remove(&p);
                }
            }
            if !good && matches!(PLUGS[p].0, "off" | "gone" | "bad" | "old") && m.known(PLUGS[p].0) {
                return Err(at(format!("{} counts as running", PLUGS[p].0)));
            }
        }
        for (p, (n, _)) in PLUGS.iter().enumerate() {
            for pid in w.pids(n) {
                let f = fate(pid);
                let ok = if alive.get(&p) == Some(&pid) {
                    !matches!(f, None | Some('Z'))
                } else if matches!(*n, "short" | "fragile") && !matches!(a, M::All) {
                    // a plugin that ended by itself may be waited for later
                    matches!(f, None | Some('Z'))
                } else {
                    f.is_none()
                };
                if !ok {
                    return Err(at(format!("process {pid} of {n} is in state {f:?}")));
                }
            }
        }
    }
    drop(m);
    for (n, _) in PLUGS {
        for pid in w.pids(n) {
            if let Some(f) = fate(pid) {
                return Err(format!("{acts:?}: process {pid} of {n} is left in state {f}"));
            }
        }
    }
    // a plugin that is stopped is told so first
    for p in [1usize] {
        let l = w.log(PLUGS[p].0);
        let told = l.iter().filter(|x| *x == "shutdown" || *x == "end").count();
        if told != starts[p] {
            return Err(format!("{acts:?}: {} was told to shut down {told} times of {}: {l:?}", PLUGS[p].0, starts[p]));
        }
    }
    Ok(log)
}
/// a plugin that does not end when it is told to
fn stubborn(w: &World, kind: usize, way: usize) -> Result<String, String> {
    let o = if kind == 0 { off(T::Back, &["cpu"]) } else { off(T::Model, &["onnx"]) };
    let behave = if way == 2 { "stay\nprotocol=9.0.0" } else { "stay" };
    w.reset(&[(entry("stay", &o, true, "1.0.0", &[]), behave.into())]);
    let mut m = Mg::new(kind);
    let t = Instant::now();
    let r = m.client(Some("stay")).map(|_| ());
    if r.is_ok() != (way != 2) {
        return Err(format!("start: {r:?}"));
    }
    if way == 0 {
        m.stop(Some("stay"));
    } else {
        drop(m);
    }
    let pid = w.pids("stay")[0];
    match fate(pid) {
        None => Ok(format!("ended within {} s", if t.elapsed().as_secs() < 60 { 60 } else { 600 })),
        f => Err(format!("process {pid} is left in state {f:?}")),
    }
}
fn version(w: &World, v: &str) -> Result<String, String> {
    let o = off(T::Back, &["cpu"]);
    w.reset(&[(entry("v", &o, true, "1.0.0", &[]), format!("protocol={v}"))]);
    let own: Vec<u32> = hodu_plugin::rpc::PROTOCOL_VERSION.split('.').map(|x| x.parse().unwrap()).collect();
    let part: Vec<Option<u32>> = v.split('.').map(|x| x.parse().ok()).collect();
    let want = match part.as_slice() {
        [Some(a), Some(b), Some(_)] => *a == own[0] && (*a > 0 || *b == own[1]),
        _ => false,
    };
    let mut m = Mg::new(0);
    let got = m.client(Some("v")).map(|_| ());
    if got.is_ok() != want {
        return Err(format!("a plugin of protocol {v:?} gives {got:?}, our own being {own:?}"));
    }
    Ok(format!("{want}"))
}

// ---------------------------------------------------------------- the commands

/// entries of the registries that the commands are run with
fn offers() -> Vec<(&'static str, Off, bool)> {
    let mut v = vec![
        ("x", off(T::Back, &["cpu"]), true),
        ("x", off(T::Back, &["cpu"]), false),
        ("hodu-backend-x", off(T::Back, &["CPU", "Cuda::0"]), true),
        ("y", off(T::Back, &["metal", "cpu"]), true),
        ("aot-x", off(T::Back, &["npu"]), true),
        ("x", off(T::Model, &["onnx"]), true),
        ("f", off(T::Model, &[".ONNX", ".PB"]), true),
        ("f", off(T::Model, &["onnx"]), false),
        ("t", off(T::Tens, &["npy"]), true),
        ("u", off(T::Tens, &[".NPY", "npz"]), true),
        ("u", off(T::Tens, &["npy", "onnx"]), false),
    ];
    // a backend that only runs
    let mut o = off(T::Back, &["npu", "metal"]);
    o.builder = false;
    v.push(("z", o, true));
    v
}
#[derive(Clone, Copy, Debug)]
enum C {
    Run(&'static str, &'static str, Option<&'static str>),
    Build(&'static str, &'static str, Option<&'static str>),
    Conv(&'static str, &'static str),
    Look(&'static str),
}
fn commands() -> Vec<C> {
    let mut v = vec![];
    for d in ["cpu", "CPU", "metal", "cuda::0", "cuda", "npu"] {
        v.push(C::Run("m.hdss", d, None));
    }
    for m in ["m.onnx", "m.pb"] {
        v.push(C::Run(m, "cpu", None));
    }
    v.push(C::Run("m.PB", "Metal", None));
    for b in ["x", "y", "hodu-backend-x", "f", "z"] {
        v.push(C::Run("m.hdss", "cpu", Some(b)));
    }
    for d in ["cpu", "METAL", "npu"] {
        v.push(C::Build("m.hdss", d, None));
    }
    for b in ["x", "y", "z", "f"] {
        v.push(C::Build("m.hdss", "cpu", Some(b)));
    }
    v.push(C::Build("m.onnx", "cpu", None));
    v.extend([
        C::Conv("m.onnx", "o.hdss"),
        C::Conv("m.hdss", "o.onnx"),
        C::Conv("m.pb", "o.onnx"),
        C::Conv("t.npy", "o.hdt"),
        C::Conv("t.Npy", "o.npz"),
        C::Conv("t.hdt", "o.NPZ"),
        C::Conv("t.hdt", "o.npy"),
        C::Look("m.onnx"),
        C::Look("t.npy"),
        C::Look("m.PB"),
    ]);
    v
}
/// the plugins that have to work for the command to succeed, or none if it cannot
fn needed(c: &C, reg: &[(&'static str, Off, bool)]) -> Option<BTreeSet<String>> {
    let on = |t: T| reg.iter().filter(move |e| e.2 && e.1.t == t);
    let ext = |f: &str| norm(f.rsplit('.').next().unwrap());
    let fmt = |t: T, f: &str| -> Option<String> { on(t).find(|e| e.1.what.iter().any(|w| norm(w) == ext(f))).map(|e| e.0.to_string()) };
    // a name that is taken by a disabled backend stands for that one, which cannot be used
    let named = |names: [String; 2], builds: bool| -> Option<String> {
        let e = names.iter().find_map(|n| reg.iter().find(|e| e.0 == n && e.1.t == T::Back && (e.1.builder || !builds)))?;
        e.2.then(|| e.0.to_string())
    };
    let mut s = BTreeSet::new();
    match c {
        C::Run(m, d, b) => {
            if ext(m) != "hdss" {
                s.insert(fmt(T::Model, m)?);
            }
            let d = match d.to_lowercase().as_str() {
                "cuda" => "cuda::0".to_string(),
                o => o.to_string(),
            };
            s.insert(match b {
                None => on(T::Back).find(|e| e.1.what.iter().any(|w| w.to_lowercase() == d))?.0.to_string(),
                Some(b) => named([b.to_string(), format!("hodu-backend-{b}")], false)?,
            });
        },
        C::Build(m, d, b) => {
            if ext(m) != "hdss" {
                s.insert(fmt(T::Model, m)?);
            }
            s.insert(match b {
                None => on(T::Back).find(|e| e.1.builder && e.1.what.iter().any(|w| w.to_lowercase() == d.to_lowercase()))?.0.to_string(),
                Some(b) => named([b.to_string(), format!("aot-{b}")], true)?,
            });
        },
        C::Conv(a, b) => {
            let t = if a.starts_with('m') { T::Model } else { T::Tens };
            for f in [a, b] {
                if !["hdss", "hdt"].contains(&ext(f).as_str()) {
                    s.insert(fmt(t, f)?);
                }
            }
        },
        C::Look(f) => {
            s.insert(fmt(T::Model, f).or_else(|| fmt(T::Tens, f))?);
        },
    }
    Some(s)
}
fn command(w: &World, c: &C, reg: &[(&'static str, Off, bool)]) -> Result<String, String> {
    let es: Vec<(PluginEntry, String)> = reg.iter().map(|(n, o, on)| (entry(n, o, *on, "1.0.0", &[]), String::new())).collect();
    w.reset(&es);
    let p = |f: &str| w.home.join(f);
    let outs = ["o.hdss", "o.hdt", "o.onnx", "o.npz", "o.npy", "o.so", "o.NPZ"];
    for o in outs {
        let _ = std::fs::remove_file(p(o));
    }
    let r = match c {
        C::Run(m, d, b) => run::execute(run::RunArgs {
            model: p(m),
            input: vec![],
            inputs: vec![],
            device: d.to_string(),
            backend: b.map(|s| s.to_string()),
            format: "json".into(),
            save: None,
            save_format: "hdt".into(),
            dry_run: false,
            quiet: true,
            timeout: None,
        }),
        C::Build(m, d, b) => build::execute(build::BuildArgs {
            model: Some(p(m)),
            output: Some(p("o.so")),
            target: None,
            device: d.to_string(),
            backend: b.map(|s| s.to_string()),
            format: None,
            opt_level: 2,
            standalone: false,
            verbose: false,
            list_targets: false,
            timeout: None,
        }),
        C::Conv(a, b) => convert::execute(convert::ConvertArgs { input: p(a), output: p(b), verbose: false }),
        C::Look(f) => inspect::execute(inspect::InspectArgs { file: p(f), verbose: false, format: "json".into() }),
    };
    let want = needed(c, reg);
    let mut started = BTreeSet::new();
    for (n, ..) in reg {
        let pids = w.pids(n);
        if pids.len() > 1 {
            return Err(format!("{n} is started {} times", pids.len()));
        }
        for pid in pids {
            started.insert(n.to_string());
            if let Some(f) = fate(pid) {
                return Err(format!("the process of {n} is left in state {f}"));
            }
        }
    }
    if r.is_ok() != want.is_some() {
        return Err(format!("the command gives {:?}, expected {want:?}", r.map_err(|e| e.to_string())));
    }
    match &want {
        Some(s) if *s != started => Err(format!("the command uses {started:?}, expected {s:?}")),
        // a plugin that is needed first may have been used before another is found to be missing
        None if started.iter().any(|n| !reg.iter().any(|e| e.0 == n && e.2)) => Err(format!("the command starts {started:?}")),
        Some(_) if matches!(c, C::Run(..)) => {
            // and the backend has been given the work
            let ran: Vec<String> = reg.iter().flat_map(|e| w.log(e.0)).filter(|l| l.starts_with("ran ")).collect();
            if ran.len() != 1 { Err(format!("the model ran {} times", ran.len())) } else { Ok("ran".into()) }
        },
        Some(_) => {
            let made = match c {
                C::Build(..) => Some("o.so"),
                C::Conv(_, o) => Some(*o),
                _ => None,
            };
            match made {
                Some(o) if !p(o).exists() => Err(format!("{o} is not there")),
                _ => Ok("done".into()),
            }
        },
        None => Ok("error".into()),
    }
}

#[derive(Clone)]
enum K {
    Reg(usize, Op),
    Man(usize, Vec<M>, usize),
    Stub(usize, usize),
    Ver(String),
    Com(Vec<usize>),
}
fn main() {
    let th = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut list: Vec<(String, K)> = vec![];
    let names = if th { 5 } else { 4 };
    for op in [Op::Reload, Op::Rem(0), Op::Up(1, 0, true), Op::Up(names - 1, 1, false)] {
        list.push((format!("registry/{op:?}"), K::Reg(names, op)));
    }
    for kind in 0..3 {
        let nm = ["backend", "format", "command"][kind];
        for way in 0..3 {
            list.push((format!("manager/{nm} stubborn {way}"), K::Stub(kind, way)));
        }
        let depth = if th { 4 } else { 3 };
        for a in ACTS {
            for b in ACTS {
                list.push((format!("manager/{nm} {a:?} {b:?}"), K::Man(kind, vec![a, b], depth)));
            }
        }
    }
    let mut vs: Vec<String> = vec!["".into(), "1".into(), "1.0".into(), "x".into(), "1.x.0".into(), "x.0.0".into(), "1..0".into(), "-1.0.0".into(), "1.0.0.0".into(), " 1.0.0".into(), "v1.0.0".into(), "1,0,0".into(), "4294967297.0.0".into()];
    for a in ["0", "1", "2", "10"] {
        for b in ["0", "1", "9"] {
            for c in ["0", "1", "12"] {
                vs.push(format!("{a}.{b}.{c}"));
            }
        }
    }
    // how short or over-long versions are read is left open
    vs.retain(|v| !["1", "1.0", "1.0.0.0"].contains(&v.as_str()));
    for v in vs {
        list.push((format!("version/{v}"), K::Ver(v)));
    }
    let of = offers();
    let mut regs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = regs.clone();
    for _ in 0..if th { 3 } else { 2 } {
        last = last
            .iter()
            .flat_map(|r| (0..of.len()).map(|i| r.iter().copied().chain([i]).collect::<Vec<_>>()))
            .filter(|r| (0..r.len()).all(|i| (0..i).all(|j| of[r[i]].0 != of[r[j]].0)))
            .collect();
        regs.extend(last.clone());
    }
    for r in regs {
        list.push((format!("commands/{r:?}"), K::Com(r)));
    }
    let cmds = commands();
    sys::pool::worker(|| {
        let w = World::new();
        let list = list.clone();
        let (of, cmds) = (of.clone(), cmds.clone());
        move |k| {
            let r = match &list[k].1 {
                K::Reg(n, op) => registries(*n, *op, &w.home),
                K::Stub(kind, way) => stubborn(&w, *kind, *way).map(|o| format!("1 1 1 {o}")),
                K::Ver(v) => version(&w, v).map(|o| format!("1 1 1 {o}")),
                K::Man(kind, pre, depth) => (|| {
                    let mut outs = BTreeSet::new();
                    let (mut n, mut steps) = (0, 0);
                    let mut todo = vec![pre.clone()];
                    while let Some(s) = todo.pop() {
                        n += 1;
                        steps += s.len();
                        outs.insert(managed(&w, *kind, &s)?);
                        if s.len() < *depth {
                            todo.extend(ACTS.iter().map(|a| s.iter().copied().chain([*a]).collect()));
                        }
                    }
                    Ok(format!("{n} {steps} {}", outs.len()))
                })(),
                K::Com(r) => (|| {
                    let reg: Vec<_> = r.iter().map(|i| of[*i].clone()).collect();
                    let mut outs = BTreeMap::new();
                    for c in &cmds {
                        *outs.entry(command(&w, c, &reg).map_err(|e| format!("{c:?} with {reg:?}: {e}"))?).or_insert(0) += 1;
                    }
                    Ok(format!("{} {} {}", cmds.len(), cmds.len(), outs.len()))
                })(),
            };
            match r {
                Ok(s) => format!("ok {s}"),
                Err(e) => format!("bad {e}"),
            }
        }
    });
    let mut c = Check::new("C16", "model_checking");
    let pool = sys::pool::Pool::start((0..list.len()).filter(|k| c.wants(&list[*k].0)).collect(), 12);
    let mut totals: BTreeMap<String, [u64; 3]> = BTreeMap::new();
    for (k, (key, _)) in list.iter().enumerate() {
        if !c.wants(key) {
            continue;
        }
        let mut n = 0;
        let group = key.split('/').next().unwrap();
        c.case(group, key, || {
            let r = pool.result(k);
            match r.split_once(' ') {
                Some(("ok", r)) => {
                    let t = totals.entry(group.to_string()).or_default();
                    for (i, x) in r.split(' ').take(3).enumerate() {
                        t[i] += x.parse::<u64>().unwrap();
                    }
                    n = r.split(' ').nth(1).unwrap().parse().unwrap();
                    Out::Ok(r.to_string())
                },
                Some(("bad", e)) => Out::Bad("wrong", e.into()),
                _ => Out::Bad("panic", r),
            }
        });
        c.add(n);
    }
    pool.finish();
    c.note("states or histories, transitions, queries or outcomes", serde_json::json!(totals));
    c.finish("every state of a registry over the names that can be reached, every operation in it and every question to it against a list; every history of a plugin manager to the depth bound over plugins that work, end, refuse, or are disabled, old or missing: the right ones are started, once, reused, started again and none is left behind; every registry of a few entries under every command; every protocol version of the alphabet")
}
