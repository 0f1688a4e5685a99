//! C14: the plugin registry file. Every crash point (and torn write, and loss of unsynchronised data) of every way to
//! change it, and every interleaving to the preemption bound of two or three such changes and of readers, on the real
//! library and command code with its file operations under a controlled scheduler.
use hodu_cli::commands::plugin::*;
use hodu_plugin_runtime::*;
use mc::check::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use sys::sched::*;

type State = BTreeMap<String, String>; // name -> everything the entry says, as JSON

fn entry(name: &str, enabled: bool, deps: &[&str]) -> PluginEntry {
    let caps = if name.contains("format") {
        PluginCapabilities::model_format(true, true, vec!["onnx".into()])
    } else {
        PluginCapabilities::backend(true, false, vec!["cpu".into()], vec!["x86_64-unknown-linux-gnu".into()])
    };
    PluginEntry {
        name: name.into(),
        version: "1.2.3".into(),
        description: Some("ünïcödé \"quoted\"".into()),
        license: None,
        plugin_type: if name.contains("format") { PluginType::ModelFormat } else { PluginType::Backend },
        capabilities: caps,
        binary: name.into(),
        source: PluginSource::Local { path: "/nowhere".into() },
        installed_at: "2026-01-01T00:00:00Z".into(),
        plugin_version: "0.1.0".into(),
        enabled,
        dependencies: deps.iter().map(|s| s.to_string()).collect(),
    }
}
fn state_of(r: &PluginRegistry) -> State {
    r.plugins.iter().map(|p| (p.name.clone(), serde_json::to_string(p).unwrap())).collect()
}
fn registry(es: &[PluginEntry]) -> PluginRegistry {
    let mut r = PluginRegistry::new();
    r.plugins = es.to_vec();
    r
}
/// A change, or a look, made by one process.
#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    /// the library: replace the whole file
    Save(Vec<&'static str>),
    /// the library: lock, load, add, save
    Add(&'static str),
    Load,
    Enable(&'static str),
    Disable(&'static str),
    Remove(&'static str),
    Install(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok(Option<State>),
    Err,
    /// the registry could not be read
    Unreadable(String),
}
struct World {
    home: PathBuf,
    file: PathBuf,
    project: PathBuf,
}
impl World {
    fn new() -> World {
        let home = std::env::temp_dir().join(format!("mc-c14-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&home);
        std::fs::create_dir_all(home.join(".hodu")).unwrap();
        std::env::set_var("HOME", &home);
        // a project to install from, and a stand-in for cargo
        let project = home.join("project");
        std::fs::create_dir_all(project.join("target/debug")).unwrap();
        std::fs::write(project.join("Cargo.toml"), "[package]\nname = \"new\"\n").unwrap();
        std::fs::write(project.join("target/debug/new"), "#!/bin/sh\n").unwrap();
        std::fs::write(
            project.join("manifest.json"),
            r#"{"name":"new","version":"9.0.0","plugin_version":"0.1.0","capabilities":["backend.run"],"devices":["cpu"]}"#,
        )
        .unwrap();
        std::fs::create_dir_all(home.join("bin")).unwrap();
        let cargo = home.join("bin/cargo");
        std::fs::write(&cargo, "#!/bin/sh\nexit 0\n").unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&cargo, std::fs::Permissions::from_mode(0o755)).unwrap();
        std::env::set_var("PATH", format!("{}:/usr/bin:/bin", home.join("bin").display()));
        let file = home.join(".hodu/plugins.json");
        assert_eq!(PluginRegistry::default_path().unwrap(), file);
        World { home, file, project }
    }
    fn reset(&self, init: Option<&PluginRegistry>) {
        for e in std::fs::read_dir(self.home.join(".hodu")).unwrap().flatten() {
            if e.path().is_file() {
                std::fs::remove_file(e.path()).unwrap();
            }
        }
        if let Some(r) = init {
            std::fs::write(&self.file, serde_json::to_string_pretty(r).unwrap()).unwrap();
        }
        for n in ["a", "hodu-backend-b", "c", "d"] {
            let _ = std::fs::create_dir_all(self.home.join(".hodu/plugins").join(n));
        }
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.home);
    }
}
fn run(c: &Cmd, file: &Path, project: &Path) -> Res {
    let res = |r: Result<(), Box<dyn std::error::Error>>| match r {
        Ok(()) => Res::Ok(None),
        Err(e) => {
            let s = e.to_string();
            if s.contains("Parse error") || s.contains("IO error") || s.contains("Lock error") {
                Res::Unreadable(s)
            } else {
                Res::Err
            }
        },
    };
    let ex = |command| execute(PluginArgs { command });
    match c {
        Cmd::Save(ns) => match registry(&ns.iter().map(|n| entry(n, true, &[])).collect::<Vec<_>>()).save(file) {
            Ok(()) => Res::Ok(None),
            Err(e) => Res::Unreadable(e.to_string()),
        },
        Cmd::Add(n) => res((|| {
            let _lock = PluginRegistry::lock(file)?;
            let mut r = PluginRegistry::load(file)?;
            r.upsert(entry(n, true, &[]));
            r.save(file)?;
            Ok(())
        })()),
        Cmd::Load => match PluginRegistry::load(file) {
            Ok(r) => Res::Ok(Some(state_of(&r))),
            Err(e) => Res::Unreadable(e.to_string()),
        },
        Cmd::Enable(n) => res(ex(PluginCommands::Enable(EnableArgs { name: n.to_string() }))),
        Cmd::Disable(n) => res(ex(PluginCommands::Disable(DisableArgs { name: n.to_string() }))),
        Cmd::Remove(n) => res(ex(PluginCommands::Remove(RemoveArgs { name: n.to_string() }))),
        Cmd::Install(_) => res(ex(PluginCommands::Install(InstallArgs {
            name: None,
            path: Some(project.to_path_buf()),
            git: None,
            subdir: None,
            tag: None,
            force: false,
            debug: true,
        }))),
    }
}
/// what a command means: the reference
fn apply(c: &Cmd, s: &State) -> (State, bool) {
    let mut t = s.clone();
    let get = |t: &State, n: &str| -> Option<String> {
        [n.to_string(), format!("hodu-backend-{n}"), format!("hodu-format-{n}")].into_iter().find(|k| t.contains_key(k))
    };
    let parse = |j: &str| serde_json::from_str::<serde_json::Value>(j).unwrap_or_default();
    let ok = match c {
        Cmd::Save(ns) => {
            t = state_of(&registry(&ns.iter().map(|n| entry(n, true, &[])).collect::<Vec<_>>()));
            true
        },
        Cmd::Add(n) => {
            t.insert(n.to_string(), serde_json::to_string(&entry(n, true, &[])).unwrap());
            true
        },
        Cmd::Load => true,
        Cmd::Enable(n) => match get(&t, n) {
            Some(k) => {
                let e: PluginEntry = serde_json::from_str(&t[&k]).unwrap();
                t.insert(k, serde_json::to_string(&PluginEntry { enabled: true, ..e }).unwrap());
                true
            },
            None => false,
        },
        Cmd::Disable(n) => match get(&t, n) {
            Some(k) => {
                let needed = t.values().map(|v| parse(v)).any(|v| {
                    v["enabled"] == true && v["dependencies"].as_array().map_or(false, |d| d.iter().any(|x| x == k.as_str()))
                });
                if !needed {
                    let e: PluginEntry = serde_json::from_str(&t[&k]).unwrap();
                    t.insert(k, serde_json::to_string(&PluginEntry { enabled: false, ..e }).unwrap());
                }
                !needed
            },
            None => false,
        },
        Cmd::Remove(n) => match get(&t, n) {
            Some(k) => t.remove(&k).is_some(),
            None => false,
        },
        Cmd::Install(n) => {
            if t.contains_key(*n) {
                false
            } else {
                t.insert(n.to_string(), "installed".into());
                true
            }
        },
    };
    (t, ok)
}
fn canon(mut s: State) -> State {
    // the time of the installation is not predictable
    if let Some(v) = s.get_mut("new") {
        if v.contains("\"version\":\"9.0.0\"") && v.contains("\"enabled\":true") {
            *v = "installed".into();
        }
    }
    s
}
/// is the outcome that of the commands run one after the other in some order? `done[i]`: Some(true/false) result,
/// None: died (it may or may not have taken effect)
fn serial(init: &State, cmds: &[Cmd], res: &[Option<Res>], last: &State) -> bool {
    fn go(s: &State, cmds: &[Cmd], res: &[Option<Res>], left: &mut Vec<usize>, last: &State) -> bool {
        if left.is_empty() {
            return s == last;
        }
        for k in 0..left.len() {
            let i = left.remove(k);
            let (t, ok) = apply(&cmds[i], s);
            let fits = match &res[i] {
                None => {
                    // died: without effect, or with it
                    if go(s, cmds, res, left, last) {
                        return true;
                    }
                    true
                },
                Some(Res::Ok(Some(seen))) => canon(seen.clone()) == *s,
                Some(Res::Ok(None)) => ok,
                Some(Res::Err) => !ok,
                Some(Res::Unreadable(_)) => false,
            };
            if fits && go(&t, cmds, res, left, last) {
                return true;
            }
            left.insert(k, i);
        }
        false
    }
    go(init, cmds, res, &mut (0..cmds.len()).collect(), last)
}

#[derive(Clone)]
struct Scenario {
    key: String,
    init: Option<PluginRegistry>,
    cmds: Vec<Cmd>,
    preempt: usize,
    crashes: usize,
    all_cuts: bool,
}
fn explore(w: &World, sc: &Scenario) -> Result<(u64, usize), String> {
    let s0 = sc.init.as_ref().map(state_of).unwrap_or_default();
    let mut tried: Vec<State> = vec![s0.clone()];
    // every state some order of some of the commands leads to
    loop {
        let mut more = vec![];
        for s in &tried {
            for c in &sc.cmds {
                let t = apply(c, s).0;
                if !tried.contains(&t) && !more.contains(&t) {
                    more.push(t);
                }
            }
        }
        if more.is_empty() {
            break;
        }
        tried.extend(more);
    }
    let cuts = |n: usize| if sc.all_cuts { (1..=n).collect() } else { vec![1, n / 2, n.saturating_sub(1), n] };
    let mut check = |r: &Run<Res>| -> Result<String, String> {
        let load = || match PluginRegistry::load(&w.file) {
            Ok(r) => Ok(canon(state_of(&r))),
            Err(e) => Err(e.to_string()),
        };
        let last = load().map_err(|e| format!("afterwards the registry cannot be read: {e}"))?;
        if !serial(&s0, &sc.cmds, &r.results, &last) {
            return Err(format!(
                "results {:?} and registry {:?} are those of no order of {:?} on {:?}",
                r.results.iter().map(|x| x.as_ref().map(|x| match x { Res::Ok(Some(s)) => format!("saw {:?}", brief(s)), o => format!("{o:?}") })).collect::<Vec<_>>(),
                brief(&last), sc.cmds, brief(&s0)
            ));
        }
        // the power fails: files that were not synchronised lose what was written
        use std::os::unix::fs::MetadataExt;
        let ino = std::fs::metadata(&w.file).map(|m| m.ino()).unwrap_or(0);
        if let Some(old) = r.unsynced.get(&ino) {
            std::fs::write(&w.file, old).unwrap();
            let lost = load().map_err(|e| format!("after a loss of power the registry cannot be read: {e}"))?;
            if !tried.contains(&lost) {
                return Err(format!("after a loss of power the registry is {:?}", brief(&lost)));
            }
        }
        // whatever was left behind does not stand in the way of the next change
        if sc.crashes > 0 {
            let now = load()?;
            match run(&Cmd::Add("next"), &w.file, &w.project) {
                Res::Ok(None) => {},
                o => return Err(format!("the next change fails: {o:?}")),
            }
            if load()? != apply(&Cmd::Add("next"), &now).0 {
                return Err("the next change does not take effect".into());
            }
        }
        Ok(format!("{:?} {:?}", r.results.iter().map(|x| x.as_ref().map(|x| matches!(x, Res::Ok(_)))).collect::<Vec<_>>(), brief(&last)))
    };
    let jobs: Vec<Job<Res>> = sc
        .cmds
        .iter()
        .map(|c| {
            let (c, f, p) = (c.clone(), w.file.clone(), w.project.clone());
            Arc::new(move || run(&c, &f, &p)) as Job<Res>
        })
        .collect();
    let r = Explore {
        dir: format!("{}/.hodu/plugins.", w.home.display()),
        jobs,
        preempt: sc.preempt,
        crashes: sc.crashes,
        cuts: &cuts,
        reset: &|| w.reset(sc.init.as_ref()),
        check: &mut check,
    }
    .all();
    r.map(|(n, o)| (n, o.len()))
}
fn brief(s: &State) -> Vec<String> {
    s.iter().map(|(k, v)| if v.contains("\"enabled\":false") { format!("{k}(off)") } else { k.clone() }).collect()
}

fn main() {
    let th = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let full = registry(&[entry("a", true, &[]), entry("hodu-backend-b", false, &[]), entry("c", true, &["a"]), entry("d", true, &[])]);
    let inits: Vec<(&str, Option<PluginRegistry>)> = vec![("absent", None), ("empty", Some(PluginRegistry::new())), ("four", Some(full))];
    use Cmd::*;
    let writers = [Save(vec!["x", "y"]), Add("x"), Enable("b"), Disable("d"), Disable("a"), Disable("c"), Remove("c"), Remove("b"), Install("new")];
    let mut list: Vec<Scenario> = vec![];
    let show = |v: &[Cmd]| v.iter().map(|c| format!("{c:?}").replace(['"', ' '], "")).collect::<Vec<_>>().join("+");
    for (n, i) in &inits {
        for a in &writers {
            // alone, dying anywhere
            list.push(Scenario { key: format!("crash/{n}/{}", show(&[a.clone()])), init: i.clone(), cmds: vec![a.clone()], preempt: 0, crashes: 1, all_cuts: true });
            // with a reader
            let heavy = matches!(a, Install(_));
            let p = if heavy { 2 } else if th { 6 } else { 4 };
            list.push(Scenario { key: format!("reader/{n}/{}", show(&[a.clone()])), init: i.clone(), cmds: vec![a.clone(), Load], preempt: p, crashes: 0, all_cuts: false });
            if *n == "empty" {
                continue;
            }
            for b in &writers {
                // saving the whole file is a change that loses others' by design
                if matches!(b, Save(_)) != matches!(a, Save(_)) && !(matches!(a, Save(_)) && matches!(b, Save(_))) {
                    continue;
                }
                let cmds = vec![a.clone(), b.clone()];
                let heavy = cmds.iter().any(|c| matches!(c, Install(_)));
                let p = if heavy { 1 } else if th { 4 } else { 3 };
                list.push(Scenario { key: format!("two/{n}/{}", show(&cmds)), init: i.clone(), cmds: cmds.clone(), preempt: p, crashes: 0, all_cuts: false });
                if *n == "four" && !heavy {
                    list.push(Scenario { key: format!("two-crash/{n}/{}", show(&cmds)), init: i.clone(), cmds: cmds.clone(), preempt: if th { 2 } else { 1 }, crashes: 1, all_cuts: false });
                }
                if *n == "four" && !heavy && (th || (matches!(a, Enable(_) | Add(_)) && matches!(b, Disable("d") | Remove("c") | Add(_)))) {
                    let mut cmds = cmds;
                    cmds.push(if th { Remove("d") } else { Load });
                    list.push(Scenario { key: format!("three/{n}/{}", show(&cmds)), init: i.clone(), cmds, preempt: if th { 3 } else { 2 }, crashes: 0, all_cuts: false });
                }
            }
        }
    }
    sys::pool::worker(|| {
        let w = World::new();
        let list = list.clone();
        move |k| match explore(&w, &list[k]) {
            Ok((n, o)) => format!("ok {n} {o}"),
            Err(e) => format!("bad {e}"),
        }
    });
    let mut c = Check::new("C14", "model_checking");
    let pool = sys::pool::Pool::start((0..list.len()).filter(|k| c.wants(&list[*k].key)).collect(), 8);
    let (mut runs, mut outs) = (0u64, 0usize);
    for (k, sc) in list.iter().enumerate() {
        if !c.wants(&sc.key) {
            continue;
        }
        let mut n = 0;
        c.case(sc.key.split('/').next().unwrap(), &sc.key, || {
            let r = pool.result(k);
            match r.split_once(' ') {
                Some(("ok", r)) => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    n = v[0];
                    runs += n;
                    outs += v[1] as usize;
                    Out::Ok(format!("{n} executions, {} outcomes", v[1]))
                },
                Some(("bad", e)) => Out::Bad("wrong", e.into()),
                _ => Out::Bad("panic", r),
            }
        });
        c.add(n);
    }
    pool.finish();
    c.note("executions", runs);
    c.note("outcomes of executions", outs);
    c.finish("every way to change the registry x every state of the file x every crash point, torn write and loss of unsynchronised data; every interleaving (to the preemption bound) of two and three changes and readers at file-operation granularity, with and without a crash; results and final contents must be those of some serial order")
}
