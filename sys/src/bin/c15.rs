//! C15: the plugin protocol. Every sequence of peer behaviours to the depth bound against the real client, and every
//! sequence of lines to the depth bound against the real server.
use hodu_plugin_runtime::*;
use mc::check::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// what the plugin does with a request; see peer.rs
const CLIENT: &str = "aenNBfFgobdszuvpwcUhHxXSLMCD";
const LETHAL: &str = "hHxXU";
const SILENT: &str = "SLM";

fn helper(name: &str) -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}
/// wait, but not for ever
fn reap(mut c: std::process::Child) -> Result<Option<i32>, String> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
            return Ok(s.code());
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            return Err("the plugin does not end when its input does".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}
#[derive(Debug)]
enum Got {
    Tag(String),
    Unit,
    Rpc(i32, String),
    Timeout,
    Err(String),
}
fn client(script: &str, dir: &std::path::Path) -> Result<String, String> {
    let log = dir.join("log");
    let _ = std::fs::remove_file(&log);
    let mut child = Command::new(helper("peer"))
        .arg(script)
        .arg(&log)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut cl = PluginClient::new(&mut child).map_err(|e| e.to_string())?;
    let notes = Arc::new(Mutex::new(Vec::<String>::new()));
    let handle = cl.cancellation_handle();
    let (n2, h2) = (notes.clone(), handle.clone());
    cl.set_notification_handler(Box::new(move |m, p| {
        n2.lock().unwrap().push(format!("{m} {}", p.map_or(String::new(), |p| p["percent"].to_string())));
        if p.map_or(false, |p| p["percent"] == 77) {
            let _ = h2.cancel();
        }
    }));
    let script: Vec<char> = script.chars().collect();
    let mut want_notes: Vec<&str> = vec![];
    let mut got: Vec<Got> = vec![];
    let mut calls = script.clone();
    let mut dead = false;
    if script.iter().any(|c| LETHAL.contains(*c)) {
        calls.push('a');
    }
    let sum: usize = script.iter().map(|c| *c as usize).sum();
    let mut sent = vec![];
    let mut k = 0;
    while k < calls.len() {
        let b = calls[k];
        // nothing is in progress: nothing to cancel
        let _ = handle.cancel();
        cl.set_timeout(if SILENT.contains(b) && !dead { Duration::from_millis(60) } else { Duration::from_secs(30) });
        let path = format!("/p{k}");
        let t = Instant::now();
        let unit = |r: Result<(), ClientError>| r.map(|_| None);
        let (m, r) = match (k + sum) % 5 {
            0 => ("format.load_model", cl.load_model(&path).map(|r| Some(r.snapshot_path))),
            1 => ("format.save_model", unit(cl.save_model("/s", &path))),
            2 => ("backend.build", unit(cl.build("/s", "t", "d", "f", &path))),
            3 => ("backend.supported_targets", cl.list_targets().map(|r| r.targets.first().cloned())),
            _ => ("format.load_tensor", cl.load_tensor(&path).map(|r| Some(r.tensor_path))),
        };
        let unit = matches!(m, "format.save_model" | "backend.build");
        let g = match r {
            Ok(Some(t)) => Got::Tag(t),
            Ok(None) => Got::Unit,
            Err(ClientError::Rpc(e)) => Got::Rpc(e.code, e.message),
            Err(ClientError::Timeout(_)) => Got::Timeout,
            Err(e) => Got::Err(e.to_string()),
        };
        let err = matches!(g, Got::Err(_) | Got::Rpc(..));
        let own = if unit { matches!(g, Got::Unit) } else { matches!(g, Got::Tag(_)) };
        let ok = if dead {
            // after bytes that are no text the connection may be given up, or not
            matches!(g, Got::Err(_)) || k > 0 && calls[k - 1] == 'U' && (own || err)
        } else {
            match b {
                'a' | 'f' | 'd' | 'w' | 'c' | 'p' | 'X' | 'C' => own,
                'e' | 'F' | 'D' => matches!(g, Got::Rpc(-32000, _)),
                'n' => own && unit || matches!(g, Got::Err(_)) && !unit,
                'N' | 'h' | 'x' => matches!(g, Got::Err(_)),
                'B' | 'g' | 'o' | 'b' | 's' | 'z' | 'u' | 'v' | 'H' | 'U' => own || err,
                _ => matches!(g, Got::Timeout),
            }
        };
        if !ok {
            return Err(format!("request {k} ({m}), plugin does '{b}'{}: {g:?}", if dead { " (it has ended)" } else { "" }));
        }
        if t.elapsed() > Duration::from_secs(20) {
            return Err(format!("request {k}: took {:?}", t.elapsed()));
        }
        if !dead {
            if k > 0 && calls[k - 1] == 'M' {
                want_notes.push("$/progress 9");
            }
            match b {
                'f' => want_notes.push("$/progress 1"),
                'F' => want_notes.extend(["$/progress 1", "$/unknown ", "$/log null"]),
                'C' | 'D' => want_notes.push("$/progress 77"),
                _ => {},
            }
            sent.push((m, path, b));
        }
        got.push(g);
        dead |= LETHAL.contains(b);
        if dead && k + 1 < calls.len() {
            // one more request, no matter what the script would go on with
            calls.truncate(k + 2);
        }
        k += 1;
    }
    let _ = handle.cancel();
    drop(cl);
    drop(handle);
    reap(child)?;
    // the notifications, each once and in order
    let have = notes.lock().unwrap().clone();
    if have != want_notes {
        return Err(format!("notifications {have:?}, expected {want_notes:?}"));
    }
    // what the plugin received
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let lines: Vec<Value> = text
        .lines()
        .map(|l| serde_json::from_str(l).map_err(|e| format!("the plugin received {l:?}: {e}")))
        .collect::<Result<_, _>>()?;
    let mut ids: Vec<i64> = vec![];
    let mut it = lines.iter();
    for (k, (m, path, b)) in sent.iter().enumerate() {
        let r = it.next().ok_or(format!("request {k} never arrived"))?;
        let p = r["params"]["path"].as_str().or(r["params"]["output_path"].as_str());
        if r["method"] != *m || (p != Some(path) && *m != "backend.supported_targets") || r["jsonrpc"] != "2.0" {
            return Err(format!("request {k} ({m} {path}) arrived as {r}"));
        }
        let id = r["id"].as_i64().ok_or(format!("the id of {r}"))?;
        if ids.last().is_some_and(|l| *l >= id) {
            return Err(format!("ids {ids:?} then {id}"));
        }
        ids.push(id);
        // the answer is the one to this request
        let tag = format!("{}#{id}", p.unwrap_or("?"));
        match &got[k] {
            Got::Tag(t) if *t != tag => return Err(format!("request {k}, plugin does '{b}': the answer is {t}, not {tag}")),
            Got::Rpc(-32000, t) if *t != tag => return Err(format!("request {k}, plugin does '{b}': the error is {t}, not {tag}")),
            _ => {},
        }
        if matches!(b, 'C' | 'D') {
            let c = it.next().ok_or("the cancellation never arrived")?;
            if c["method"] != "$/cancel" || c["params"]["id"] != id {
                return Err(format!("while request {id} was cancelled, {c} arrived"));
            }
            ids.push(c["id"].as_i64().ok_or("the id of the cancellation")?);
        }
    }
    if let Some(x) = it.next().filter(|_| !calls.contains(&'U')) {
        return Err(format!("{x} arrived as well"));
    }
    Ok(got.iter().map(|g| match g { Got::Tag(_) | Got::Unit => 'k', Got::Rpc(..) => 'r', Got::Timeout => 't', Got::Err(_) => 'e' }).collect())
}

/// A line sent to the server: name, text ({} is a number of its own), what is expected of an initialised server
const SERVER: &[(&str, &str, &str)] = &[
    ("init", r#"{"jsonrpc":"2.0","method":"initialize","params":{"plugin_version":"0.1.0","protocol_version":"1.0.0"},"id":{}}"#, "init"),
    ("init-bad", r#"{"jsonrpc":"2.0","method":"initialize","params":{"plugin_version":1},"id":{}}"#, "init-bad"),
    ("init-none", r#"{"jsonrpc":"2.0","method":"initialize","id":"i{}"}"#, "init-bad"),
    ("load", r#"{"jsonrpc":"2.0","method":"format.load_model","params":{"path":"p{}"},"id":{}}"#, "load"),
    ("load-str", r#"{"id":"s{}","params":{"path":"p{}","more":[{}]},"method":"format.load_model","jsonrpc":"2.0"}"#, "load"),
    ("load-cr", "{\"jsonrpc\":\"2.0\",\"method\":\"format.load_model\",\"params\":{\"path\":\"p{}\"},\"id\":{}}\r", "load"),
    ("load-bad", r#"{"jsonrpc":"2.0","method":"format.load_model","params":{"path":7},"id":{}}"#, "-32602"),
    ("load-none", r#"{"jsonrpc":"2.0","method":"format.load_model","id":{}}"#, "-32602"),
    ("run", r#"{"jsonrpc":"2.0","method":"backend.run","params":{"n":{}},"id":{}}"#, "-32005"),
    ("build", r#"{"jsonrpc":"2.0","method":"backend.build","params":{},"id":{}}"#, "null"),
    ("targets", r#"{"jsonrpc":"2.0","method":"backend.supported_targets","id":"t{}"}"#, "targets"),
    ("targets-p", r#"{"jsonrpc":"2.0","method":"backend.supported_targets","params":{"x":1},"id":{}}"#, "targets"),
    ("notify", r#"{"jsonrpc":"2.0","method":"x.notify","params":{"n":{}},"id":{}}"#, "notify"),
    ("unknown", r#"{"jsonrpc":"2.0","method":"no.such","params":{},"id":{}}"#, "-32601"),
    ("cancel", r#"{"jsonrpc":"2.0","method":"$/cancel","params":{"id":1},"id":{}}"#, "-32601"),
    ("note", r#"{"jsonrpc":"2.0","method":"format.load_model","params":{"path":"x"}}"#, "none"),
    ("note-unknown", r#"{"jsonrpc":"2.0","method":"$/whatever"}"#, "none"),
    ("blank", "", "none"),
    ("spaces", " \t\r", "none"),
    ("garbage", "{\"jsonrpc\":\"2.0\",\"method\":", "parse"),
    ("utf8", "{\"jsonrpc\":\"2.0\",\"method\":\"\u{FFFD}\",\"id\":{}}", "parse"),
    ("nul", "\0", "parse"),
    ("number", "5", "invalid"),
    ("array", "[]", "invalid"),
    ("no-method", r#"{"jsonrpc":"2.0","id":{}}"#, "invalid-id"),
    ("method-5", r#"{"jsonrpc":"2.0","method":5,"id":"m{}"}"#, "invalid-id"),
    ("id-null", r#"{"jsonrpc":"2.0","method":"format.load_model","params":{"path":"x"},"id":null}"#, "invalid"),
    ("id-object", r#"{"jsonrpc":"2.0","method":"no.such","id":{"x":1}}"#, "invalid"),
    ("shutdown", r#"{"jsonrpc":"2.0","method":"shutdown","id":{}}"#, "shutdown"),
];
fn server(seq: &[usize], end_of_line: bool) -> Result<String, String> {
    let mut input: Vec<u8> = vec![];
    // expected: notification methods, and answers as (id or none, what)
    let mut want: Vec<(Value, String)> = vec![];
    let mut init = false;
    let mut down = false;
    let mut seq = seq.to_vec();
    seq.push(SERVER.iter().position(|x| x.0 == "load").unwrap());
    for (k, &i) in seq.iter().enumerate() {
        let (name, text, exp) = SERVER[i];
        let n = 100 + k;
        let line = text.replace("{}", &n.to_string()).replace("[100", "[1 , 100");
        if name == "utf8" {
            input.extend(line.replace('\u{FFFD}', "\u{1}").bytes().map(|b| if b == 1 { 0xFF } else { b }));
        } else {
            input.extend(line.bytes());
        }
        if k + 1 < seq.len() || end_of_line {
            input.push(b'\n');
        }
        if down {
            continue;
        }
        let id = serde_json::from_str::<Value>(&line).map(|v| v["id"].clone()).unwrap_or(Value::Null);
        match exp {
            "none" => {},
            "shutdown" => down = true,
            "init" => {
                want.push((id, if init { "-32600".into() } else { "init".into() }));
                init = true;
            },
            "init-bad" => want.push((id, if init { "error".into() } else { "-32602".into() })),
            "parse" => want.push((Value::Null, "-32700".into())),
            "invalid" => want.push((Value::Null, "-32600".into())),
            "invalid-id" => want.push((id, "-32600".into())),
            _ if !init => want.push((id, "error".into())),
            "load" => want.push((id, format!(r#"{{"snapshot_path":"<p{n}>"}}"#))),
            "-32005" => want.push((id, format!("-32005 {{\"n\":{n}}}"))),
            "null" => want.push((id, "null".into())),
            "targets" => want.push((id, r#"{"formatted":"a\nb","targets":["t"]}"#.into())),
            "notify" => {
                want.push((Value::Null, "$/progress half 50".into()));
                want.push((Value::Null, "$/log line\nline".into()));
                want.push((id, format!("{{\"n\":{n}}}")));
            },
            e => want.push((id, e.into())),
        }
    }
    let mut ch = Command::new(helper("srv"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut stdin = ch.stdin.take().unwrap();
    let mut stdout = ch.stdout.take().unwrap();
    let mut stderr = ch.stderr.take().unwrap();
    let _ = stdin.write_all(&input); // fits into the pipe
    drop(stdin);
    let mut out = String::new();
    stdout.read_to_string(&mut out).map_err(|e| format!("output: {e}"))?;
    let mut err = String::new();
    let _ = stderr.read_to_string(&mut err);
    let code = reap(ch)?;
    if code != Some(0) {
        return Err(format!("the server ended with {code:?} {}", err.lines().next().unwrap_or("")));
    }
    let have: Vec<Value> = out
        .lines()
        .map(|l| serde_json::from_str(l).map_err(|e| format!("the server wrote {l:?}: {e}")))
        .collect::<Result<_, _>>()?;
    if have.len() != want.len() {
        return Err(format!("{} answers, expected {}: {have:?}", have.len(), want.len()));
    }
    for (h, (id, what)) in have.iter().zip(&want) {
        let bad = || Err(format!("answer {h}, expected id {id} and {what}"));
        if h["jsonrpc"] != "2.0" {
            return bad();
        }
        if what.starts_with("$/") {
            let s = format!("{} {}{}", h["method"].as_str().unwrap_or(""), h["params"]["message"].as_str().unwrap_or(""), match &h["params"]["percent"] { Value::Null => String::new(), p => format!(" {p}") });
            if s != *what || h.get("id").is_some() {
                return bad();
            }
            continue;
        }
        // an id that cannot be told is null or 0
        if h["id"] != *id && !(id.is_null() && h["id"] == 0) || h.get("method").is_some() {
            return bad();
        }
        let e = h.get("error");
        if e.is_some() == h.get("result").is_some() {
            return bad();
        }
        let fits = match (what.as_str(), e) {
            ("error", Some(_)) => true,
            (w, Some(e)) => {
                let (c, m) = w.split_once(' ').unwrap_or((w, ""));
                e["code"].to_string() == c && (m.is_empty() || e["message"] == m && e["data"] == json!([1, "é"]))
            },
            ("init", None) => {
                let r = &h["result"];
                r["name"] == "srv"
                    && r["version"] == "1.2.3"
                    && r["protocol_version"] == "1.0.0"
                    && r["devices"] == json!(["cpu"])
                    && r["model_extensions"] == json!(["m"])
                    && r.get("tensor_extensions").is_none()
                    && r["capabilities"] == json!(["format.load_model", "backend.run", "backend.build", "backend.supported_targets"])
            },
            (w, None) => h["result"].to_string() == w,
        };
        if !fits {
            return bad();
        }
    }
    Ok(want.iter().map(|w| w.1.chars().next().unwrap()).collect())
}

fn main() {
    let th = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let al: Vec<char> = CLIENT.chars().collect();
    let depth = if th { 4 } else { 3 };
    // one case: the beginning of the sequences it stands for
    let mut list: Vec<(String, bool, Vec<usize>)> = vec![];
    let lethal = |c: usize| LETHAL.contains(al[c]);
    for a in 0..al.len() {
        for b in 0..al.len() {
            if lethal(a) && b > 0 {
                continue;
            }
            list.push((format!("client/{}{}", al[a], al[b]), true, vec![a, b]));
        }
    }
    let i0 = SERVER.iter().position(|x| x.0 == "init").unwrap();
    for a in 0..SERVER.len() {
        for b in 0..SERVER.len() {
            list.push((format!("server/{}+{}", SERVER[a].0, SERVER[b].0), false, vec![a, b]));
            list.push((format!("server-ready/{}+{}", SERVER[a].0, SERVER[b].0), false, vec![i0, a, b]));
        }
    }
    sys::pool::worker(|| {
        let dir = Dir(std::env::temp_dir().join(format!("mc-c15-{}", std::process::id())));
        std::fs::create_dir_all(&dir.0).unwrap();
        let list = list.clone();
        let al = al.clone();
        move |k| {
            let (_, cl, pre) = &list[k];
            let mut outs = std::collections::BTreeSet::new();
            let mut n = 0u64;
            let mut todo = vec![pre.clone()];
            while let Some(s) = todo.pop() {
                n += 1;
                let r = if *cl {
                    let script: String = s.iter().map(|i| al[*i]).collect();
                    client(&script, &dir.0).map_err(|e| format!("{script}: {e}"))
                } else {
                    let names: Vec<&str> = s.iter().map(|i| SERVER[*i].0).collect();
                    server(&s, n % 3 != 0).map_err(|e| format!("{}: {e}", names.join(" ")))
                };
                match r {
                    Ok(o) => {
                        outs.insert(o);
                    },
                    Err(e) => return format!("bad {e}"),
                }
                let ended = if *cl { s.iter().any(|i| LETHAL.contains(al[*i])) } else { s.iter().any(|i| SERVER[*i].0 == "shutdown") };
                let room = if *cl { s.len() < depth } else { s.len() < pre.len() + if th { 2 } else { 1 } };
                if room && !ended {
                    todo.extend((0..if *cl { al.len() } else { SERVER.len() }).map(|i| s.iter().copied().chain([i]).collect()));
                }
            }
            format!("ok {n} {}", outs.len())
        }
    });
    let mut c = Check::new("C15", "model_checking");
    let pool = sys::pool::Pool::start((0..list.len()).filter(|k| c.wants(&list[*k].0)).collect(), 16);
    let (mut runs, mut outs) = (0u64, 0usize);
    for (k, (key, ..)) in list.iter().enumerate() {
        if !c.wants(key) {
            continue;
        }
        let mut n = 0;
        c.case(key.split('/').next().unwrap(), key, || {
            let r = pool.result(k);
            match r.split_once(' ') {
                Some(("ok", r)) => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    n = v[0];
                    runs += n;
                    outs += v[1] as usize;
                    Out::Ok(format!("{n} sequences, {} outcomes", v[1]))
                },
                Some(("bad", e)) => Out::Bad("wrong", e.into()),
                _ => Out::Bad("panic", r),
            }
        });
        c.add(n);
    }
    pool.finish();
    c.note("sequences", runs);
    c.note("outcomes of sequences", outs);
    c.finish("every sequence of peer behaviours (answers, errors, nothing, late, twice, wrong id, malformed, early end, notifications, cancellation) to the depth bound against the real client in a real process pair; every sequence of lines to the depth bound, before and after initialisation, against the real server")
}
struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
