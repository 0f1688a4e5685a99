//! A plugin for the managers and the commands (see c16.rs and c20.rs). Its directory (first argument) says in the file
//! `behave` how it behaves, one word per line; what it does is added to the file `log` there.
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let behave = std::fs::read_to_string(dir.join("behave")).unwrap_or_default();
    let is = |w: &str| behave.lines().any(|l| l == w);
    let arg = |w: &str| behave.lines().find_map(|l| l.strip_prefix(w).map(|s| s.to_string()));
    let log = |s: &str| {
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("log")).unwrap();
        f.write_all(format!("{s}\n").as_bytes()).unwrap();
    };
    log(&format!("start {}", std::process::id()));
    let mut out = std::io::stdout();
    let mut line = String::new();
    let mut input = std::io::stdin().lock();
    while input.read_line(&mut line).unwrap_or(0) > 0 {
        let m: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
        line.clear();
        let method = m["method"].as_str().unwrap_or("").to_string();
        let p = &m["params"];
        let mut send = |v: Value| {
            let mut v = v;
            v["jsonrpc"] = json!("2.0");
            v["id"] = m["id"].clone();
            let _ = out.write_all(format!("{v}\n").as_bytes());
            let _ = out.flush();
        };
        match method.as_str() {
            "initialize" => {
                if is("die-at-initialize") {
                    std::process::exit(1);
                }
                if is("refuse-initialize") {
                    send(json!({"error":{"code":-32000,"message":"no"}}));
                    continue;
                }
                let v = arg("protocol=").unwrap_or(p["protocol_version"].as_str().unwrap_or("").into());
                send(json!({"result":{"name":"plug","version":"1.0.0","protocol_version":v,"plugin_version":p["plugin_version"],"capabilities":[]}}));
                if is("die-when-initialized") {
                    std::process::exit(1);
                }
                continue;
            },
            "shutdown" => {
                log("shutdown");
                if is("stay") {
                    continue;
                }
                std::process::exit(0);
            },
            _ => {},
        }
        log(&format!("{method} {}", p));
        if is(&format!("die-at-{method}")) {
            std::process::exit(1);
        }
        if is(&format!("refuse-{method}")) {
            send(json!({"error":{"code":-32000,"message":"no"}}));
            continue;
        }
        let result = match method.as_str() {
            "format.load_model" => json!({"snapshot_path": arg("model=")}),
            "format.load_tensor" => json!({"tensor_path": arg("tensor=")}),
            "format.save_model" | "format.save_tensor" => {
                let o = p["output_path"].as_str().unwrap_or("/dev/null");
                std::fs::write(o, "saved").unwrap();
                Value::Null
            },
            "backend.build" => {
                let o = std::path::PathBuf::from(p["output_path"].as_str().unwrap_or("/dev/null"));
                let model = std::fs::read(p["snapshot_path"].as_str().unwrap_or("")).unwrap_or_default();
                let what = format!("library {} for {} on {} {}", arg("version=").unwrap_or_default(), sum(&model), p["device"].as_str().unwrap_or("?"), p["target"].as_str().unwrap_or("?"));
                let half = &what.as_bytes()[..what.len() / 2];
                for (w, code) in [("half-then-die", 1), ("half-then-refuse", 0), ("half-then-hang", 2)] {
                    if is(w) {
                        std::fs::write(&o, half).unwrap();
                        match code {
                            1 => std::process::exit(1),
                            0 => send(json!({"error":{"code":-32000,"message":"no"}})),
                            _ => std::thread::sleep(std::time::Duration::from_secs(20)),
                        }
                    }
                }
                if is("half-then-refuse") || is("half-then-hang") {
                    continue;
                }
                std::fs::write(&o, what).unwrap();
                Value::Null
            },
            "backend.run" => {
                let lib = std::fs::read_to_string(p["library_path"].as_str().or(p["lib_path"].as_str()).unwrap_or("")).unwrap_or("unreadable".into());
                let model = std::fs::read(p["snapshot_path"].as_str().unwrap_or("")).unwrap_or_default();
                log(&format!("ran {} on {} with {lib}", sum(&model), p["device"].as_str().unwrap_or("?")));
                json!({"outputs": []})
            },
            "backend.supported_targets" | "backend.list_targets" => json!({"targets": [], "formatted": ""}),
            _ => Value::Null,
        };
        send(json!({ "result": result }));
    }
    log("end");
    if is("stay") {
        std::thread::sleep(std::time::Duration::from_secs(600));
    }
}
fn sum(b: &[u8]) -> u64 {
    b.iter().fold(1469598103934665603u64, |h, x| (h ^ *x as u64).wrapping_mul(1099511628211))
}
