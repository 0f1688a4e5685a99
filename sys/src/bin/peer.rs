//! A plugin that behaves as its script says, one letter per request (see c15.rs). At the end of its input it prints
//! what it received to the file named by its second argument.
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    let script: Vec<char> = std::env::args().nth(1).unwrap().chars().collect();
    let log = std::env::args().nth(2).unwrap();
    let mut got: Vec<String> = vec![];
    let mut input = std::io::stdin().lock();
    let out = std::cell::RefCell::new(std::io::stdout().lock());
    let mut late: Vec<String> = vec![];
    let mut prev: Option<String> = None;
    let mut k = 0;
    let mut line = String::new();
    let mut next = |got: &mut Vec<String>| -> Option<Value> {
        line.clear();
        match input.read_line(&mut line) {
            Ok(n) if n > 0 => {
                got.push(line.trim_end().to_string());
                std::fs::write(&log, got.join("\n")).unwrap();
                Some(serde_json::from_str(&line).unwrap_or(Value::Null))
            },
            _ => None,
        }
    };
    while let Some(m) = next(&mut got) {
        let send = |s: &str| {
            let _ = out.borrow_mut().write_all(s.as_bytes());
            let _ = out.borrow_mut().write_all(b"\n");
            let _ = out.borrow_mut().flush();
        };
        let id = m["id"].clone();
        if m["method"] == "$/cancel" {
            send(&json!({"jsonrpc":"2.0","id":id,"error":{"code":-32601,"message":"no cancel"}}).to_string());
            continue;
        }
        for l in late.drain(..) {
            send(&l);
        }
        let tag = format!("{}#{}", m["params"]["path"].as_str().or(m["params"]["output_path"].as_str()).unwrap_or("?"), id);
        // a result that fits every method
        let mut res = json!({"snapshot_path": tag, "tensor_path": tag, "outputs": [{"name": tag, "path": tag}], "targets": [tag], "formatted": tag});
        let ans = |res: &Value| json!({"jsonrpc":"2.0","result":res,"id":id}).to_string();
        let good = ans(&res);
        let err = json!({"jsonrpc":"2.0","error":{"code":-32000,"message":tag,"data":{"x":1}},"id":id}).to_string();
        let note = |n: usize| json!({"jsonrpc":"2.0","method":"$/progress","params":{"percent":n,"message":tag}}).to_string();
        match script.get(k).copied().unwrap_or('a') {
            'a' => send(&good),
            'I' => {
                let v = std::env::args().nth(3).unwrap();
                send(&ans(&json!({"name":"p","version":"1.0.0","protocol_version":v,"plugin_version":"0.1.0","capabilities":[]})));
            },
            'e' => send(&err),
            'n' => send(&ans(&Value::Null)),
            'N' => send(&json!({"jsonrpc":"2.0","id":id}).to_string()),
            'B' => send(&json!({"jsonrpc":"2.0","id":id,"result":res,"error":{"code":-32000,"message":tag}}).to_string()),
            'f' => {
                send(&note(1));
                send(&good);
            },
            'F' => {
                send(&note(1));
                send(r#"{"jsonrpc":"2.0","method":"$/unknown"}"#);
                send(r#"{"jsonrpc":"2.0","method":7}"#);
                send(r#"{"hello":1}"#);
                send(&json!({"jsonrpc":"2.0","method":"$/log","params":{"level":"info","message":"{\"id\":1}\n"}}).to_string());
                send(&err);
            },
            'g' => {
                send("this is not JSON");
                send(&good);
            },
            'o' => {
                send("5");
                send("[]");
                send("null");
                send(&good);
            },
            'b' => {
                send("");
                send(&good);
            },
            'd' => {
                send(&good);
                send(&good);
                send(&err);
            },
            's' => {
                res["snapshot_path"] = json!("wrong");
                send(&json!({"jsonrpc":"2.0","result":res,"id":id.to_string()}).to_string());
                send(&good);
            },
            'z' => {
                send(&json!({"jsonrpc":"2.0","error":{"code":-32700,"message":"x"},"id":null}).to_string());
                send(&good);
            },
            'u' => {
                res["snapshot_path"] = json!("wrong");
                send(&json!({"jsonrpc":"2.0","result":res,"id":id.as_i64().unwrap() + 1}).to_string());
                send(&good);
            },
            'v' => {
                res["snapshot_path"] = json!("wrong");
                send(&json!({"jsonrpc":"2.0","result":res,"id":-id.as_i64().unwrap()}).to_string());
                send(&good);
            },
            'p' => {
                if let Some(p) = &prev {
                    send(p);
                }
                send(&good);
            },
            'w' => {
                res["padding"] = json!("é\"\\\n".repeat(50_000));
                send(&ans(&res));
            },
            'c' => {
                let (x, y) = good.split_at(good.len() / 2);
                let _ = out.borrow_mut().write_all(x.as_bytes());
                let _ = out.borrow_mut().flush();
                std::thread::sleep(std::time::Duration::from_millis(2));
                let _ = out.borrow_mut().write_all(y.as_bytes());
                let _ = out.borrow_mut().write_all(b"\r\n");
                let _ = out.borrow_mut().flush();
            },
            'U' => {
                let _ = out.borrow_mut().write_all(b"\xff\xfe{\n");
                let _ = out.borrow_mut().flush();
                send(&good);
            },
            'h' => {
                let _ = out.borrow_mut().write_all(&good.as_bytes()[..good.len() / 2]);
                return;
            },
            'H' => {
                // complete but for the end of the line
                let _ = out.borrow_mut().write_all(good.as_bytes());
                return;
            },
            'x' => return,
            'X' => {
                send(&good);
                return;
            },
            'S' => {},
            'L' => late.push(good.clone()),
            'M' => {
                late.push(note(9));
                late.push(err.clone());
            },
            // the host cancels when it sees the notification
            'C' => {
                send(&note(77));
                let Some(c) = next(&mut got) else { return };
                let bad = c["method"] != "$/cancel" || c["params"]["id"] != id;
                send(&json!({"jsonrpc":"2.0","id":c["id"],"error":{"code":-32601,"message":"no cancel"}}).to_string());
                send(&if bad { json!({"jsonrpc":"2.0","id":id,"error":{"code":1,"message":"wrong cancel"}}).to_string() } else { good.clone() });
            },
            'D' => {
                send(&note(77));
                let Some(c) = next(&mut got) else { return };
                let bad = c["method"] != "$/cancel" || c["params"]["id"] != id;
                send(&if bad { json!({"jsonrpc":"2.0","id":id,"error":{"code":1,"message":"wrong cancel"}}).to_string() } else { err.clone() });
                send(&json!({"jsonrpc":"2.0","id":c["id"],"result":null}).to_string());
            },
            c => panic!("{c}"),
        }
        prev = Some(good);
        k += 1;
    }
}
