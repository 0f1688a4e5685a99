//! Cases computed by worker processes (the same program, started again), a few at a time.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};

const ENV: &str = "MC_POOL_WORKER";
/// In a worker: answer requests (case numbers) with `f`, and never return.
pub fn worker<F: FnMut(usize) -> String>(make: impl FnOnce() -> F) {
    let Ok(w) = std::env::var(ENV) else { return };
    std::env::remove_var(ENV);
    let mut f = make();
    unsafe {
        // one processor each: handing over between the threads of an execution is cheapest there
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w.parse::<usize>().unwrap_or(0) % n, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut line = String::new();
    while std::io::stdin().read_line(&mut line).unwrap_or(0) > 0 {
        let k: usize = line.trim().parse().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(k))).unwrap_or_else(|p| {
            let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("PANIC {s}")
        });
        println!("RESULT {}", r.replace('\n', " "));
        line.clear();
    }
    drop(f);
    std::process::exit(0);
}
type Shared = Arc<(Mutex<(Vec<usize>, BTreeMap<usize, String>)>, Condvar)>;
pub struct Pool(Shared, Vec<std::thread::JoinHandle<()>>);
impl Pool {
    /// start computing the cases in order on `n` workers
    pub fn start(cases: Vec<usize>, n: usize) -> Pool {
        let mut left = cases;
        left.reverse();
        let sh: Shared = Arc::new((Mutex::new((left, BTreeMap::new())), Condvar::new()));
        let mut hs = vec![];
        for w in 0..n {
            let sh = sh.clone();
            hs.push(std::thread::spawn(move || {
                let spawn = || -> (Child, BufReader<std::process::ChildStdout>) {
                    let mut c = Command::new(std::env::current_exe().unwrap())
                        .args(std::env::args().skip(1))
                        .env(ENV, w.to_string())
                        .stdin(Stdio::piped())
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let o = BufReader::new(c.stdout.take().unwrap());
                    (c, o)
                };
                let mut p = spawn();
                loop {
                    let Some(k) = sh.0.lock().unwrap().0.pop() else { break };
                    let _ = writeln!(p.0.stdin.as_mut().unwrap(), "{k}");
                    let r = loop {
                        let mut l = String::new();
                        match p.1.read_line(&mut l) {
                            Ok(n) if n > 0 => {
                                if let Some(r) = l.strip_prefix("RESULT ") {
                                    break r.trim_end().to_string();
                                }
                            },
                            _ => {
                                let s = p.0.wait();
                                p = spawn();
                                break format!("PANIC the process died: {s:?}");
                            },
                        }
                    };
                    sh.0.lock().unwrap().1.insert(k, r);
                    sh.1.notify_all();
                }
                drop(p.0.stdin.take());
                let _ = p.0.wait();
            }));
        }
        Pool(sh, hs)
    }
    /// let the workers end
    pub fn finish(self) {
        for h in self.1 {
            let _ = h.join();
        }
    }
    pub fn result(&self, k: usize) -> String {
        let mut g = self.0 .0.lock().unwrap();
        loop {
            if let Some(r) = g.1.get(&k) {
                return r.clone();
            }
            g = self.0 .1.wait(g).unwrap();
        }
    }
}
