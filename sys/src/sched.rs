//! A controlled scheduler at system-call granularity: the file operations below one directory made by the threads of
//! an execution are performed one at a time, in an order (and with crashes) decided by the explorer. Threads stand for
//! processes: file locks belong to open files, so two threads that open a file conflict exactly as two processes do.
//! The interposed functions are the C library's, so whatever the code under test is written like, it passes here.
use libc::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::ffi::CStr;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Running,
    Waiting,
    Blocked,
    Done,
}
/// what a thread is about to do
#[derive(Clone, Debug, Default)]
pub struct Op {
    pub name: &'static str,
    pub len: usize,
    pub releases: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Grant {
    Go,
    /// write this many bytes and die
    Torn(usize),
    Die,
}
struct Inner {
    st: Vec<St>,
    op: Vec<Op>,
    grant: Vec<Option<Grant>>,
    dead: Vec<bool>,
    log: Vec<(usize, String)>,
    /// inode -> contents that survive a loss of power; files without an entry are not being written
    durable: BTreeMap<u64, Vec<u8>>,
}
pub struct Exec {
    m: Mutex<Inner>,
    c: Condvar,
    dir: String,
    fds: Mutex<HashSet<i32>>,
}
thread_local! {
    static ME: Cell<Option<(usize, *const Exec)>> = const { Cell::new(None) };
    static OFF: Cell<bool> = const { Cell::new(false) };
}
fn me() -> Option<(usize, &'static Exec)> {
    if OFF.try_with(|o| o.get()).unwrap_or(true) {
        return None;
    }
    // the execution outlives its threads
    ME.try_with(|m| m.get()).ok().flatten().map(|(i, e)| (i, unsafe { &*e }))
}
fn off<T>(f: impl FnOnce() -> T) -> T {
    OFF.with(|o| o.set(true));
    let r = f();
    OFF.with(|o| o.set(false));
    r
}
impl Exec {
    fn point(&self, i: usize, op: Op) -> Grant {
        off(|| {
            let mut g = self.m.lock().unwrap();
            if g.dead[i] {
                return Grant::Die;
            }
            g.log.push((i, op.name.to_string()));
            g.op[i] = op;
            g.st[i] = St::Waiting;
            self.c.notify_all();
            self.wait(g, i)
        })
    }
    fn blocked(&self, i: usize) -> Grant {
        off(|| {
            let mut g = self.m.lock().unwrap();
            g.log.push((i, "(blocked)".into()));
            g.st[i] = St::Blocked;
            self.c.notify_all();
            self.wait(g, i)
        })
    }
    fn wait(&self, mut g: std::sync::MutexGuard<Inner>, i: usize) -> Grant {
        loop {
            if let Some(x) = g.grant[i].take() {
                g.st[i] = St::Running;
                if x != Grant::Go {
                    g.dead[i] = true;
                }
                return x;
            }
            g = self.c.wait(g).unwrap();
        }
    }
    fn inside(&self, p: &str) -> bool {
        p.starts_with(&self.dir)
    }
}
unsafe fn s(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn err(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
fn ino(fd: i32) -> u64 {
    unsafe {
        let mut st: stat = std::mem::zeroed();
        syscall(SYS_fstat, fd, &mut st);
        st.st_ino
    }
}
unsafe fn do_open(dirfd: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    let raw = || syscall(SYS_openat, dirfd, p, flags, mode) as i32;
    let Some((i, e)) = me() else { return raw() };
    let path = s(p);
    if !e.inside(&path) {
        return raw();
    }
    let n = if flags & O_TRUNC != 0 { "open+truncate" } else { "open" };
    if e.point(i, Op { name: n, ..Default::default() }) != Grant::Go {
        return err(EIO);
    }
    let existed = off(|| std::fs::metadata(&path).is_ok());
    let before = if flags & O_TRUNC != 0 { off(|| std::fs::read(&path).unwrap_or_default()) } else { vec![] };
    let fd = raw();
    if fd >= 0 {
        off(|| {
            e.fds.lock().unwrap().insert(fd);
            if !existed || flags & O_TRUNC != 0 {
                // truncating is like writing: until synchronised, old or new contents may survive
                e.m.lock().unwrap().durable.entry(ino(fd)).or_insert(before);
            }
        });
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
fn mine(fd: i32) -> Option<(usize, &'static Exec)> {
    let (i, e) = me()?;
    if off(|| e.fds.lock().unwrap().contains(&fd)) {
        Some((i, e))
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some((i, e)) = mine(fd) {
        // a process that dies closes its files
        e.point(i, Op { name: "close", releases: true, ..Default::default() });
        off(|| e.fds.lock().unwrap().remove(&fd));
    }
    syscall(SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if let Some((i, e)) = mine(fd) {
        if e.point(i, Op { name: "read", ..Default::default() }) != Grant::Go {
            return err(EIO) as ssize_t;
        }
    }
    syscall(SYS_read, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if let Some((i, e)) = mine(fd) {
        return match e.point(i, Op { name: "write", len: n, ..Default::default() }) {
            Grant::Go => {
                unsynced(e, fd);
                syscall(SYS_write, fd, b, n) as ssize_t
            },
            Grant::Torn(k) => {
                unsynced(e, fd);
                syscall(SYS_write, fd, b, k.min(n));
                err(EIO) as ssize_t
            },
            Grant::Die => err(EIO) as ssize_t,
        };
    }
    if me().is_some() && (fd == 1 || fd == 2) {
        return n as ssize_t;
    }
    syscall(SYS_write, fd, b, n) as ssize_t
}
/// the file is about to change: what it holds now is what a loss of power would leave
fn unsynced(e: &Exec, fd: i32) {
    off(|| {
        let now = std::fs::read(format!("/proc/self/fd/{fd}")).unwrap_or_default();
        e.m.lock().unwrap().durable.entry(ino(fd)).or_insert(now);
    })
}
unsafe fn simple(p: *const c_char, name: &'static str, f: impl FnOnce() -> i32) -> i32 {
    let Some((i, e)) = me() else { return f() };
    if !p.is_null() && !e.inside(&s(p)) {
        return f();
    }
    if e.point(i, Op { name, ..Default::default() }) != Grant::Go {
        return err(EIO);
    }
    f()
}
unsafe fn on_fd(fd: i32, name: &'static str, f: impl FnOnce(&Exec) -> i32) -> Option<i32> {
    let (i, e) = mine(fd)?;
    if e.point(i, Op { name, releases: name == "unlock", ..Default::default() }) != Grant::Go {
        return Some(err(EIO));
    }
    Some(f(e))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    let f = || syscall(SYS_ftruncate, fd, n) as i32;
    on_fd(fd, "truncate", |e| {
        unsynced(e, fd);
        f()
    })
    .unwrap_or_else(f)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    ftruncate64(fd, n)
}
unsafe fn sync(fd: i32) -> i32 {
    // nothing is really written to the disk: what has been synchronised is remembered instead
    on_fd(fd, "sync", |e| {
        off(|| {
            e.m.lock().unwrap().durable.remove(&ino(fd));
        });
        0
    })
    .unwrap_or_else(|| syscall(SYS_fsync, fd) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    let raw = |h: c_int| syscall(SYS_flock, fd, h) as i32;
    let Some((i, e)) = mine(fd) else { return raw(how) };
    let un = how & LOCK_UN != 0;
    let name = match how & !LOCK_NB {
        LOCK_EX => "lock",
        LOCK_SH => "lock-shared",
        _ => "unlock",
    };
    let mut g = e.point(i, Op { name, releases: un, ..Default::default() });
    loop {
        if g != Grant::Go {
            return err(EIO);
        }
        let r = raw(how | LOCK_NB);
        if r == 0 || un || how & LOCK_NB != 0 || *__errno_location() != EWOULDBLOCK {
            return r;
        }
        g = e.blocked(i);
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    simple(b, "rename", || syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    simple(b, "link", || syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    simple(a, "unlink", || syscall(SYS_unlinkat, AT_FDCWD, a, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    simple(a, "mkdir", || syscall(SYS_mkdirat, AT_FDCWD, a, m) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut c_void) -> c_int {
    let raw = || syscall(SYS_statx, d, p, f, m, b) as i32;
    if p.is_null() || *p == 0 {
        return raw();
    }
    simple(p, "stat", raw)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if let Some((i, e)) = mine(b) {
        if e.point(i, Op { name: "copy", ..Default::default() }) != Grant::Go {
            return err(EIO) as ssize_t;
        }
        unsynced(e, b);
    }
    syscall(SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}

/// What an execution came to.
pub struct Run<T> {
    /// what each thread returned; None: it died
    pub results: Vec<Option<T>>,
    pub log: Vec<(usize, String)>,
    /// files whose contents were not synchronised at the end: inode and what would survive a loss of power
    pub unsynced: BTreeMap<u64, Vec<u8>>,
    pub deadlock: bool,
}
/// one decision of an execution
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Choice {
    pub thread: usize,
    pub grant: Grant,
}
pub type Job<T> = Arc<dyn Fn() -> T + Send + Sync>;

/// Explore the executions of `jobs`: every interleaving with at most `preempt` preemptions, and in each at most
/// `crashes` deaths of a thread, at every operation (a dying write leaves each of the `cuts(len)` prefixes).
pub struct Explore<'a, T> {
    pub dir: String,
    pub jobs: Vec<Job<T>>,
    pub preempt: usize,
    pub crashes: usize,
    pub cuts: &'a dyn Fn(usize) -> Vec<usize>,
    pub reset: &'a dyn Fn(),
    pub check: &'a mut dyn FnMut(&Run<T>) -> Result<String, String>,
}
impl<T: Send + 'static> Explore<'_, T> {
    /// number of executions, distinct outcomes; or the schedule and the complaint
    pub fn all(mut self) -> Result<(u64, HashSet<String>), String> {
        let mut stack: Vec<Vec<Choice>> = vec![vec![]];
        let (mut n, mut outs) = (0, HashSet::new());
        while let Some(prefix) = stack.pop() {
            (self.reset)();
            let (run, made, more) = self.once(&prefix);
            n += 1;
            for (at, alt) in more {
                let mut p = made[..at].to_vec();
                p.push(alt);
                stack.push(p);
            }
            let show = || run.log.iter().map(|(i, o)| format!("{i}:{o}")).collect::<Vec<_>>().join(" ");
            if run.deadlock {
                return Err(format!("deadlock after {}", show()));
            }
            match (self.check)(&run) {
                Ok(s) => {
                    outs.insert(s);
                },
                Err(e) => {
                    let d: Vec<String> =
                        made.iter().filter(|c| c.grant != Grant::Go).map(|c| format!("{} {:?}", c.thread, c.grant)).collect();
                    return Err(format!("{e}; operations {}{}", show(), if d.is_empty() { String::new() } else { format!("; crash: {}", d.join(", ")) }));
                },
            }
        }
        Ok((n, outs))
    }
    fn once(&mut self, prefix: &[Choice]) -> (Run<T>, Vec<Choice>, Vec<(usize, Choice)>) {
        let k = self.jobs.len();
        let ex = Arc::new(Exec {
            m: Mutex::new(Inner {
                st: vec![St::Running; k],
                op: vec![Op::default(); k],
                grant: vec![None; k],
                dead: vec![false; k],
                log: vec![],
                durable: BTreeMap::new(),
            }),
            c: Condvar::new(),
            dir: self.dir.clone(),
            fds: Mutex::new(HashSet::new()),
        });
        let hs: Vec<_> = (0..k)
            .map(|i| {
                let (e, j) = (ex.clone(), self.jobs[i].clone());
                std::thread::spawn(move || {
                    e.point(i, Op { name: "start", ..Default::default() });
                    ME.with(|m| m.set(Some((i, &*e as *const Exec))));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j()));
                    ME.with(|m| m.set(None));
                    let mut g = e.m.lock().unwrap();
                    g.st[i] = St::Done;
                    let died = g.dead[i];
                    e.c.notify_all();
                    drop(g);
                    if died {
                        None
                    } else {
                        Some(r)
                    }
                })
            })
            .collect();
        let mut made: Vec<Choice> = vec![];
        let mut more = vec![];
        let (mut last, mut used, mut deaths) = (usize::MAX, 0usize, 0usize);
        let mut deadlock = false;
        let mut waited = vec![false; k];
        loop {
            let mut g = ex.m.lock().unwrap();
            while g.st.iter().any(|s| *s == St::Running) || g.grant.iter().any(|x| x.is_some()) {
                g = ex.c.wait(g).unwrap();
            }
            // a thread that found the lock taken can go on once another one has released something
            for i in 0..k {
                if g.st[i] != St::Blocked {
                    waited[i] = false;
                }
            }
            if g.st.iter().all(|s| *s == St::Done) {
                break;
            }
            let en: Vec<usize> = (0..k).filter(|&i| g.st[i] == St::Waiting || (g.st[i] == St::Blocked && waited[i])).collect();
            if en.is_empty() {
                deadlock = true;
                // let everything end
                for i in 0..k {
                    if g.st[i] == St::Blocked {
                        g.grant[i] = Some(Grant::Die);
                    }
                }
                ex.c.notify_all();
                drop(g);
                while hs.iter().any(|h| !h.is_finished()) {
                    let mut g = ex.m.lock().unwrap();
                    for i in 0..k {
                        if g.st[i] == St::Waiting || g.st[i] == St::Blocked {
                            g.grant[i] = Some(Grant::Die);
                        }
                    }
                    ex.c.notify_all();
                    drop(g);
                    std::thread::yield_now();
                }
                break;
            }
            let at = made.len();
            let cont = en.contains(&last);
            let d = if cont { last } else { en[0] };
            let pick = if at < prefix.len() {
                prefix[at]
            } else {
                for &i in &en {
                    if i != d && (!cont || used < self.preempt) {
                        more.push((at, Choice { thread: i, grant: Grant::Go }));
                    }
                }
                if deaths < self.crashes {
                    for &i in &en {
                        // a crash of a thread that is not running comes to the same as one when it is next scheduled
                        if i != d || g.op[i].name == "close" || g.st[i] == St::Blocked {
                            continue;
                        }
                        more.push((at, Choice { thread: i, grant: Grant::Die }));
                        if g.op[i].name == "write" {
                            for c in (self.cuts)(g.op[i].len) {
                                if c > 0 {
                                    more.push((at, Choice { thread: i, grant: Grant::Torn(c) }));
                                }
                            }
                        }
                    }
                }
                Choice { thread: d, grant: Grant::Go }
            };
            assert!(en.contains(&pick.thread), "an execution could not be repeated: {:?}", g.log);
            if cont && pick.thread != last {
                used += 1;
            }
            if pick.grant != Grant::Go {
                deaths += 1;
            }
            last = pick.thread;
            let rel = g.op[pick.thread].releases || pick.grant != Grant::Go;
            let was_blocked = g.st[pick.thread] == St::Blocked;
            made.push(pick);
            g.st[pick.thread] = St::Running;
            g.grant[pick.thread] = Some(pick.grant);
            ex.c.notify_all();
            // wait for it to reach its next operation before looking at who may run
            while g.st[pick.thread] == St::Running || g.grant[pick.thread].is_some() {
                g = ex.c.wait(g).unwrap();
            }
            if was_blocked {
                waited[pick.thread] = false;
            }
            if rel || g.st[pick.thread] == St::Done {
                for (i, w) in waited.iter_mut().enumerate() {
                    if i != pick.thread {
                        *w = true;
                    }
                }
            }
        }
        let results = hs
            .into_iter()
            .map(|h| match h.join().expect("thread") {
                None => None,
                Some(Ok(r)) => Some(r),
                Some(Err(p)) => std::panic::resume_unwind(p),
            })
            .collect();
        let g = ex.m.lock().unwrap();
        (Run { results, log: g.log.clone(), unsynced: g.durable.clone(), deadlock }, made, more)
    }
}
