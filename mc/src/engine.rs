//! Stateless exhaustive explorer.
//!
//! A driver is a function of a sequence of choices.  `Ctx::choose(n)` returns the next choice; the
//! explorer runs the driver for every sequence of choices, each one once (depth-first over the tree of
//! choices: an execution follows a prefix and takes choice 0 from there on; every alternative to those
//! zeros becomes a new prefix).  Executions run in worker processes, so that a crash or a hang of the code
//! under test is an observation of the prefix that was running and nothing else.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub enum Out {
    /// the property held; the hash identifies the observed outcome
    Ok(u64),
    /// the choices do not describe a case of this property
    Skip,
    /// key: which input, call site or history fails, in the form used by the known-findings file
    Fail(String, String),
}
pub type Res = Result<Out, String>;

pub struct Ctx {
    prefix: Vec<u16>,
    pub choices: Vec<u16>,
    arity: Vec<u16>,
    pub dir: PathBuf,
    pub thorough: bool,
    pub states: Vec<u64>,
    pub desc: String,
    want_desc: bool,
}

impl Ctx {
    pub fn new(prefix: Vec<u16>, dir: &Path, thorough: bool, want_desc: bool) -> Ctx {
        Ctx { prefix, choices: vec![], arity: vec![], dir: dir.to_path_buf(), thorough, states: vec![], desc: String::new(), want_desc }
    }
    /// the explorer's choice point
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < 60000, "harness: bad arity {}", n);
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("harness: replay divergence at choice {}: {} of {}", i, c, n);
        }
        self.choices.push(c);
        self.arity.push(n as u16);
        c as usize
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// records a state of the reference model
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        self.states.push(hash(t));
    }
    /// describes the case for evidence and replay files
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc = f();
        }
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0x9E3779B97F4A7C15);
            x ^ (x >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub run: Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>,
    /// restart the worker process after so many executions (0: never)
    pub recycle: usize,
}

pub fn fam<F: Fn(&mut Ctx) -> Res + Sync + Send + 'static>(name: &'static str, bound: &str, run: F) -> Family {
    Family { name, bound: bound.to_string(), run: Box::new(run), recycle: 0 }
}
pub fn famr<F: Fn(&mut Ctx) -> Res + Sync + Send + 'static>(name: &'static str, bound: &str, run: F) -> Family {
    Family { name, bound: bound.to_string(), run: Box::new(run), recycle: 1500 }
}

// ---------------------------------------------------------------------------------------------- worker

thread_local! { pub static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// runs code under test, turning a panic into an error text
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if l.starts_with("src/") {
                panic!("{} at {}", m, l);
            }
            Err(format!("panicked: {} ({})", m, l))
        }
    }
}

pub enum Verdict {
    Ok(u64),
    Skip,
    Fail(String, String),
    Harness(String),
}

pub fn run_one(f: &Family, cx: &mut Ctx) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(cx))) {
        Ok(Ok(Out::Ok(h))) => Verdict::Ok(h),
        Ok(Ok(Out::Skip)) => Verdict::Skip,
        Ok(Ok(Out::Fail(k, m))) => Verdict::Fail(k, m),
        Ok(Err(m)) => Verdict::Fail(String::new(), m),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if l.starts_with("src/") {
                Verdict::Harness(format!("{} at {}", m, l))
            } else {
                Verdict::Fail(String::new(), format!("panicked: {} ({})", m, l))
            }
        }
    }
}

fn choices_to_json(c: &[u16]) -> Value {
    Value::Array(c.iter().map(|x| json!(x)).collect())
}
fn choices_from_json(v: &Value) -> Vec<u16> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect()
}

const CUR_LEN: usize = 1 << 16;

pub fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        let r = libc::rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        // go when the coordinator has gone
        let parent = libc::getppid();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if libc::getppid() != parent {
                libc::_exit(3);
            }
        });
    }
}

/// Sends fd 1 to /dev/null (the progress bars print there) and returns a copy of it.
pub fn take_stdout() -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let saved = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(saved)
    }
}

pub fn worker_main(fams: &[Family], dir: &Path, thorough: bool) {
    limits();
    install_panic_hook();
    let mut out = take_stdout();
    std::fs::create_dir_all(dir).unwrap();
    let cur = unsafe {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(dir.join("cur")).unwrap();
        f.set_len(CUR_LEN as u64).unwrap();
        use std::os::unix::io::AsRawFd;
        let p = libc::mmap(std::ptr::null_mut(), CUR_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts_mut(p as *mut u16, CUR_LEN / 2)
    };
    let work = dir.join("x");
    std::fs::create_dir_all(&work).unwrap();
    let mut total = 0usize;
    for line in BufReader::new(std::io::stdin()).lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let req: Value = serde_json::from_str(&line).unwrap();
        let f = &fams[req["fam"].as_u64().unwrap() as usize];
        let slice = Duration::from_millis(req["ms"].as_u64().unwrap());
        let mut want = req["samples"].as_u64().unwrap() as usize;
        let mut stack: Vec<Vec<u16>> = req["stack"].as_array().unwrap().iter().map(choices_from_json).collect();
        let start = Instant::now();
        let (mut execs, mut skips, mut trans, mut maxdepth) = (0u64, 0u64, 0u64, 0usize);
        let mut states = HashSet::new();
        let mut outcomes = HashSet::new();
        let mut samples = vec![];
        let mut fails = vec![];
        let mut harness = None;
        let mut bye = false;
        while let Some(prefix) = stack.pop() {
            let n = prefix.len().min(CUR_LEN / 2 - 1);
            cur[1..1 + n].copy_from_slice(&prefix[..n]);
            cur[0] = n as u16 + 1;
            let plen = prefix.len();
            let mut cx = Ctx::new(prefix, &work, thorough, want > 0);
            let v = run_one(f, &mut cx);
            cur[0] = 0;
            trans += (cx.choices.len() - plen.min(cx.choices.len())) as u64 + (plen > 0) as u64;
            maxdepth = maxdepth.max(cx.choices.len());
            states.extend(cx.states.iter().cloned());
            total += 1;
            match v {
                Verdict::Ok(h) => {
                    execs += 1;
                    outcomes.insert(h);
                    if want > 0 && execs % 3 == 1 {
                        want -= 1;
                        samples.push(json!({"choices": choices_to_json(&cx.choices), "case": cx.desc}));
                    }
                }
                Verdict::Skip => skips += 1,
                Verdict::Fail(k, m) => {
                    execs += 1;
                    fails.push(json!({"choices": choices_to_json(&cx.choices), "key": k, "msg": m, "case": cx.desc}));
                }
                Verdict::Harness(m) => {
                    harness = Some(json!({"choices": choices_to_json(&cx.choices), "msg": m}));
                    break;
                }
            }
            for i in (plen..cx.choices.len()).rev() {
                for alt in (1..cx.arity[i]).rev() {
                    let mut p = cx.choices[..i].to_vec();
                    p.push(alt);
                    stack.push(p);
                }
            }
            if f.recycle > 0 && total >= f.recycle {
                bye = true;
                break;
            }
            if start.elapsed() > slice || fails.len() >= 20 {
                break;
            }
        }
        let resp = json!({"execs": execs, "skips": skips, "trans": trans, "maxdepth": maxdepth,
            "states": states.iter().collect::<Vec<_>>(), "outcomes": outcomes.iter().collect::<Vec<_>>(),
            "samples": samples, "fails": fails, "harness": harness, "bye": bye,
            "stack": stack.iter().map(|p| choices_to_json(p)).collect::<Vec<_>>()});
        let mut s = serde_json::to_vec(&resp).unwrap();
        s.push(b'\n');
        if out.write_all(&s).is_err() {
            return;
        }
        if bye {
            unsafe { libc::_exit(0) }
        }
    }
}

// ----------------------------------------------------------------------------------------- coordinator

pub struct Failure {
    pub fam: usize,
    pub choices: Vec<u16>,
    pub key: String,
    pub msg: String,
    pub case: String,
}

#[derive(Default)]
pub struct FamStats {
    pub execs: u64,
    pub skips: u64,
    pub trans: u64,
    pub maxdepth: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub exhaustive: bool,
    pub wall: f64,
}

struct Worker {
    child: Child,
    rx: mpsc::Receiver<String>,
    dir: PathBuf,
}

impl Worker {
    fn spawn(prop: &str, thorough: bool, dir: &Path) -> Worker {
        let _ = std::fs::remove_dir_all(dir);
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(&["worker", prop, if thorough { "thorough" } else { "quick" }])
            .arg(dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let so = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        Worker { child, rx, dir: dir.to_path_buf() }
    }
    fn current(&self) -> Option<Vec<u16>> {
        let b = std::fs::read(self.dir.join("cur")).ok()?;
        let w: Vec<u16> = b.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
        if w.is_empty() || w[0] == 0 {
            return None;
        }
        Some(w[1..w[0] as usize].to_vec())
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub const HANG_S: u64 = 90;

/// Runs one prefix in a fresh process.  Err: it crashed or hung.
pub fn run_isolated(prop: &str, thorough: bool, fam: usize, choices: &[u16], dir: &Path, seconds: u64) -> Result<Value, String> {
    let mut w = Worker::spawn(prop, thorough, dir);
    let req = json!({"fam": fam, "ms": 0, "samples": 1, "stack": [choices_to_json(choices)]});
    let line = format!("{}\n", req);
    let r = if w.child.stdin.as_mut().unwrap().write_all(line.as_bytes()).is_err() {
        Err("worker died".to_string())
    } else {
        match w.rx.recv_timeout(Duration::from_secs(seconds)) {
            Ok(l) => Ok(serde_json::from_str(&l).unwrap()),
            Err(mpsc::RecvTimeoutError::Timeout) => Err(format!("does not terminate within {} s", seconds)),
            Err(_) => {
                let st = w.child.wait().map(|s| s.to_string()).unwrap_or_default();
                Err(format!("crashed the process ({})", st))
            }
        }
    };
    w.kill();
    let _ = std::fs::remove_dir_all(dir);
    r
}

pub struct Explored {
    pub stats: Vec<FamStats>,
    pub fails: Vec<Failure>,
    pub error: Option<String>,
}

pub fn explore(
    prop: &str,
    fams: &[Family],
    thorough: bool,
    scratch: &Path,
    threads: usize,
    cap: Duration,
    only: Option<usize>,
    is_known: &(dyn Fn(&str) -> bool + Sync),
) -> Explored {
    let t0 = Instant::now();
    let mut res = Explored { stats: vec![], fails: vec![], error: None };
    let mut workers: Vec<Option<Worker>> = (0..threads).map(|_| None).collect();
    for (fi, _f) in fams.iter().enumerate() {
        let tf = Instant::now();
        if only.map_or(false, |o| o != fi) {
            res.stats.push(FamStats { exhaustive: true, ..FamStats::default() });
            continue;
        }
        // time still available is shared out over the remaining families
        let left = cap.checked_sub(t0.elapsed()).unwrap_or_default();
        let mut fam_cap = left / ((fams.len() - fi) as u32).max(1) * 2;
        if fam_cap > left {
            fam_cap = left;
        }
        let queue: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
        let cond = Condvar::new();
        let pending = AtomicUsize::new(1);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let stats = Mutex::new(FamStats::default());
        let fails: Mutex<BTreeMap<String, Failure>> = Mutex::new(BTreeMap::new());
        let error: Mutex<Option<String>> = Mutex::new(None);
        let deaths = AtomicU64::new(0);
        std::thread::scope(|s| {
            for (wi, slot) in workers.iter_mut().enumerate() {
                let (queue, cond, pending, stop, capped, stats, fails, error, deaths) =
                    (&queue, &cond, &pending, &stop, &capped, &stats, &fails, &error, &deaths);
                s.spawn(move || {
                    let dir = scratch.join(format!("w{}", wi));
                    loop {
                        let batch: Vec<Vec<u16>> = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if stop.load(SeqCst) || pending.load(SeqCst) == 0 {
                                    cond.notify_all();
                                    return;
                                }
                                if tf.elapsed() > fam_cap {
                                    capped.store(true, SeqCst);
                                    stop.store(true, SeqCst);
                                    continue;
                                }
                                if !q.is_empty() {
                                    break;
                                }
                                q = cond.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                            }
                            let n = (q.len() / (2 * threads)).max(1).min(2000);
                            q.drain(0..n).collect()
                        };
                        let ms = if tf.elapsed().as_millis() < 300 { 5 } else { 100 };
                        if slot.is_none() {
                            *slot = Some(Worker::spawn(prop, thorough, &dir));
                        }
                        let want = {
                            let st = stats.lock().unwrap();
                            if st.samples.len() < 3 { 1 } else { 0 }
                        };
                        let w = slot.as_mut().unwrap();
                        let req = json!({"fam": fi, "ms": ms, "samples": want,
                            "stack": batch.iter().map(|p| choices_to_json(p)).collect::<Vec<_>>()});
                        let line = format!("{}\n", req);
                        let sent = w.child.stdin.as_mut().unwrap().write_all(line.as_bytes()).is_ok();
                        let reply = if sent {
                            w.rx.recv_timeout(Duration::from_secs(HANG_S)).map_err(|e| e == mpsc::RecvTimeoutError::Timeout)
                        } else {
                            Err(false)
                        };
                        match reply {
                            Ok(l) => {
                                let r: Value = serde_json::from_str(&l).unwrap();
                                {
                                    let mut st = stats.lock().unwrap();
                                    st.execs += r["execs"].as_u64().unwrap();
                                    st.skips += r["skips"].as_u64().unwrap();
                                    st.trans += r["trans"].as_u64().unwrap();
                                    st.maxdepth = st.maxdepth.max(r["maxdepth"].as_u64().unwrap());
                                    st.states.extend(r["states"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                                    st.outcomes.extend(r["outcomes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                                    for x in r["samples"].as_array().unwrap() {
                                        if st.samples.len() < 3 {
                                            st.samples.push(x.clone());
                                        }
                                    }
                                }
                                if !r["harness"].is_null() {
                                    *error.lock().unwrap() = Some(r["harness"].to_string());
                                    stop.store(true, SeqCst);
                                }
                                for x in r["fails"].as_array().unwrap() {
                                    let key = x["key"].as_str().unwrap().to_string();
                                    let c = choices_from_json(&x["choices"]);
                                    if !is_known(&key) {
                                        stop.store(true, SeqCst);
                                    }
                                    let mut fs = fails.lock().unwrap();
                                    let better = fs.get(&key).map_or(true, |f| (c.len(), &c) < (f.choices.len(), &f.choices));
                                    if better {
                                        fs.insert(key.clone(), Failure { fam: fi, choices: c, key, msg: x["msg"].as_str().unwrap().to_string(), case: String::new() });
                                    }
                                }
                                let rest: Vec<Vec<u16>> = r["stack"].as_array().unwrap().iter().map(choices_from_json).collect();
                                let mut q = queue.lock().unwrap();
                                pending.fetch_add(rest.len(), SeqCst);
                                pending.fetch_sub(batch.len(), SeqCst);
                                q.extend(rest);
                                cond.notify_all();
                                if r["bye"].as_bool().unwrap() {
                                    let _ = w.child.wait();
                                    *slot = None;
                                }
                            }
                            Err(_) => {
                                let cur = w.current();
                                w.kill();
                                *slot = None;
                                if stop.load(SeqCst) {
                                    return;
                                }
                                let mut confirmed = false;
                                if let Some(p) = cur {
                                    let d = scratch.join(format!("iso{}", wi));
                                    match run_isolated(prop, thorough, fi, &p, &d, HANG_S) {
                                        Err(m) => {
                                            confirmed = true;
                                            let mut fs = fails.lock().unwrap();
                                            fs.insert("crash".into(), Failure { fam: fi, choices: p, key: "crash".into(), msg: m, case: String::new() });
                                            stop.store(true, SeqCst);
                                        }
                                        Ok(_) => {}
                                    }
                                }
                                if !confirmed {
                                    if deaths.fetch_add(1, SeqCst) >= 4 {
                                        *error.lock().unwrap() = Some("worker processes die for no reproducible reason".into());
                                        stop.store(true, SeqCst);
                                    }
                                    let mut q = queue.lock().unwrap();
                                    q.extend(batch);
                                    cond.notify_all();
                                }
                            }
                        }
                    }
                });
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.exhaustive = !capped.load(SeqCst) && !stop.load(SeqCst) && pending.load(SeqCst) == 0;
        st.wall = tf.elapsed().as_secs_f64();
        res.stats.push(st);
        for (_, f) in fails.into_inner().unwrap() {
            res.fails.push(f);
        }
        if let Some(e) = error.into_inner().unwrap() {
            res.error = Some(e);
            break;
        }
        if res.fails.iter().any(|f| !is_known(&f.key)) {
            break;
        }
    }
    for w in workers.iter_mut() {
        if let Some(w) = w {
            w.kill();
        }
    }
    let dir = scratch.join("describe");
    let tshrink = Instant::now();
    for f in res.fails.iter_mut() {
        if f.key == "crash" {
            continue;
        }
        // replay the recorded choices, and look for an alternative with more default choices
        let run = |c: &[u16]| -> Option<(Vec<u16>, String, String, String)> {
            let v = run_isolated(prop, thorough, f.fam, c, &dir, HANG_S).ok()?;
            let x = v["fails"].as_array().unwrap().get(0)?.clone();
            Some((choices_from_json(&x["choices"]), x["key"].as_str().unwrap().into(), x["msg"].as_str().unwrap().into(), x["case"].as_str().unwrap().into()))
        };
        let first = run(&f.choices);
        match first {
            None => f.case = "(did not fail again when replayed alone)".into(),
            Some((_, _, msg, case)) => {
                f.msg = msg;
                f.case = case;
                if is_known(&f.key) {
                    continue;
                }
                let mut i = 0;
                while i < f.choices.len() && tshrink.elapsed() < Duration::from_secs(10) {
                    if f.choices[i] > 0 {
                        let mut c = f.choices[..i].to_vec();
                        c.push(0);
                        c.extend_from_slice(&f.choices[i + 1..]);
                        if let Some((c2, k2, m2, d2)) = run(&c) {
                            if k2 == f.key && c2.len() <= f.choices.len() {
                                f.choices = c2;
                                f.msg = m2;
                                f.case = d2;
                            }
                        }
                    }
                    i += 1;
                }
            }
        }
    }
    res
}
