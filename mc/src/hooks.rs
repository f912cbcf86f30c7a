//! Stand-ins for system calls of this process: injected faults, a gate in front of the progress display,
//! chosen hash seeds.  Everything passes through unless armed.
use crate::engine::Ctx;
use libc::{c_char, c_int, c_void, mode_t, off64_t, off_t, size_t, ssize_t};
use std::cell::Cell;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Open,
    Read,
    Write,
    Seek,
    Truncate,
    Sync,
    Rename,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Short(usize),
    Err(c_int),
}

pub struct Plan {
    cx: *mut Ctx,
    dir: Vec<u8>,
    budget: usize,
    /// calls an undisturbed run makes
    calls: usize,
    /// calls to let pass before the next fault
    wait: Option<usize>,
    pub log: Vec<(Call, u8)>,
}
impl Plan {
    /// the explorer decides which call is disturbed next
    fn next(&mut self) {
        self.wait = None;
        if self.budget > 0 && self.calls > 0 {
            // calls made to recover from faults come on top
            let left = (self.calls + 6).saturating_sub(self.log.len()).max(2);
            let k = unsafe { (*self.cx).choose(left + 1) };
            if k > 0 {
                self.wait = Some(k - 1);
            }
        }
    }
}
unsafe impl Send for Plan {}

static ARMED: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

/// Runs `f` while the explorer chooses which of the system calls on files under `dir` are disturbed and
/// how, at most `budget` of them.  `calls`: how many an undisturbed run makes (0: this one is undisturbed).
/// Returns the calls seen, with the fault delivered to each.
pub fn with_faults<T, F: FnOnce() -> T>(cx: &mut Ctx, dir: &Path, budget: usize, calls: usize, f: F) -> (T, Vec<(Call, u8)>) {
    let mut p = Plan { cx: cx as *mut Ctx, dir: dir.to_str().unwrap().as_bytes().to_vec(), budget, calls, wait: None, log: vec![] };
    p.next();
    *PLAN.lock().unwrap() = Some(p);
    ARMED.store(true, SeqCst);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.store(false, SeqCst);
        }
    }
    let off = Off;
    let t = f();
    drop(off);
    let p = PLAN.lock().unwrap().take().unwrap();
    (t, p.log)
}

unsafe fn path_of(fd: c_int, buf: &mut [u8]) -> usize {
    let mut name = [0u8; 40];
    let s = b"/proc/self/fd/";
    name[..s.len()].copy_from_slice(s);
    let mut d = [0u8; 12];
    let mut n = 0;
    let mut v = fd.max(0);
    loop {
        d[n] = b'0' + (v % 10) as u8;
        n += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    for i in 0..n {
        name[s.len() + i] = d[n - 1 - i];
    }
    let e = *libc::__errno_location();
    let r = libc::readlink(name.as_ptr() as *const c_char, buf.as_mut_ptr() as *mut c_char, buf.len());
    *libc::__errno_location() = e;
    if r < 0 {
        0
    } else {
        r as usize
    }
}

fn decide(path: &[u8], call: Call, n: usize) -> Fault {
    let mut g = match PLAN.lock() {
        Ok(g) => g,
        Err(_) => return Fault::None,
    };
    let p = match g.as_mut() {
        Some(p) => p,
        None => return Fault::None,
    };
    if !path.starts_with(&p.dir) {
        return Fault::None;
    }
    let mut opts = vec![];
    let due = p.wait == Some(0);
    if let Some(w) = p.wait.as_mut() {
        *w = w.saturating_sub(1);
    }
    if due {
        match call {
            Call::Open => opts.extend([Fault::Err(libc::EACCES), Fault::Err(libc::EMFILE), Fault::Err(libc::EINTR)]),
            Call::Read => {
                opts.extend([Fault::Err(libc::EINTR), Fault::Err(libc::EIO)]);
                if n > 1 {
                    opts.push(Fault::Short(1));
                }
                if n > 3 {
                    opts.push(Fault::Short(n / 2));
                }
            }
            Call::Write => {
                opts.extend([Fault::Err(libc::EINTR), Fault::Err(libc::EIO), Fault::Err(libc::ENOSPC)]);
                if n > 0 {
                    opts.push(Fault::Short(0));
                }
                if n > 1 {
                    opts.push(Fault::Short(1));
                    opts.push(Fault::Short(n - 1));
                }
                if n > 3 {
                    opts.push(Fault::Short(n / 2));
                }
            }
            Call::Seek => opts.push(Fault::Err(libc::EOVERFLOW)),
            Call::Truncate => opts.extend([Fault::Err(libc::EINTR), Fault::Err(libc::EIO)]),
            Call::Sync => opts.extend([Fault::Err(libc::EINTR), Fault::Err(libc::EIO)]),
            Call::Rename => opts.push(Fault::Err(libc::EACCES)),
        }
    }
    if opts.is_empty() {
        p.log.push((call, 0));
        return Fault::None;
    }
    let k = unsafe { (*p.cx).choose(opts.len()) };
    p.log.push((call, 1 + k as u8));
    p.budget -= 1;
    p.next();
    opts[k]
}

unsafe fn fd_fault(fd: c_int, call: Call, n: usize) -> Fault {
    if !ARMED.load(SeqCst) || fd < 0 {
        return Fault::None;
    }
    let mut b = [0u8; 512];
    let l = path_of(fd, &mut b);
    decide(&b[..l], call, n)
}
unsafe fn path_fault(p: *const c_char, call: Call) -> Fault {
    if !ARMED.load(SeqCst) {
        return Fault::None;
    }
    decide(std::ffi::CStr::from_ptr(p).to_bytes(), call, 0)
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match fd_fault(fd, Call::Read, n) {
        Fault::None => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
        Fault::Short(k) => libc::syscall(libc::SYS_read, fd, buf, k) as ssize_t,
        Fault::Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match fd_fault(fd, Call::Read, n) {
        Fault::None => libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t,
        Fault::Short(k) => libc::syscall(libc::SYS_pread64, fd, buf, k, off) as ssize_t,
        Fault::Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd == 1 {
        gate();
    } else {
        event(fd);
    }
    match fd_fault(fd, Call::Write, n) {
        Fault::None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Fault::Short(0) => 0,
        Fault::Short(k) => libc::syscall(libc::SYS_write, fd, buf, k) as ssize_t,
        Fault::Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match fd_fault(fd, Call::Write, n) {
        Fault::None => libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t,
        Fault::Short(0) => 0,
        Fault::Short(k) => libc::syscall(libc::SYS_pwrite64, fd, buf, k, off) as ssize_t,
        Fault::Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd == 1 {
        gate();
    }
    let n: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    match fd_fault(fd, Call::Write, n) {
        Fault::None => libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t,
        Fault::Short(0) => 0,
        Fault::Short(k) => {
            let mut b = vec![0u8; 0];
            for i in 0..cnt as usize {
                let v = *iov.add(i);
                b.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            libc::syscall(libc::SYS_write, fd, b.as_ptr(), k) as ssize_t
        }
        Fault::Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match fd_fault(fd, Call::Seek, 0) {
        Fault::Err(e) => fail(e) as off64_t,
        _ => libc::syscall(libc::SYS_lseek, fd, off, wh) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match fd_fault(fd, Call::Truncate, 0) {
        Fault::Err(e) => fail(e),
        _ => libc::syscall(libc::SYS_ftruncate, fd, len as off_t) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match fd_fault(fd, Call::Sync, 0) {
        Fault::Err(e) => fail(e),
        _ => libc::syscall(libc::SYS_fsync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match fd_fault(fd, Call::Sync, 0) {
        Fault::Err(e) => fail(e),
        _ => libc::syscall(libc::SYS_fdatasync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match path_fault(path, Call::Open) {
        Fault::Err(e) => fail(e),
        _ => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as c_int) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match path_fault(b, Call::Rename) {
        Fault::Err(e) => fail(e),
        _ => libc::syscall(libc::SYS_rename, a, b) as c_int,
    }
}

// --------------------------------------------------------------------------------- pace of the display

struct Gate {
    on: bool,
    open: bool,
    permits: usize,
    passed: usize,
    cx: *mut Ctx,
    switches: usize,
    rom: Vec<u8>,
}
unsafe impl Send for Gate {}
static PACED: AtomicBool = AtomicBool::new(false);
static GATE: Mutex<Gate> = Mutex::new(Gate { on: false, open: true, permits: 0, passed: 0, cx: std::ptr::null_mut(), switches: 0, rom: vec![] });
static MOVED: Condvar = Condvar::new();
thread_local! { static MAIN: Cell<bool> = const { Cell::new(false) }; }
/// gates that had to be opened because the build waited for the display
pub static FORCED: AtomicUsize = AtomicUsize::new(0);

/// Runs `f` with the other threads' writes to standard output held back, let through one at a time or let
/// through freely, as the explorer chooses at each event of this thread; at most `switches` changes.
pub fn with_gate<T, F: FnOnce() -> T>(cx: &mut Ctx, rom: &Path, switches: usize, f: F) -> (T, usize) {
    {
        let mut g = GATE.lock().unwrap();
        *g = Gate { on: true, open: true, permits: 0, passed: 0, cx: cx as *mut Ctx, switches, rom: rom.to_str().unwrap().as_bytes().to_vec() };
    }
    PACED.store(true, SeqCst);
    MAIN.with(|m| m.set(true));
    main_event();
    let t = f();
    MAIN.with(|m| m.set(false));
    PACED.store(false, SeqCst);
    let mut g = GATE.lock().unwrap();
    g.on = false;
    g.open = true;
    g.cx = std::ptr::null_mut();
    let n = g.passed;
    MOVED.notify_all();
    (t, n)
}

fn gate() {
    if !PACED.load(SeqCst) || MAIN.try_with(|m| m.get()).unwrap_or(false) {
        return;
    }
    let t0 = Instant::now();
    let mut g = GATE.lock().unwrap();
    while g.on && !g.open && g.permits == 0 {
        if t0.elapsed() > Duration::from_millis(400) {
            FORCED.fetch_add(1, SeqCst);
            g.open = true;
            break;
        }
        g = MOVED.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
    }
    if !g.open && g.permits > 0 {
        g.permits -= 1;
    }
    g.passed += 1;
    MOVED.notify_all();
}

/// the thread under test has come to a point where the display's pace may change
pub fn main_event() {
    if !PACED.load(SeqCst) || !MAIN.try_with(|m| m.get()).unwrap_or(false) {
        return;
    }
    let mut g = GATE.lock().unwrap();
    if !g.on || g.switches == 0 {
        return;
    }
    let k = unsafe { (*g.cx).choose(4) };
    if k == 0 {
        return;
    }
    g.switches -= 1;
    match k {
        1 => g.open = false,
        2 => g.open = true,
        _ => {
            g.open = false;
            g.permits += 1;
            let was = g.passed;
            MOVED.notify_all();
            let t0 = Instant::now();
            while g.passed == was && t0.elapsed() < Duration::from_millis(3) {
                g = MOVED.wait_timeout(g, Duration::from_millis(1)).unwrap().0;
            }
        }
    }
    MOVED.notify_all();
}
unsafe fn event(fd: c_int) {
    if !PACED.load(SeqCst) {
        return;
    }
    let mut b = [0u8; 512];
    let l = path_of(fd, &mut b);
    let here = GATE.lock().unwrap().rom == b[..l];
    if here {
        main_event();
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    // whoever is waited for must be allowed to finish
    if PACED.load(SeqCst) && MAIN.try_with(|m| m.get()).unwrap_or(false) {
        main_event();
        let mut g = GATE.lock().unwrap();
        g.open = true;
        g.switches = 0;
        MOVED.notify_all();
    }
    let f: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const c_char));
    f(t, r)
}

// ------------------------------------------------------------------------------------------ hash seeds

thread_local! { static SEED: Cell<u64> = const { Cell::new(0) }; }
/// threads that have asked for random bytes while a seed was chosen
pub static SEEDED: AtomicU64 = AtomicU64::new(0);

/// gives this thread's hash tables a chosen seed (to be called before it makes its first one)
pub fn choose_seed(s: u64) {
    SEED.with(|x| x.set(s));
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    let s = SEED.try_with(|x| x.get()).unwrap_or(0);
    if s == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t;
    }
    SEEDED.fetch_add(1, SeqCst);
    let mut x = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *(buf as *mut u8).add(i) = (x >> 24) as u8;
    }
    n as ssize_t
}
