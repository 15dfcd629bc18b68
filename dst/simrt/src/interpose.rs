//! C-library calls that the code under test reaches through std: entropy, clocks, sleep,
//! process start and the files handed from client to server. Inside a simulated task they
//! are answered by the simulator; elsewhere they go to the kernel.

use libc::{c_char, c_int, c_void, clockid_t, size_t, ssize_t, timespec};
use std::collections::BTreeMap;
use std::sync::{Mutex, Once};

pub fn install_panic_hook() {
    static O: Once = Once::new();
    O.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if crate::current_task() == usize::MAX {
                old(i);
            } else if std::env::var_os("DST_BACKTRACE").is_some() {
                eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
            }
        }));
    });
}

// ------------------------------------------------------------------ entropy
#[no_mangle]
pub unsafe extern "C-unwind" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if crate::in_task() {
        if !crate::aborting() {
            let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            let mut seed = crate::entropy();
            for c in s.chunks_mut(8) {
                let v = crate::splitmix(&mut seed).to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
        } else {
            std::ptr::write_bytes(buf as *mut u8, 0, len);
        }
        return len as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t
}

// ------------------------------------------------------------------ time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if crate::in_task() {
        let ns: i64 = if id == libc::CLOCK_REALTIME {
            crate::wall_ns()
        } else {
            1_000_000_000_000 + crate::now_ns() as i64
        };
        (*ts).tv_sec = ns / 1_000_000_000;
        (*ts).tv_nsec = ns % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
unsafe fn ns_of(ts: *const timespec) -> u64 {
    (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if crate::in_task() {
        crate::sleep_ns(ns_of(req));
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn clock_nanosleep(
    id: clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if crate::in_task() {
        let mut ns = ns_of(req);
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(1_000_000_000_000 + crate::now_ns());
        }
        crate::sleep_ns(ns);
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, id, flags, req, rem);
    if r == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

// ------------------------------------------------------------------ process start
pub type SpawnHandler = fn(Vec<String>) -> Result<i32, i32>;
static SPAWN: Mutex<Option<SpawnHandler>> = Mutex::new(None);
pub fn set_spawn_handler(h: SpawnHandler) {
    *SPAWN.lock().unwrap() = Some(h);
}
unsafe fn argv_of(argv: *const *mut c_char) -> Vec<String> {
    let mut v = vec![];
    let mut p = argv;
    while !(*p).is_null() {
        v.push(std::ffi::CStr::from_ptr(*p).to_string_lossy().into_owned());
        p = p.add(1);
    }
    v
}
type PosixSpawn = unsafe extern "C-unwind" fn(
    *mut libc::pid_t,
    *const c_char,
    *const c_void,
    *const c_void,
    *const *mut c_char,
    *const *mut c_char,
) -> c_int;
#[no_mangle]
pub unsafe extern "C-unwind" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const c_void,
    attr: *const c_void,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if crate::in_task() {
        let h = *SPAWN.lock().unwrap();
        return match h {
            Some(h) => match h(argv_of(argv)) {
                Ok(p) => {
                    *pid = p;
                    0
                }
                Err(e) => e,
            },
            None => libc::ENOENT,
        };
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"posix_spawnp".as_ptr());
    let real: PosixSpawn = std::mem::transmute(real);
    real(pid, file, fa, attr, argv, envp)
}

/// Process numbers of simulated children; larger than any the kernel hands out.
pub const FAKE_PID: c_int = 1_000_000_000;
type KillFn = fn(i32);
type WaitFn = fn(i32, bool) -> Option<i32>;
static CHILD: Mutex<Option<(KillFn, WaitFn)>> = Mutex::new(None);
pub fn set_child_handlers(k: KillFn, w: WaitFn) {
    *CHILD.lock().unwrap() = Some((k, w));
}
#[no_mangle]
pub unsafe extern "C-unwind" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if pid >= FAKE_PID {
        let h = *CHILD.lock().unwrap();
        if let Some((k, _)) = h {
            k(pid);
        }
        return 0;
    }
    if crate::in_task() {
        set_errno(libc::EPERM);
        return -1;
    }
    libc::syscall(libc::SYS_kill, pid, sig) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn waitpid(pid: libc::pid_t, st: *mut c_int, opt: c_int) -> libc::pid_t {
    if pid >= FAKE_PID {
        let h = *CHILD.lock().unwrap();
        let r = h.and_then(|(_, w)| w(pid, opt & libc::WNOHANG == 0));
        return match r {
            Some(c) => {
                if !st.is_null() {
                    *st = (c & 0xff) << 8;
                }
                pid
            }
            None => 0,
        };
    }
    libc::syscall(libc::SYS_wait4, pid, st, opt, 0usize) as libc::pid_t
}

// ------------------------------------------------------------------ environment variables
/// Variables a simulated process was given shadow those of the worker.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    extern "C" {
        static environ: *const *mut c_char;
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if crate::in_task() && !crate::aborting() {
        if let Ok(k) = std::str::from_utf8(n) {
            if let Some(v) = crate::get_env(k) {
                // std copies the value while it holds its environment lock
                let c = std::ffi::CString::new(v).unwrap();
                return c.into_raw();
            }
        }
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C-unwind" fn exit(code: c_int) -> ! {
    if crate::in_task() {
        // std remembers the thread that got here: it is never given back
        crate::proc_exit(code, true);
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr());
    let real: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real);
    real(code)
}

/// `std::process::exit` lets only the first caller of the operating-system process through to
/// `exit`; later ones, which are other simulated processes here, are held in `pause`.
#[no_mangle]
pub unsafe extern "C-unwind" fn pause() -> c_int {
    if crate::in_task() {
        crate::proc_exit(1, false);
    }
    libc::syscall(libc::SYS_ppoll, 0usize, 0usize, 0usize, 0usize) as c_int
}

// ------------------------------------------------------------------ files
/// Simulated file system used by simulated tasks for paths under the watched prefixes.
/// Contents are durable across process crashes.
#[derive(Default)]
pub struct SimFs {
    pub files: BTreeMap<String, Vec<u8>>,
    fds: BTreeMap<c_int, Fd>,
}
struct Fd {
    path: String,
    pos: usize,
    write: bool,
    proc: usize,
}
pub static FS: Mutex<Option<SimFs>> = Mutex::new(None);
pub fn fs_reset() {
    *FS.lock().unwrap() = Some(SimFs::default());
}
pub fn fs<R>(f: impl FnOnce(&mut SimFs) -> R) -> R {
    let mut g = FS.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(SimFs::default))
}
/// Which paths are simulated: everything a simulated task opens, apart from the system's
/// own directories (locale data, /proc, /dev and so on).
fn watched(p: &str) -> bool {
    !(p.starts_with("/proc")
        || p.starts_with("/sys")
        || p.starts_with("/dev")
        || p.starts_with("/etc")
        || p.starts_with("/usr")
        || p.starts_with("/lib")
        || p.starts_with("/root")
        || p.starts_with("/verif"))
}
fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn sim_open(path: *const c_char, flags: c_int) -> Option<c_int> {
    if !crate::in_task() || crate::aborting() {
        return None;
    }
    let p = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
    if !watched(&p) {
        return None;
    }
    let write = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    crate::yield_now();
    if crate::fault("disk.open") {
        set_errno(if write { libc::ENOSPC } else { libc::EIO });
        return Some(-1);
    }
    let exists = fs(|f| f.files.contains_key(&p));
    if !exists && flags & libc::O_CREAT == 0 {
        set_errno(libc::ENOENT);
        return Some(-1);
    }
    if exists && flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
        set_errno(libc::EEXIST);
        return Some(-1);
    }
    // a real descriptor keeps close() and fstat() on it harmless
    let fd = libc::syscall(
        libc::SYS_openat,
        libc::AT_FDCWD,
        c"/dev/null".as_ptr(),
        libc::O_RDWR | libc::O_CLOEXEC,
        0,
    ) as c_int;
    let proc = crate::current_proc();
    fs(|f| {
        let e = f.files.entry(p.clone()).or_default();
        if flags & libc::O_TRUNC != 0 {
            e.clear();
        }
        let pos = if flags & libc::O_APPEND != 0 { e.len() } else { 0 };
        f.fds.insert(fd, Fd { path: p.clone(), pos, write, proc });
    });
    crate::log(|| format!("open {p} write={write}"));
    Some(fd)
}
fn is_sim_fd(fd: c_int) -> bool {
    crate::in_task() && fs(|f| f.fds.contains_key(&fd))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(r) = sim_open(path, flags) {
        return r;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        if crate::fault("disk.read_eio") {
            set_errno(libc::EIO);
            return -1;
        }
        if crate::fault("disk.read_eintr") {
            set_errno(libc::EINTR);
            return -1;
        }
        let mut want = n;
        if crate::fault("disk.short_read") && n > 1 {
            want = 1 + crate::choose(n.min(64) as u64 - 1) as usize;
        }
        return fs(|f| {
            let Some(d) = f.fds.get_mut(&fd) else { return 0 };
            let empty = vec![];
            let data = f.files.get(&d.path).unwrap_or(&empty);
            let k = data.len().saturating_sub(d.pos).min(want);
            std::ptr::copy_nonoverlapping(data.as_ptr().add(d.pos.min(data.len())), buf as *mut u8, k);
            d.pos += k;
            k as ssize_t
        });
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C-unwind" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        crate::yield_now();
        if crate::fault("disk.write_enospc") {
            set_errno(libc::ENOSPC);
            return -1;
        }
        if crate::fault("disk.write_eintr") {
            set_errno(libc::EINTR);
            return -1;
        }
        let mut want = n;
        if crate::fault("disk.short_write") && n > 1 {
            want = 1 + crate::choose(n as u64 - 1) as usize;
        }
        // a crash in the middle of the write leaves a torn file
        let crash = crate::fault("crash.during_write");
        if crash {
            want = crate::choose(n as u64) as usize;
        }
        fs(|f| {
            if let Some(d) = f.fds.get_mut(&fd) {
                let data = f.files.entry(d.path.clone()).or_default();
                let b = std::slice::from_raw_parts(buf as *const u8, want);
                if data.len() < d.pos + want {
                    data.resize(d.pos + want, 0);
                }
                data[d.pos..d.pos + want].copy_from_slice(b);
                d.pos += want;
            }
        });
        if crash {
            crate::kill_proc(crate::current_proc());
            set_errno(libc::EIO);
            return -1;
        }
        return want as ssize_t;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C-unwind" fn close(fd: c_int) -> c_int {
    if crate::in_task() {
        fs(|f| f.fds.remove(&fd));
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if is_sim_fd(fd) {
        return fs(|f| {
            let d = f.fds.get_mut(&fd).unwrap();
            let len = f.files.get(&d.path).map_or(0, |x| x.len()) as i64;
            let base = match wh {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => d.pos as i64,
                _ => len,
            };
            d.pos = (base + off) as usize;
            base + off
        });
    }
    libc::syscall(libc::SYS_lseek, fd, off, wh)
}
pub fn fs_close_proc(p: usize) {
    let fds: Vec<c_int> = fs(|f| {
        let v: Vec<c_int> = f.fds.iter().filter(|(_, d)| d.proc == p).map(|(k, _)| *k).collect();
        for k in &v {
            f.fds.remove(k);
        }
        v
    });
    let _ = fds;
}
pub fn fs_writers(path: &str) -> usize {
    fs(|f| f.fds.values().filter(|d| d.path == path && d.write).count())
}
