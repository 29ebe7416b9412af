//! Interposes on the system calls that make file data durable, so that a driver can see what would survive a
//! power loss (the file as of the last fsync) and can make writes or syncs fail. Only files below a directory
//! whose name starts with "vhcase-" are affected; everything else goes straight to the kernel.
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
pub struct Plan {
    /// remaining successful calls before failures start, and how many calls then fail
    pub write: Option<(u64, u64)>,
    pub sync: Option<(u64, u64)>,
}
static PLANS: Mutex<Option<HashMap<String, Plan>>> = Mutex::new(None);

pub fn plan(path: &str, p: Plan) {
    let mut g = PLANS.lock().unwrap_or_else(|p| p.into_inner());
    g.get_or_insert_with(HashMap::new).insert(path.to_string(), p);
}
pub fn clear(path: &str) {
    let mut g = PLANS.lock().unwrap_or_else(|p| p.into_inner());
    if let Some(m) = g.as_mut() {
        m.remove(path);
    }
}
fn active() -> bool {
    PLANS.lock().unwrap_or_else(|p| p.into_inner()).as_ref().is_some_and(|m| !m.is_empty())
}
fn step(x: &mut Option<(u64, u64)>) -> bool {
    match x {
        Some((0, n)) if *n > 0 => {
            *n -= 1;
            true
        }
        Some((k, _)) if *k > 0 => {
            *k -= 1;
            false
        }
        _ => false,
    }
}
fn fails(path: &str, sync: bool) -> bool {
    let mut g = PLANS.lock().unwrap_or_else(|p| p.into_inner());
    match g.as_mut().and_then(|m| m.get_mut(path)) {
        Some(p) => step(if sync { &mut p.sync } else { &mut p.write }),
        None => false,
    }
}
fn path_of(fd: libc::c_int) -> Option<String> {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 1024];
    let n = unsafe { libc::readlink(link.as_ptr() as *const libc::c_char, buf.as_mut_ptr() as *mut libc::c_char, 1024) };
    if n <= 0 {
        return None;
    }
    let s = String::from_utf8_lossy(&buf[..n as usize]).into_owned();
    s.contains("/vhcase-").then_some(s)
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn synced_path(path: &str) -> String {
    format!("{path}.synced")
}
fn do_sync(fd: libc::c_int, nr: libc::c_long) -> libc::c_int {
    if let Some(p) = path_of(fd) {
        if fails(&p, true) {
            set_errno(libc::EIO);
            return -1;
        }
        // the case directory is scratch space: recording the image is enough, no device flush is needed
        let tmp = format!("{p}.synced.tmp{fd}");
        let _ = std::fs::copy(&p, &tmp);
        let _ = std::fs::rename(&tmp, synced_path(&p));
        return 0;
    }
    unsafe { libc::syscall(nr, fd) as libc::c_int }
}
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: libc::c_int) -> libc::c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: libc::c_int) -> libc::c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if active() && fd > 2 {
        if let Some(p) = path_of(fd) {
            if fails(&p, false) {
                set_errno(libc::EIO);
                return -1;
            }
        }
    }
    unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t }
}

/// A fresh scratch directory for one case, removed on drop.
pub struct CaseDir(pub std::path::PathBuf);
impl CaseDir {
    pub fn new() -> CaseDir {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = std::env::temp_dir().join(format!("vhcase-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("harness: case dir");
        CaseDir(d)
    }
    pub fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
}
impl Drop for CaseDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// A multi-threaded runtime for one case; dropped without waiting for stray tasks.
pub struct Rt(pub Option<tokio::runtime::Runtime>);
impl Rt {
    pub fn new(workers: usize) -> Rt {
        Rt(Some(
            tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().expect("harness: runtime"),
        ))
    }
    pub fn r(&self) -> &tokio::runtime::Runtime {
        self.0.as_ref().unwrap()
    }
}
impl Drop for Rt {
    fn drop(&mut self) {
        if let Some(r) = self.0.take() {
            r.shutdown_background();
        }
    }
}
