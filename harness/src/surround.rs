//! C30: watches what a call may do to the process around it (plain build only: the standard streams
//! and the environment are watched by `write`, `read` and `getenv`, which this program defines itself).
use crate::core::R;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub static ON: AtomicBool = AtomicBool::new(false);
static SAID: Mutex<Vec<u8>> = Mutex::new(vec![]);
static SAID_BYTES: AtomicU64 = AtomicU64::new(0);
static ASKED: Mutex<Vec<String>> = Mutex::new(vec![]);
static STDIN: AtomicU64 = AtomicU64::new(0);
/// What the watches have seen pass, to show that they are in place.
pub static WRITES: AtomicU64 = AtomicU64::new(0);
pub static LOOKUPS: AtomicU64 = AtomicU64::new(0);

/// Every write of the process passes here.
pub fn saw_write(fd: i32, b: &[u8]) {
    if !ON.load(SeqCst) {
        return;
    }
    WRITES.fetch_add(1, SeqCst);
    if fd == 1 || fd == 2 {
        SAID_BYTES.fetch_add(b.len() as u64, SeqCst);
        if let Ok(mut s) = SAID.try_lock() {
            if s.len() < 300 {
                s.extend_from_slice(&b[..b.len().min(200)]);
            }
        }
    }
}
pub fn saw_read(fd: i32) {
    if fd == 0 && ON.load(SeqCst) {
        STDIN.fetch_add(1, SeqCst);
    }
}
#[cfg(rn_faults)]
mod interpose {
    use super::*;
    use std::ffi::{c_char, CStr};
    extern "C" {
        static environ: *const *const c_char;
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(n: *const c_char) -> *const c_char {
        let name = CStr::from_ptr(n).to_bytes();
        if ON.load(SeqCst) {
            LOOKUPS.fetch_add(1, SeqCst);
            // the standard library's own: thread stacks, backtraces
            if !name.starts_with(b"RUST_") {
                if let Ok(mut a) = ASKED.try_lock() {
                    if a.len() < 10 {
                        a.push(String::from_utf8_lossy(name).to_string());
                    }
                }
            }
        }
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
                return (*p).add(name.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    }
}
extern "C" {
    fn getrlimit(which: i32, lim: *mut [u64; 2]) -> i32;
}
/// Rounding, flush-to-zero and exception masks of this thread's floating-point unit.
fn float_mode() -> u32 {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    {
        let mut m: u32 = 0;
        unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m, options(nostack)) };
        return m & !0x3f;
    }
    #[allow(unreachable_code)]
    0
}
pub struct Around(BTreeMap<String, String>, Option<std::path::PathBuf>);
pub fn look() -> Around {
    let mut m = BTreeMap::new();
    let mut put = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    put("environment", format!("{env:?}"));
    put("working directory", format!("{:?}", std::env::current_dir().map_err(|e| e.kind())));
    let st = std::fs::read_to_string("/proc/thread-self/status").expect("harness: /proc/thread-self/status");
    for l in st.lines() {
        if let Some((k, v)) = l.split_once(':') {
            if ["Umask", "Threads", "SigBlk", "SigIgn", "SigCgt", "NoNewPrivs", "Uid", "Gid"].contains(&k) {
                let k = match k {
                    "Umask" => "file-mode mask",
                    "SigBlk" => "signal handling (blocked)",
                    "SigIgn" => "signal handling (ignored)",
                    "SigCgt" => "signal handling (caught)",
                    k => k,
                };
                put(k, v.trim().to_string());
            }
        }
    }
    let mut fds = vec![];
    for e in std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd").flatten() {
        if let Ok(t) = std::fs::read_link(e.path()) {
            let t = t.to_string_lossy().to_string();
            if !t.ends_with("/fd") {
                fds.push(t);
            }
        }
    }
    fds.sort();
    put("open files", format!("{fds:?}"));
    let lim: Vec<[u64; 2]> = (0..16)
        .map(|n| {
            let mut l = [0; 2];
            unsafe { getrlimit(n, &mut l) };
            l
        })
        .collect();
    put("resource limits", format!("{lim:?}"));
    put("floating-point mode", format!("{:#x}", float_mode()));
    put("panic hook", if crate::core::hook_is_ours() { "the caller's" } else { "another" }.to_string());
    Around(m, std::env::current_dir().ok())
}
pub fn begin() -> Around {
    let a = look();
    SAID.lock().unwrap().clear();
    ASKED.lock().unwrap().clear();
    SAID_BYTES.store(0, SeqCst);
    STDIN.store(0, SeqCst);
    ON.store(true, SeqCst);
    a
}
pub fn end(before: Around) -> R {
    // what was printed without a line end is still buffered
    let _ = std::io::Write::flush(&mut std::io::stdout());
    ON.store(false, SeqCst);
    if SAID_BYTES.load(SeqCst) > 0 {
        return Err(format!("the calls printed {:?}", String::from_utf8_lossy(&SAID.lock().unwrap())));
    }
    let asked = ASKED.lock().unwrap().clone();
    if !asked.is_empty() {
        return Err(format!("the calls consulted the environment variables {asked:?}"));
    }
    if STDIN.load(SeqCst) > 0 {
        return Err("the calls read standard input".into());
    }
    let mut after = look();
    // the next case starts where this one did
    if let (true, Some(d)) = (after.1 != before.1, &before.1) {
        let _ = std::env::set_current_dir(d);
    }
    // a joined thread may take a moment to disappear; one of the harness may do so during the case
    let threads = |a: &Around| a.0["Threads"].parse::<u64>().expect("harness: number of threads");
    for n in 0..100 {
        if threads(&after) <= threads(&before) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(if n < 50 { 1 } else { 40 }));
        after = look();
    }
    for (k, v) in &before.0 {
        let w = &after.0[k];
        if k == "Threads" {
            if threads(&after) > threads(&before) {
                return Err(format!("the calls left threads running: {v} before, {w} now"));
            }
        } else if v != w {
            let (a, b): (String, String) = differ(v, w);
            return Err(format!("the calls changed the process's {k}: ...{a} became ...{b}"));
        }
    }
    Ok(())
}
/// The two from where they differ.
fn differ(a: &str, b: &str) -> (String, String) {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(10);
    let f = |s: &str| s.chars().skip(n).take(120).collect();
    (f(a), f(b))
}
