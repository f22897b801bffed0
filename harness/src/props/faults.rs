//! C20 (saving under faults) and the read faults of C19.
//!
//! The process defines `write`, `writev`, `read` and the `open` family itself; they pass through to
//! the kernel, except on a thread that has armed a fault plan around one call of the library.
use super::files::*;
use super::network::*;
use crate::core::*;
use crate::gen::*;
use crate::monitor::*;
use crate::refm::*;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// at most this many bytes per call
    Short(usize),
    /// every other call is interrupted
    Interrupt,
    /// after this many bytes in total: this errno
    After(usize, i32),
    /// after this many bytes in total: one call fails with this errno, the others go on
    Once(usize, i32),
    /// after this many bytes in total: calls store nothing and return 0
    Zero(usize),
    /// opening fails with this errno
    Open(i32),
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub faults: Vec<Fault>,
    pub calls: u64,
    pub bytes: usize,
    pub injected: u64,
    flip: bool,
    once: bool,
}
thread_local! { static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) }; }
pub fn arm(f: Vec<Fault>) {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { faults: f, ..Default::default() }));
}
pub fn disarm() -> Plan {
    PLAN.with(|p| p.borrow_mut().take()).unwrap()
}
#[allow(dead_code)]
pub enum Do {
    Pass(usize),
    Fail(i32),
    Zero,
}
/// What the armed plan says about a transfer of n bytes.
#[allow(dead_code)]
fn decide(n: usize) -> Option<Do> {
    PLAN.try_with(|p| {
        let mut p = p.try_borrow_mut().ok()?;
        let p = p.as_mut()?;
        p.calls += 1;
        let mut n = n;
        for f in p.faults.clone() {
            match f {
                Fault::Interrupt => {
                    p.flip = !p.flip;
                    if p.flip {
                        p.injected += 1;
                        return Some(Do::Fail(4));
                    }
                }
                Fault::Short(k) => {
                    if n > k {
                        p.injected += 1;
                        n = k;
                    }
                }
                Fault::After(k, e) => {
                    if p.bytes >= k && n > 0 {
                        p.injected += 1;
                        return Some(Do::Fail(e));
                    }
                    n = n.min(k - p.bytes);
                }
                Fault::Once(k, e) => {
                    if !p.once {
                        if p.bytes >= k && n > 0 {
                            p.once = true;
                            p.injected += 1;
                            return Some(Do::Fail(e));
                        }
                        n = n.min(k - p.bytes);
                    }
                }
                Fault::Zero(k) => {
                    if p.bytes >= k && n > 0 {
                        p.injected += 1;
                        return Some(Do::Zero);
                    }
                    n = n.min(k - p.bytes);
                }
                Fault::Open(_) => {}
            }
        }
        Some(Do::Pass(n))
    })
    .ok()
    .flatten()
}
#[allow(dead_code)]
fn moved(n: isize) {
    if n > 0 {
        let _ = PLAN.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if let Some(p) = p.as_mut() {
                    p.bytes += n as usize;
                }
            }
        });
    }
}
#[allow(dead_code)]
fn open_fault() -> Option<i32> {
    PLAN.try_with(|p| {
        let mut p = p.try_borrow_mut().ok()?;
        let p = p.as_mut()?;
        p.calls += 1;
        for f in &p.faults {
            if let Fault::Open(e) = f {
                p.injected += 1;
                return Some(*e);
            }
        }
        None
    })
    .ok()
    .flatten()
}

#[cfg(rn_faults)]
mod interpose {
    use super::*;
    use std::ffi::{c_char, c_int, c_long, c_void};
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    const READ: c_long = 0;
    const WRITE: c_long = 1;
    const OPENAT: c_long = 257;
    unsafe fn fail(e: i32) -> isize {
        *__errno_location() = e;
        -1
    }
    unsafe fn transfer(nr: c_long, fd: c_int, b: *mut c_void, n: usize) -> isize {
        match decide(n) {
            None => syscall(nr, fd as c_long, b, n) as isize,
            Some(Do::Fail(e)) => fail(e),
            Some(Do::Zero) => 0,
            Some(Do::Pass(k)) => {
                let r = syscall(nr, fd as c_long, b, k) as isize;
                moved(r);
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
        if n > 0 {
            crate::surround::saw_write(fd, std::slice::from_raw_parts(b as *const u8, n));
        }
        transfer(WRITE, fd, b as *mut c_void, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
        crate::surround::saw_read(fd);
        transfer(READ, fd, b, n)
    }
    #[repr(C)]
    pub struct IoVec {
        base: *mut c_void,
        len: usize,
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
        // as many buffers as a short write would take: the first that is not empty
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.len > 0 {
                crate::surround::saw_write(fd, std::slice::from_raw_parts(x.base as *const u8, x.len));
                return transfer(WRITE, fd, x.base, x.len);
            }
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
        if let Some(e) = open_fault() {
            return fail(e) as c_int;
        }
        syscall(OPENAT, -100 as c_long, p, flags as c_long, mode as c_long) as c_int
    }
}
extern "C" {
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    fn getrlimit(which: i32, lim: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

/// Something that can be saved and read back.
enum Obj {
    Net(Network, Vec<Spec>),
    Ten(Tensor, Rt),
}
impl Obj {
    fn gen(r: &mut Rng) -> R<Obj> {
        if r.chance(1, 2) {
            let cl = chain_class(r);
            let ch = chain(r, cl, 3);
            let mut net = build_net(&ch, rand_mode(r))?;
            net.infer(&rt(r, cl, ch[0].inp).tensor()).map_err(|e| format!("infer refused: {e}"))?;
            Ok(Obj::Net(net, ch))
        } else {
            let s = shape(r);
            let m = rt(r, Class::Special, s);
            Ok(Obj::Ten(m.tensor(), m))
        }
    }
    /// One whose file takes 8 KiB to 500 KiB.
    fn gen_large(r: &mut Rng) -> R<Obj> {
        let n = match r.below(4) {
            0 => r.range(2100, 5000),
            1 => r.range(5000, 18_000),
            2 => r.range(16_000, 40_000),
            _ => r.range(40_000, 120_000),
        };
        let a = r.range(1, 300);
        let d = if r.chance(1, 2) { 1 } else { r.range(2, 20) };
        let b = (n / a / d).max(1);
        let cl = Class::Int;
        if r.chance(1, 2) {
            let mut ch = vec![Spec {
                kind: Kind::Fc { w: rt(r, cl, [a, b, d]), b: rt(r, cl, [a, 1, d]) },
                name: name(r),
                inp: [b, 1, d],
                out: [a, 1, d],
                exact: false,
            }];
            for _ in 0..r.below(3) {
                let s = next_spec(r, cl, ch.last().unwrap().out);
                ch.push(s);
            }
            Ok(Obj::Net(build_net(&ch, rand_mode(r))?, ch))
        } else {
            let mut s = [a, b, d];
            s.rotate_left(r.below(3) as usize);
            let m = rt(r, Class::Special, s);
            Ok(Obj::Ten(m.tensor(), m))
        }
    }
    fn gen_any(r: &mut Rng) -> R<Obj> {
        if !cfg!(miri) && r.chance(1, 12) {
            Obj::gen_large(r)
        } else {
            Obj::gen(r)
        }
    }
    fn show(&self) -> String {
        match self {
            Obj::Net(_, ch) => format!("network {}", chain_show(ch)),
            Obj::Ten(_, m) => format!("tensor {:?}", m.s),
        }
    }
    fn hash(&self) -> u64 {
        match self {
            Obj::Net(_, ch) => chain_hash(ch),
            Obj::Ten(_, m) => m.hash(),
        }
    }
    /// length of its file
    fn len(&self) -> usize {
        match self {
            Obj::Net(_, ch) => crate::wire::network_bytes(&ch.iter().map(crate::wire::layer_of).collect::<Vec<_>>()).len(),
            Obj::Ten(_, m) => 32 + 4 * m.v.len(),
        }
    }
    fn save(&self, p: &str) -> Result<Result<(), String>, String> {
        guarded(|| match self {
            Obj::Net(n, _) => n.save_to_file(&p.to_string()).map_err(|e| e.to_string()),
            Obj::Ten(t, _) => t.save_to_file(&p.to_string()).map_err(|e| e.to_string()),
        })
    }
    /// The file at p is complete and is all there is.
    fn stored(&self, p: &str, what: &str) -> R {
        let b = std::fs::read(p).map_err(|e| format!("{what}: save returned Ok, but the file cannot be read: {e}"))?;
        ensure!(b.len() == self.len(), "{what}: save returned Ok, but the file has {} of {} bytes", b.len(), self.len());
        match self {
            Obj::Net(_, ch) => {
                judge_bytes(&b, ch).map_err(|e| format!("{what}: save returned Ok, but {e}"))?;
                let mut n = Network::new(INFER);
                n.load_from_file(&p.to_string()).map_err(|e| format!("{what}: save returned Ok, but loading failed: {e}"))?;
                judge_net(&n, ch, INFER, &format!("{what}: read back"))
            }
            Obj::Ten(_, m) => {
                let t = Tensor::from_file(&p.to_string()).map_err(|e| format!("{what}: save returned Ok, but reading failed: {e}"))?;
                ensure!(Rt::of(&t).same_bits(m), "{what}: save returned Ok, but {} was read back", Rt::of(&t).show());
                Ok(())
            }
        }
    }
    fn snap(&self) -> Option<NetSnap> {
        if let Obj::Net(n, _) = self {
            Some(net_snap(n))
        } else {
            None
        }
    }
    /// The object is what it was before the save.
    fn unchanged(&self, s: &Option<NetSnap>, what: &str) -> R {
        match self {
            Obj::Net(n, _) => s.as_ref().unwrap().same(n, what),
            Obj::Ten(t, m) => {
                ensure!(Rt::of(t).same_bits(m), "{what}: the tensor changed");
                Ok(())
            }
        }
    }
    /// Afterwards it can be used and saved.
    fn usable(&mut self, c: &mut Case, p: &str, what: &str) -> R {
        match self.save(p) {
            Ok(Ok(())) => self.stored(p, &format!("{what}; saved again without faults"))?,
            Ok(Err(e)) => bad!("{what}: saving again without faults failed: {e}"),
            Err(m) => bad!("{what}: saving again {m}"),
        }
        if let Obj::Net(n, ch) = self {
            judge_works(c, n, ch, Class::Int, &format!("{what}: afterwards"))?;
        }
        Ok(())
    }
}
/// Saves under the armed faults and judges the outcome; true if Ok was returned.
fn save_under(c: &mut Case, o: &Obj, p: &str, faults: Vec<Fault>, what: &str) -> R<bool> {
    let s = o.snap();
    arm(faults.clone());
    let r = o.save(p);
    let plan = disarm();
    c.count("faults_injected", plan.injected);
    c.count("system_calls_observed", plan.calls);
    let what = format!("{what} with {faults:?}");
    let ok = match r {
        Err(m) => bad!("{what}: saving {m}"),
        Ok(Ok(())) => {
            o.stored(p, &what)?;
            c.count("saves_completed", 1);
            true
        }
        Ok(Err(_)) => {
            c.count("saves_refused", 1);
            false
        }
    };
    o.unchanged(&s, &what)?;
    if plan.injected > 0 {
        c.nontrivial();
    }
    Ok(ok)
}
fn old_content(r: &mut Rng, p: &str, n: usize) -> &'static str {
    match r.below(3) {
        0 => {
            put(p, &vec![0xEE; n + r.range(1, 3000) as usize]);
            "over a longer file"
        }
        1 => {
            rm(p);
            "to a new path"
        }
        _ => {
            put(p, &vec![7; n / 2]);
            "over a shorter file"
        }
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule("non-trivial: a fault was actually delivered to the save (or the path was bad), and the return value, the file and the object in memory were judged afterwards");
    let dir = ctx.scratch.clone();
    if cfg!(rn_faults) {
        // every byte position at which storage can stop accepting data
        ctx.family("stop_at_every_byte", 60, |c| {
            let mut o = Obj::gen(&mut c.rng)?;
            let (p, n) = (path(&dir, c, "o"), o.len());
            c.describe(format!("{}, {n} bytes", o.show()));
            c.key(o.hash());
            let step = (n / 700).max(1);
            for k in (0..n).step_by(step).chain([n - 1]) {
                let e = *c.rng.pick(&[28, 5, 122, 27, 9]); // ENOSPC EIO EDQUOT EFBIG EBADF
                let over = old_content(&mut c.rng, &p, n);
                let f = match c.rng.below(4) {
                    0 => vec![Fault::Zero(k)],
                    3 => vec![Fault::Once(k, e)],
                    1 => vec![Fault::Short(c.rng.range(1, 100) as usize), Fault::After(k, e)],
                    _ => vec![Fault::After(k, e)],
                };
                let ok = save_under(c, &o, &p, f.clone(), &format!("{} {over}", o.show()))?;
                ensure!(!ok || get(&p)?.len() == n, "harness: unreachable");
                c.count("stop_positions", 1);
            }
            o.usable(c, &p, "after failed saves")?;
            rm(&p);
            Ok(())
        });
        // large objects: the ends, where buffers of the usual sizes would be flushed, and anywhere
        ctx.family("stop_in_large", 60, |c| {
            let mut o = Obj::gen_large(&mut c.rng)?;
            let (p, n) = (path(&dir, c, "o"), o.len());
            c.describe(format!("{}, {n} bytes", o.show()));
            c.key(o.hash());
            for i in 0..16 {
                let r = &mut c.rng;
                let k = match i {
                    0 => n - 1,
                    1 => n - r.range(1, 100) as usize,
                    2..=4 => n - r.range(1, n.min(8192) as u32) as usize,
                    5 => n - r.range(1, n.min(65_536) as u32) as usize,
                    6..=10 => {
                        let unit = *r.pick(&[512usize, 1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072]);
                        let at = unit * r.range(0, (n / unit) as u32) as usize;
                        (at + r.below(5) as usize).saturating_sub(2)
                    }
                    11 => r.below(64) as usize,
                    _ => r.below(n as u64) as usize,
                };
                let k = k.min(n - 1);
                let e = *r.pick(&[28, 5, 122, 27, 9]);
                let short = r.range(1, 9000) as usize;
                let f = match r.below(5) {
                    0 => vec![Fault::Zero(k)],
                    1 => vec![Fault::Once(k, e)],
                    2 => vec![Fault::Short(short), Fault::After(k, e)],
                    _ => vec![Fault::After(k, e)],
                };
                let over = old_content(r, &p, n);
                save_under(c, &o, &p, f, &format!("{} {over}", o.show()))?;
                c.count("stop_positions", 1);
            }
            o.usable(c, &p, "after failed saves")?;
            rm(&p);
            Ok(())
        });
        ctx.family("short_and_interrupted", 2500, |c| {
            let mut o = Obj::gen_any(&mut c.rng)?;
            let (p, n) = (path(&dir, c, "o"), o.len());
            let k = match c.rng.below(3) {
                0 => c.rng.range(1, 8) as usize,
                1 => c.rng.range(1, n as u32) as usize,
                _ => n.saturating_sub(1).max(1),
            };
            let f = match c.rng.below(4) {
                0 => vec![Fault::Interrupt],
                1 => vec![Fault::Interrupt, Fault::Short(k)],
                _ => vec![Fault::Short(k)],
            };
            let over = old_content(&mut c.rng, &p, n);
            c.describe(format!("{}, {n} bytes {over}, {f:?}", o.show()));
            c.key(o.hash());
            let what = format!("{} {over}", o.show());
            save_under(c, &o, &p, f, &what)?;
            o.usable(c, &p, &what)?;
            rm(&p);
            Ok(())
        });
        ctx.family("open_fails", 300, |c| {
            let mut o = Obj::gen_any(&mut c.rng)?;
            let p = path(&dir, c, "o");
            let over = old_content(&mut c.rng, &p, 100);
            let e = *c.rng.pick(&[13, 24, 23, 28, 30, 5]); // EACCES EMFILE ENFILE ENOSPC EROFS EIO
            c.describe(format!("{} {over}, errno {e}", o.show()));
            c.key(o.hash());
            let what = format!("{} {over}", o.show());
            let before = std::fs::read(&p).ok();
            let ok = save_under(c, &o, &p, vec![Fault::Open(e)], &what)?;
            ensure!(ok || std::fs::read(&p).ok() == before, "{what}: opening failed (errno {e}), yet the file changed");
            o.usable(c, &p, &what)?;
            rm(&p);
            Ok(())
        });
    }
    // the kernel's own limits: file size limit, a full device
    unsafe { signal(25, 1) };
    let mut old = [0u64; 2];
    unsafe { getrlimit(1, &mut old) };
    let rounds = if ctx.thorough { 400 } else { 40 };
    for i in 0..rounds {
        let mut r = Rng::new(mix(ctx.seed) ^ i);
        let large = i % 5 == 4;
        let lim = match i % 4 {
            _ if large => r.range(4000, 500_000),
            0 => r.range(0, 60),
            1 => r.range(60, 400),
            2 => r.range(200, 4000),
            _ => r.range(0, 1500),
        } as u64;
        unsafe { setrlimit(1, &[lim, old[1]]) };
        ctx.family_n(&format!("file_size_limit_{i}"), 40, |c| {
            let o = if large { Obj::gen_large(&mut c.rng)? } else { Obj::gen(&mut c.rng)? };
            let (p, n) = (path(&dir, c, "o"), o.len());
            c.describe(format!("{}, {n} bytes, limit {lim}", o.show()));
            c.key(o.hash());
            let s = o.snap();
            let what = format!("{} ({n} bytes) under a file size limit of {lim}", o.show());
            match o.save(&p) {
                Err(m) => bad!("{what}: saving {m}"),
                Ok(Ok(())) => {
                    o.stored(&p, &what)?;
                    c.count("saves_completed", 1);
                }
                Ok(Err(e)) => {
                    ensure!(n as u64 > lim, "{what}: fits, but failed: {e}");
                    c.count("saves_refused", 1);
                    c.nontrivial();
                }
            }
            o.unchanged(&s, &what)?;
            rm(&p);
            Ok(())
        });
        unsafe { setrlimit(1, &old) };
    }
    ctx.family("full_device", 200, |c| {
        let mut o = Obj::gen_any(&mut c.rng)?;
        // through a link in the scratch directory, so that nothing can replace the device itself
        let p = path(&dir, c, "full");
        rm(&p);
        std::os::unix::fs::symlink("/dev/full", &p).unwrap();
        c.describe(o.show());
        c.key(o.hash());
        let s = o.snap();
        let what = format!("{} to a full device", o.show());
        match o.save(&p) {
            Err(m) => bad!("{what}: saving {m}"),
            Ok(Ok(())) => {
                let link = std::fs::symlink_metadata(&p).map(|m| m.file_type().is_symlink()).unwrap_or(false);
                ensure!(!link, "{what}: save returned Ok");
                o.stored(&p, &what)?;
            }
            Ok(Err(_)) => c.count("saves_refused", 1),
        }
        o.unchanged(&s, &what)?;
        rm(&p);
        o.usable(c, &p, &what)?;
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.family("bad_paths", 600, |c| {
        let mut o = Obj::gen_any(&mut c.rng)?;
        let good = path(&dir, c, "o");
        let (p, why) = match c.rng.below(7) {
            0 => (format!("{good}.d/none/x"), "no such directory"),
            1 => {
                std::fs::create_dir_all(format!("{good}.d")).unwrap();
                (format!("{good}.d"), "a directory")
            }
            2 => (String::new(), "an empty path"),
            3 => (format!("{good}\0x"), "a path with a NUL"),
            4 => (format!("{good}{}", "n".repeat(300)), "a name that is too long"),
            5 => {
                put(&good, b"old");
                (format!("{good}/x"), "a path through a file")
            }
            _ => {
                rm(&format!("{good}.l"));
                std::os::unix::fs::symlink(format!("{good}.l"), format!("{good}.l")).unwrap();
                (format!("{good}.l"), "a link to itself")
            }
        };
        c.describe(format!("{} to {why}", o.show()));
        c.key(o.hash());
        let s = o.snap();
        let what = format!("{} to {why}", o.show());
        match o.save(&p) {
            Err(m) => bad!("{what}: saving {m}"),
            Ok(Ok(())) => o.stored(&p, &what)?,
            Ok(Err(_)) => c.count("saves_refused", 1),
        }
        o.unchanged(&s, &what)?;
        if why == "a path through a file" {
            ensure!(get(&good)? == b"old", "{what}: the file changed");
        }
        o.usable(c, &good, &what)?;
        rm(&good);
        rm(&p);
        let _ = std::fs::remove_dir(format!("{good}.d"));
        c.nontrivial();
        Ok(())
    });
    if cfg!(rn_faults) {
        ctx.require("stop_positions", 8000);
        ctx.require("faults_injected", 15000);
    }
    ctx.require("saves_completed", 2000);
    ctx.require("saves_refused", 8000);
}

/// C19: reads that are short, interrupted or fail.
pub fn read_faults(ctx: &mut Ctx) {
    if !cfg!(rn_faults) {
        return;
    }
    let dir = ctx.scratch.clone();
    ctx.family("read_faults", 2500, |c| {
        let o = Obj::gen_any(&mut c.rng)?;
        let (p, n) = (path(&dir, c, "o"), o.len());
        match o.save(&p) {
            Ok(Ok(())) => {}
            r => bad!("saving {} failed: {r:?}", o.show()),
        }
        let k = c.rng.range(0, n as u32) as usize;
        let f = match c.rng.below(5) {
            0 => vec![Fault::Interrupt],
            1 => vec![Fault::Short(k.max(1))],
            2 => vec![Fault::Interrupt, Fault::Short(c.rng.range(1, 50) as usize)],
            3 => vec![Fault::Open(*c.rng.pick(&[13, 24, 5]))],
            _ => vec![Fault::After(k, *c.rng.pick(&[5, 116, 21]))], // EIO ESTALE EISDIR
        };
        let what = format!("{} ({n} bytes) read with {f:?}", o.show());
        c.describe(what.clone());
        c.key(o.hash());
        let fails = matches!(f.last(), Some(Fault::After(..) | Fault::Open(_)));
        let r = match &o {
            Obj::Net(_, ch) => {
                let base = if c.rng.chance(1, 2) {
                    vec![Spec { kind: Kind::Soft, name: "base".into(), inp: ch[0].inp, out: ch[0].inp, exact: false }]
                } else {
                    vec![]
                };
                let mode = rand_mode(&mut c.rng);
                let mut net = build_net(&base, mode)?;
                let before = net_snap(&net);
                arm(f);
                let r = guarded(|| net.load_from_file(&p.clone()).map_err(|e| e.to_string()));
                let plan = disarm();
                c.count("faults_injected", plan.injected);
                let r = r.map_err(|m| format!("{what}: loading {m}"))?;
                let mut all = base.clone();
                if r.is_ok() {
                    all.extend(ch.clone());
                    judge_net(&net, &all, mode, &what)?;
                } else {
                    before.same(&net, &format!("{what}: refused"))?;
                }
                judge_works(c, &mut net, &all, Class::Int, &what)?;
                r
            }
            Obj::Ten(_, m) => {
                arm(f);
                let r = guarded(|| Tensor::from_file(&p.clone()).map_err(|e| e.to_string()));
                let plan = disarm();
                c.count("faults_injected", plan.injected);
                match r.map_err(|m| format!("{what}: reading {m}"))? {
                    Ok(t) => {
                        ensure!(Rt::of(&t).same_bits(m), "{what}: {} was read", Rt::of(&t).show());
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            }
        };
        ensure!(!(fails && r.is_ok()) || k >= n, "{what}: reading failed, yet loading succeeded");
        c.count(if r.is_ok() { "reads_completed" } else { "reads_refused" }, 1);
        rm(&p);
        c.nontrivial();
        Ok(())
    });
    ctx.require("reads_completed", 500);
    ctx.require("reads_refused", 300);
}
