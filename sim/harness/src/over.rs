//! The seam to the operating system: the libc functions std::fs, the clock and
//! the hash map seeds go through. On the stack of a simulated rank they are
//! subject to the simulator (scheduling points, disk faults, containment,
//! simulated clock); elsewhere they go straight to the kernel.
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::path::Component;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;

use libc::c_char;
use libc::c_int;
use libc::c_long;
use libc::c_uint;
use libc::c_void;
use libc::mode_t;
use libc::off_t;
use libc::size_t;
use libc::ssize_t;
use simcore::choice::mix;
use simcore::choice::splitmix;
use simcore::sched;

static HASH_SEED: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s | 1, Ordering::Relaxed);
}

struct Disk {
    root: PathBuf,
    /// fds opened for writing below root by simulated ranks
    fds: BTreeMap<c_int, String>,
    dirs: BTreeMap<usize, (Vec<Box<libc::dirent64>>, usize)>,
}

static mut DISK: Option<Disk> = None;
pub static mut IO_LOG: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
fn disk() -> Option<&'static mut Disk> {
    unsafe { DISK.as_mut() }
}

pub fn job_start(root: &Path) {
    unsafe {
        DISK = Some(Disk {
            root: root.to_path_buf(),
            fds: BTreeMap::new(),
            dirs: BTreeMap::new(),
        });
        std::ptr::addr_of_mut!(IO_LOG).as_mut().unwrap().clear();
        BYTES = 0;
    }
}

static mut BYTES: u64 = 0;

/// Operations on the disk in the last job.
pub fn num_ops() -> u64 {
    unsafe { std::ptr::addr_of!(IO_LOG).as_ref().unwrap().len() as u64 }
}
/// Operations on the disk in the last job, by kind.
pub fn ops_by_kind() -> BTreeMap<String, Vec<u64>> {
    let mut m: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for (i, l) in unsafe { std::ptr::addr_of!(IO_LOG).as_ref().unwrap() }.iter().enumerate() {
        let kind = l.split(' ').nth(2).unwrap_or("").to_string();
        m.entry(kind).or_default().push(i as u64 + 1);
    }
    m
}
/// Bytes written in the last job.
pub fn num_bytes() -> u64 {
    unsafe { BYTES }
}

pub fn job_end() {
    // A killed job closes its files.
    if let Some(d) = disk() {
        for fd in d.fds.keys() {
            unsafe { libc::syscall(libc::SYS_close, *fd as c_long) };
        }
    }
    unsafe { DISK = None };
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e };
}

unsafe fn ret(r: c_long) -> c_long {
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let s = HASH_SEED.load(Ordering::Relaxed);
    if s == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags as c_long) as ssize_t;
    }
    let mut st = s;
    for i in 0..len {
        if i % 8 == 0 {
            splitmix(&mut st);
        }
        *(buf as *mut u8).add(i) = (mix(st, i as u64) >> 16) as u8;
    }
    HASH_SEED.store(st | 1, Ordering::Relaxed);
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(ns) = sched::clock_ns() {
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int
}

fn absolute(p: &Path) -> PathBuf {
    let mut out = if p.is_absolute() {
        PathBuf::new()
    } else {
        std::env::current_dir().unwrap_or_default()
    };
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

unsafe fn path_of(dirfd: c_int, p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let s = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
    if dirfd != libc::AT_FDCWD && !s.is_absolute() {
        if let Ok(base) = std::fs::read_link(format!("/proc/self/fd/{dirfd}")) {
            return absolute(&base.join(s));
        }
    }
    absolute(s)
}

enum Verdict {
    Pass,
    Fail(c_int),
}

fn harmless(p: &Path) -> bool {
    p == Path::new("/dev/null") || p == Path::new("/dev/tty") || p.starts_with("/proc/self")
}

/// A call that changes the file system. Decides whether it may, and whether a fault hits it.
fn modify(op: &'static str, p: &Path) -> Verdict {
    if !sched::in_rank() {
        return Verdict::Pass;
    }
    if harmless(p) {
        return Verdict::Pass;
    }
    let Some(d) = disk() else { return Verdict::Pass };
    if !p.starts_with(&d.root) {
        sched::sim().violation("escape", format!("{op} outside the output directory: {}", p.display()));
        return Verdict::Fail(libc::EACCES);
    }
    let rel = p.strip_prefix(&d.root).unwrap().display().to_string();
    if is_log(&rel) {
        return Verdict::Pass;
    }
    log_io(op, &rel);
    sched::point(op, 0, 0);
    fault(op)
}

fn is_log(rel: &str) -> bool {
    rel.contains("logs/") || rel.ends_with("logs")
}

fn log_io(op: &str, rel: &str) {
    unsafe {
        let l = std::ptr::addr_of_mut!(IO_LOG).as_mut().unwrap();
        if l.len() < 100_000 {
            l.push(format!("rank {} {op} {rel}", sched::current_rank()));
        }
    }
}

const ERRS: [c_int; 5] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EMFILE];
const ERR_NAMES: [&str; 5] = ["disk_eio", "disk_enospc", "disk_eacces", "disk_erofs", "disk_emfile"];

fn fault(op: &'static str) -> Verdict {
    let s = sched::sim();
    s.write_calls += 1;
    let _ = op;
    if Some(s.write_calls) == s.env.fail_write_at {
        let k = s.env.fail_kind as usize % ERRS.len();
        s.stat(ERR_NAMES[k]);
        s.stat("disk_fault");
        return Verdict::Fail(ERRS[k]);
    }
    if s.env.p_disk_error > 0.0 {
        let p = s.env.p_disk_error;
        let k = s.ch.choose("diskerr", ERRS.len() as u64 + 1, p) as usize;
        if k > 0 {
            s.stat(ERR_NAMES[k - 1]);
            s.stat("disk_fault");
            return Verdict::Fail(ERRS[k - 1]);
        }
    }
    Verdict::Pass
}

unsafe fn open_impl(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let writing = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    if sched::in_rank() {
        if writing {
            let p = path_of(dirfd, path);
            if let Verdict::Fail(e) = modify("open", &p) {
                set_errno(e);
                return -1;
            }
            let fd = libc::syscall(libc::SYS_openat, dirfd as c_long, path, flags as c_long, mode as c_long) as c_int;
            if fd >= 0 && !harmless(&p) {
                if let Some(d) = disk() {
                    let rel = p.strip_prefix(&d.root).map(|x| x.display().to_string()).unwrap_or_default();
                    d.fds.insert(fd, rel);
                }
            }
            return fd;
        }
        let p = path_of(dirfd, path);
        if let Some(d) = disk() {
            if p.starts_with(&d.root) {
                sched::point("openr", 0, 0);
            }
        }
    }
    libc::syscall(libc::SYS_openat, dirfd as c_long, path, flags as c_long, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sched::in_rank() {
        if let Some(d) = disk() {
            d.fds.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd as c_long) as c_int
}

/// Faults on a write of n bytes: how many may be written, or an error.
fn write_fault(fd: c_int, n: usize) -> Result<usize, (usize, c_int)> {
    if !sched::in_rank() {
        return Ok(n);
    }
    let Some(d) = disk() else { return Ok(n) };
    let Some(rel) = d.fds.get(&fd) else { return Ok(n) };
    if is_log(rel) {
        return Ok(n);
    }
    log_io("write", rel);
    unsafe { BYTES += n as u64 };
    sched::point("write", n as u64, 0);
    let s = sched::sim();
    if let Some(cap) = s.env.disk_capacity {
        if s.bytes_written + n as u64 > cap {
            let fit = (cap - s.bytes_written.min(cap)) as usize;
            s.stat("disk_full");
            s.stat("disk_fault");
            s.bytes_written += fit as u64;
            return if fit > 0 { Ok(fit) } else { Err((0, libc::ENOSPC)) };
        }
    }
    if let Verdict::Fail(e) = fault("write") {
        // an error may come after a part of the data was written
        let s = sched::sim();
        let torn = s.ch.choose("torn", 3, 0.5);
        let part = match torn {
            1 => n / 2,
            2 => n.saturating_sub(1),
            _ => 0,
        };
        if part > 0 {
            s.stat("torn_write");
        }
        return Err((part, e));
    }
    let s = sched::sim();
    if s.env.p_short > 0.0 && n > 1 {
        let p = s.env.p_short;
        let k = s.ch.choose("short", 4, p);
        if k > 0 {
            s.stat(if k == 3 { "eintr" } else { "short_write" });
            let m = match k {
                1 => n / 2,
                2 => 1,
                _ => return Err((0, libc::EINTR)),
            };
            s.bytes_written += m as u64;
            return Ok(m);
        }
    }
    s.bytes_written += n as u64;
    Ok(n)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match write_fault(fd, n) {
        Ok(m) => ret(libc::syscall(libc::SYS_write, fd as c_long, buf, m)) as ssize_t,
        Err((part, e)) => {
            if part > 0 {
                libc::syscall(libc::SYS_write, fd as c_long, buf, part);
            }
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if sched::in_rank() && disk().map_or(false, |d| d.fds.contains_key(&fd)) && cnt > 0 {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        for x in v {
            if x.iov_len > 0 {
                return write(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd as c_long, iov, cnt as c_long) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    match write_fault(fd, n) {
        Ok(m) => libc::syscall(libc::SYS_pwrite64, fd as c_long, buf, m, off) as ssize_t,
        Err((_, e)) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if sched::in_rank() && n > 1 {
        let s = sched::sim();
        if s.env.p_short > 0.0 {
            let p = s.env.p_short;
            let k = s.ch.choose("shortread", 4, p);
            if k > 0 {
                s.stat(if k == 3 { "eintr" } else { "short_read" });
                match k {
                    1 => n /= 2,
                    2 => n = 1,
                    _ => {
                        set_errno(libc::EINTR);
                        return -1;
                    }
                }
            }
        }
    }
    libc::syscall(libc::SYS_read, fd as c_long, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if let Err((_, e)) = write_fault(fd, 0) {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd as c_long, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if sched::in_rank() {
        if let Verdict::Fail(e) = modify("mkdir", &path_of(libc::AT_FDCWD, path)) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_mkdir, path, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if sched::in_rank() {
        if let Verdict::Fail(e) = modify("unlink", &path_of(libc::AT_FDCWD, path)) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if sched::in_rank() {
        if let Verdict::Fail(e) = modify("unlink", &path_of(dirfd, path)) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_unlinkat, dirfd as c_long, path, flags as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if sched::in_rank() {
        if let Verdict::Fail(e) = modify("rmdir", &path_of(libc::AT_FDCWD, path)) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_rmdir, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sched::in_rank() {
        for p in [a, b] {
            if let Verdict::Fail(e) = modify("rename", &path_of(libc::AT_FDCWD, p)) {
                set_errno(e);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if sched::in_rank() {
        if let Verdict::Fail(e) = modify("symlink", &path_of(libc::AT_FDCWD, b)) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_symlink, a, b) as c_int
}

unsafe fn next_fn(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    let real: F = std::mem::transmute(next_fn(b"readdir64\0"));
    if !sched::in_rank() || disk().is_none() {
        return real(dir);
    }
    let d = disk().unwrap();
    let e = d.dirs.entry(dir as usize).or_insert_with(|| {
        let mut v: Vec<Box<libc::dirent64>> = vec![];
        loop {
            let p = real(dir);
            if p.is_null() {
                break;
            }
            // copy only as much as there is
            let mut b: Box<libc::dirent64> = Box::new(std::mem::zeroed());
            std::ptr::copy_nonoverlapping(
                p as *const u8,
                &mut *b as *mut _ as *mut u8,
                ((*p).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>()),
            );
            v.push(b);
        }
        // the kernel's order is not deterministic
        v.sort_by_key(|e| CStr::from_ptr(e.d_name.as_ptr()).to_owned());
        let s = sched::sim();
        let k = if s.env.permute_readdir { s.ch.choose("readdir", 1000, 0.7) } else { 0 };
        if k > 0 {
            s.stat("readdir_permuted");
            simcore::choice::Rng::new(k).shuffle(&mut v);
        }
        (v, 0)
    });
    if e.1 < e.0.len() {
        e.1 += 1;
        &mut *e.0[e.1 - 1] as *mut _
    } else {
        std::ptr::null_mut()
    }
}

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> c_int;
    if let Some(d) = disk() {
        d.dirs.remove(&(dir as usize));
    }
    let real: F = std::mem::transmute(next_fn(b"closedir\0"));
    real(dir)
}
