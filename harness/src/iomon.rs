//! The I/O monitor: the libc calls through which the library reads and writes
//! its files are defined here, observed, and on demand made to fail. Calls for
//! files outside the watched directory go straight to the kernel.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::c_void;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_READ: i64 = 0;
const SYS_WRITE: i64 = 1;
const SYS_PREAD: i64 = 17;
const SYS_PWRITE: i64 = 18;
const SYS_WRITEV: i64 = 20;
const SYS_FSYNC: i64 = 74;
const SYS_FDATASYNC: i64 = 75;
const SYS_FTRUNCATE: i64 = 77;
const SYS_READLINK: i64 = 89;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Call {
    Read,
    Write,
    Sync,
    Trunc,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub call: Call,
    /// the n-th such call since the monitor was started (from 0)
    pub at: u64,
    /// this many calls fail
    pub times: u64,
    pub errno: i32,
}

#[derive(Default, Clone, Debug)]
pub struct FileSt {
    pub writes: u64,
    pub bytes: u64,
    pub syncs: u64,
    pub last_mod: u64,
    pub last_sync: u64,
}

#[derive(Default)]
pub struct Mon {
    dir: Vec<u8>,
    pub seq: u64,
    pub files: BTreeMap<String, FileSt>,
    pub calls: BTreeMap<Call, u64>,
    pub faults: Vec<Fault>,
    pub fired: u64,
    /// 0: off; otherwise transfers are cut to at most this many bytes
    pub short: usize,
    /// 0: off; otherwise every n-th call is interrupted once
    pub eintr: u64,
    eintr_cnt: u64,
    pub shorts: u64,
    pub interrupts: u64,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static MON: RefCell<Mon> = RefCell::new(Mon::default());
}

/// Starts watching the files below `dir`.
pub fn start(dir: &std::path::Path) {
    let d = std::fs::canonicalize(dir).expect("harness: canonicalize");
    MON.with(|m| {
        *m.borrow_mut() = Mon { dir: d.as_os_str().as_encoded_bytes().to_vec(), ..Default::default() }
    });
    ACTIVE.with(|a| a.set(true));
}
pub fn stop() -> Mon {
    ACTIVE.with(|a| a.set(false));
    MON.with(|m| m.take())
}
pub fn with<T>(f: impl FnOnce(&mut Mon) -> T) -> T {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = MON.with(|m| f(&mut m.borrow_mut()));
    ACTIVE.with(|a| a.set(was));
    r
}

unsafe fn path_of(fd: i32) -> Option<Vec<u8>> {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 1024];
    let n = syscall(SYS_READLINK, link.as_ptr(), buf.as_mut_ptr(), buf.len());
    if n <= 0 {
        return None;
    }
    Some(buf[..n as usize].to_vec())
}

enum Act {
    Pass,
    Err(i32),
    Cut(usize),
}

unsafe fn before(fd: i32, call: Call, n: usize) -> (Act, Option<String>) {
    let p = match path_of(fd) {
        Some(p) => p,
        None => return (Act::Pass, None),
    };
    MON.with(|m| {
        let mut m = m.borrow_mut();
        if !p.starts_with(&m.dir) {
            return (Act::Pass, None);
        }
        let name = String::from_utf8_lossy(&p[m.dir.len()..]).to_string();
        let c = m.calls.entry(call).or_insert(0);
        let at = *c;
        *c += 1;
        m.seq += 1;
        let hit = m.faults.iter().find(|f| f.call == call && at >= f.at && at < f.at + f.times).map(|f| f.errno);
        if let Some(e) = hit {
            m.fired += 1;
            return (Act::Err(e), Some(name));
        }
        if m.eintr > 0 && matches!(call, Call::Read | Call::Write) {
            m.eintr_cnt += 1;
            if m.eintr_cnt % m.eintr == 0 {
                m.interrupts += 1;
                return (Act::Err(EINTR), Some(name));
            }
        }
        if m.short > 0 && n > 1 && matches!(call, Call::Read | Call::Write) {
            let lim = 1 + (crate::util::mix(m.seq, n as u64) as usize) % m.short;
            if lim < n {
                m.shorts += 1;
                return (Act::Cut(lim), Some(name));
            }
        }
        (Act::Pass, Some(name))
    })
}

fn after(name: Option<String>, call: Call, ret: i64) {
    if let Some(name) = name {
        if ret < 0 {
            return;
        }
        MON.with(|m| {
            let mut m = m.borrow_mut();
            let seq = m.seq;
            let f = m.files.entry(name).or_default();
            match call {
                Call::Write | Call::Trunc => {
                    f.writes += 1;
                    f.bytes += ret as u64;
                    f.last_mod = seq;
                }
                Call::Sync => {
                    f.syncs += 1;
                    f.last_sync = seq;
                }
                Call::Read => {}
            }
        })
    }
}

fn guarded(fd: i32, call: Call, n: usize, real: impl Fn(usize) -> i64) -> i64 {
    let on = ACTIVE.try_with(|a| a.replace(false)).unwrap_or(false);
    if !on {
        return real(n);
    }
    let r = unsafe {
        let (act, name) = before(fd, call, n);
        let r = match act {
            Act::Pass => real(n),
            Act::Cut(k) => real(k),
            Act::Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
        let errno = *__errno_location();
        after(name, call, r);
        *__errno_location() = errno;
        r
    };
    ACTIVE.with(|a| a.set(true));
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
    guarded(fd, Call::Write, n, |k| unsafe { syscall(SYS_WRITE, fd as i64, buf, k) }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const c_void, n: usize, off: i64) -> isize {
    guarded(fd, Call::Write, n, |k| unsafe { syscall(SYS_PWRITE, fd as i64, buf, k, off) }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const c_void, cnt: i32) -> isize {
    guarded(fd, Call::Write, 0, |_| unsafe { syscall(SYS_WRITEV, fd as i64, iov, cnt as i64) }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut c_void, n: usize) -> isize {
    guarded(fd, Call::Read, n, |k| unsafe { syscall(SYS_READ, fd as i64, buf, k) }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut c_void, n: usize, off: i64) -> isize {
    guarded(fd, Call::Read, n, |k| unsafe { syscall(SYS_PREAD, fd as i64, buf, k, off) }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    guarded(fd, Call::Sync, 0, |_| unsafe { syscall(SYS_FSYNC, fd as i64) }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    guarded(fd, Call::Sync, 0, |_| unsafe { syscall(SYS_FDATASYNC, fd as i64) }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    guarded(fd, Call::Trunc, 0, |_| unsafe { syscall(SYS_FTRUNCATE, fd as i64, len) }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    guarded(fd, Call::Trunc, 0, |_| unsafe { syscall(SYS_FTRUNCATE, fd as i64, len) }) as i32
}
