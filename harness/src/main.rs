//! vh: runs the monitored workloads of one property.
mod drive;
mod fsck;
mod gen;
#[cfg(not(any(miri, vh_asan)))]
mod iomon;
mod maps;
mod props;
mod util;

use std::cell::{Cell, RefCell};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use util::*;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static LAST_PANIC_HARNESS: Cell<bool> = const { Cell::new(false) };
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// counts live heap bytes (C22)
pub struct Counting;
pub static HEAP: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        HEAP.fetch_sub(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        HEAP.fetch_add(n as u64, Ordering::Relaxed);
        HEAP.fetch_sub(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[cfg(not(any(miri, vh_asan)))]
#[global_allocator]
static ALLOC: Counting = Counting;

pub fn heap_live() -> u64 {
    HEAP.load(Ordering::Relaxed)
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
#[repr(C)]
#[derive(Default)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn setrlimit(res: i32, r: *const Rlimit) -> i32;
    fn clock_gettime(clk: i32, t: *mut Timespec) -> i32;
}
fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut t = Timespec::default();
    unsafe { clock_gettime(2, &mut t) }; // CLOCK_PROCESS_CPUTIME_ID
    t.s as u64 * 1000 + t.ns as u64 / 1_000_000
}

/// The CPU time a single case may take: far above what any case needs.
const CASE_CPU_MS: u64 = 150_000;
static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);

pub enum Verdict {
    Ok,
    Violation(String),
    HarnessError(String),
}

fn run_case(cx: &mut Cx) -> Verdict {
    let _ = std::fs::remove_dir_all(&cx.dir);
    std::fs::create_dir_all(&cx.dir).expect("harness: cannot create the scratch directory");
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    CASE_START.store(cpu_ms(), Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(cx)));
    CASE_START.store(u64::MAX, Ordering::SeqCst);
    #[cfg(not(any(miri, vh_asan)))]
    let _ = iomon::stop();
    QUIET.with(|q| q.set(0));
    let _ = std::fs::remove_dir_all(&cx.dir);
    match r {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(Fail(m))) => Verdict::Violation(m),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if LAST_PANIC_HARNESS.with(|h| h.get()) {
                Verdict::HarnessError(m)
            } else {
                Verdict::Violation(format!("panic: {m}"))
            }
        }
    }
}

fn case_cx(prop: &str, thorough: bool, seed: u64, idx: u64, scratch: &std::path::Path) -> Cx {
    let mut h = mix(seed, idx);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    if thorough {
        h = mix(h, 77);
    }
    Cx {
        prop: prop.to_string(),
        thorough,
        seed,
        idx,
        rng: Rng::new(h),
        dir: scratch.join(format!("case{idx}")),
        st: Stats::default(),
        desc: String::new(),
        digest: 0,
        nontrivial: true,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let harness = msg.starts_with("harness:") || loc.starts_with("src/") || loc.contains("verif/harness");
        let full = format!("{msg} (at {loc})");
        LAST_PANIC.with(|p| *p.borrow_mut() = full.clone());
        LAST_PANIC_HARNESS.with(|h| h.set(harness));
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("panic: {full}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        // vh count PROP TIER
        "count" => println!("{}", props::count(&a[2], a[3] == "thorough")),
        // vh run PROP TIER SEED WORKER WORKERS OUT SCRATCH BUDGET_S
        "run" => {
            let (prop, thorough) = (a[2].clone(), a[3] == "thorough");
            let seed: u64 = a[4].parse().unwrap();
            let w: u64 = a[5].parse().unwrap();
            let nw: u64 = a[6].parse().unwrap();
            let scratch = std::path::PathBuf::from(&a[8]);
            let budget: u64 = a[9].parse().unwrap();
            let n = props::count(&prop, thorough);
            let cases: Vec<u64> = (0..n).filter(|i| mix(*i, 3) % nw == w).collect();
            worker(&prop, thorough, seed, &cases, &a[7], &scratch, budget);
        }
        // vh case PROP TIER SEED CASE OUT SCRATCH
        "case" => {
            let (prop, thorough) = (a[2].clone(), a[3] == "thorough");
            let cases = vec![a[5].parse().unwrap()];
            worker(&prop, thorough, a[4].parse().unwrap(), &cases, &a[6], &std::path::PathBuf::from(&a[7]), 100_000);
        }
        // vh golden OUT SCRATCH
        "golden" => props::golden::make(a[2].as_ref(), a[3].as_ref()),
        _ => {
            eprintln!("usage: vh count|run|case ...");
            std::process::exit(2);
        }
    }
}

fn worker(prop: &str, thorough: bool, seed: u64, cases: &[u64], out: &str, scratch: &std::path::Path, budget: u64) {
    #[cfg(not(any(miri, vh_asan)))]
    unsafe {
        let lim = Rlimit { cur: 12 << 30, max: 12 << 30 };
        setrlimit(9, &lim); // RLIMIT_AS
        let lim = Rlimit { cur: 0, max: 0 };
        setrlimit(4, &lim); // RLIMIT_CORE
    }
    #[cfg(any(miri, vh_asan))]
    let _ = (setrlimit as unsafe extern "C" fn(i32, *const Rlimit) -> i32, Rlimit { cur: 0, max: 0 }.cur, 0 as *const Rlimit);
    let mut f = std::fs::File::create(out).expect("harness: cannot create the output file");
    let path = out.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let st = CASE_START.load(Ordering::SeqCst);
        if st != u64::MAX && cpu_ms().saturating_sub(st) > CASE_CPU_MS {
            let mut f = std::fs::OpenOptions::new().append(true).open(&path).expect("harness: append");
            let _ = writeln!(f, "{{\"ev\":\"stuck\"}}");
            std::process::exit(3);
        }
    });
    let start = std::time::Instant::now();
    let mut total = Stats::default();
    let (mut evals, mut nontrivial, mut skipped) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut digests: Vec<u64> = Vec::new();
    // messages of findings which are listed as known
    let known: Vec<String> =
        std::env::var("VH_KNOWN").unwrap_or_default().lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect();
    for &i in cases {
        if start.elapsed().as_secs() >= budget {
            skipped += 1;
            continue;
        }
        writeln!(f, "{{\"ev\":\"begin\",\"case\":{i}}}").expect("harness: write");
        let mut cx = case_cx(prop, thorough, seed, i, scratch);
        let t0 = cpu_ms();
        let v = run_case(&mut cx);
        total.max("case_cpu_ms_max", cpu_ms() - t0);
        evals += 1;
        if cx.nontrivial {
            nontrivial += 1;
            digests.push(mix(cx.digest, hash_bytes(cx.desc.as_bytes())));
        }
        for (k, v) in &cx.st.sum {
            total.add(k, *v);
        }
        for (k, v) in &cx.st.max {
            total.max(k, *v);
        }
        for s in &cx.st.shapes {
            total.shapes.insert(*s);
        }
        if samples.len() < 3 && cx.nontrivial {
            samples.push(format!("case {i}: {}", cx.desc));
        }
        let (ev, m) = match v {
            Verdict::Ok => continue,
            Verdict::Violation(m) => ("violation", m),
            Verdict::HarnessError(m) => ("error", m),
        };
        let listed = ev == "violation" && known.iter().any(|k| m.contains(k.as_str()));
        let ev = if listed { "known" } else { ev };
        let _ = writeln!(
            f,
            "{{\"ev\":\"{ev}\",\"case\":{i},\"msg\":{},\"desc\":{}}}",
            json_str(&m),
            json_str(&cx.desc)
        );
        if listed {
            continue;
        }
        break;
    }
    let hex = |it: &mut dyn Iterator<Item = &u64>| it.take(60_000).map(|d| format!("\"{d:x}\"")).collect::<Vec<_>>().join(",");
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    };
    let _ = writeln!(
        f,
        "{{\"ev\":\"end\",\"evals\":{evals},\"nontrivial\":{nontrivial},\"skipped\":{skipped},\"sum\":{{{}}},\"max\":{{{}}},\"digests\":[{}],\"shapes\":[{}],\"samples\":[{}]}}",
        map(&total.sum),
        map(&total.max),
        hex(&mut digests.iter()),
        hex(&mut total.shapes.iter()),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
}
