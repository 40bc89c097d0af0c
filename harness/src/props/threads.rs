//! Databases of different threads (C26). Every thread has a database of its
//! own; whatever the others do, it has to answer as if it were alone, and under
//! ThreadSanitizer the library may not touch memory of another thread.
use crate::drive::*;
use crate::gen;
use crate::maps::*;
use crate::util::*;
use crate::{ensure, fail, fsck};
use siamesedb::filedb::FileDb;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// the thread that made the last step, and a digest of the order of the steps
struct Turn {
    last: AtomicU64,
    order: AtomicU64,
    switches: AtomicU64,
}
impl Turn {
    // relaxed: the monitor must not order the threads
    fn step(&self, id: u64) {
        if self.last.swap(id, Ordering::Relaxed) != id {
            self.switches.fetch_add(1, Ordering::Relaxed);
            let o = self.order.load(Ordering::Relaxed);
            self.order.store(mix(o, id), Ordering::Relaxed);
        }
    }
}

thread_local! {
    /// what a thread leaves open is closed by the end of the thread
    static LEFT: RefCell<Option<(Box<dyn Map>, FileDb)>> = const { RefCell::new(None) };
}

enum End {
    Ok,
    Broken(String),
    Harness(String),
}

struct Job {
    id: u64,
    s: Script,
    mem: bool,
    name: String,
    sessions: usize,
    leave: bool,
    lag: usize,
}

fn file_job(cx: &mut Cx, j: &Job, turn: &Turn, model: &mut Model) -> R {
    let s = &j.s;
    let mut at = 0;
    for ses in 0..j.sessions {
        let what = format!("thread {} of several, session {ses}", j.id);
        let db = io("open", FileDb::open(&cx.dir))?;
        let p = gen::maybe_params(&mut cx.rng, 20);
        let mut map = io("opening the map", open_map(&db, s.kt, &j.name, p))?;
        let to = if ses + 1 == j.sessions { s.ops.len() } else { s.cut(at, &mut cx.rng) };
        while at < to {
            let n = (at + 1 + cx.rng.below(j.lag)).min(to);
            turn.step(j.id);
            play_range(cx, &mut *map, model, s, at, n).map_err(|f| Fail(format!("{what}: {}", f.0)))?;
            at = n;
            match cx.rng.below(40) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(cx.rng.below(200) as u64)),
                2 => map = map.dup(),
                3 => io("sync_all of the database", db.sync_all())?,
                4 => map = io("opening the map", open_map(&db, s.kt, &j.name, None))?,
                5 if model.len() < 300 => {
                    let mode = cx.rng.below(5);
                    verify_iter(cx, &mut *map, model, mode, &what)?
                }
                _ => {}
            }
        }
        turn.step(j.id);
        verify_all(cx, &mut *map, model, &s.uni, &what)?;
        if ses + 1 == j.sessions && j.leave {
            LEFT.with(|l| *l.borrow_mut() = Some((map, db)));
            cx.st.add("closed_by_the_end_of_the_thread", 1);
        } else if cx.rng.chance(50) {
            drop(map);
            drop(db);
        } else {
            drop(db);
            drop(map);
        }
        cx.st.add("sessions", 1);
    }
    Ok(())
}

fn mem_job(cx: &mut Cx, j: &Job, turn: &Turn, model: &mut Model) -> R {
    let db = siamesedb::open_memory();
    let mut map = open_mem(&db, j.s.kt, &j.name);
    let mut at = 0;
    while at < j.s.ops.len() {
        let n = (at + 1 + cx.rng.below(j.lag)).min(j.s.ops.len());
        turn.step(j.id);
        play_range(cx, &mut *map, model, &j.s, at, n).map_err(|f| Fail(format!("thread {} of several, memory map: {}", j.id, f.0)))?;
        at = n;
        if cx.rng.chance(3) {
            std::thread::yield_now();
        }
    }
    let what = format!("thread {} of several, memory map", j.id);
    verify_all(cx, &mut *map, model, &j.s.uni, &what)?;
    cx.st.add("memory_maps", 1);
    Ok(())
}

/// What the compiler says about a type, without asking for it to be so.
macro_rules! may_cross {
    ($t:ty) => {{
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const SEND: bool = false;
            const SYNC: bool = false;
        }
        impl<T: ?Sized> No for W<T> {}
        struct WS<T: ?Sized>(std::marker::PhantomData<T>);
        impl<T: ?Sized> No for WS<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Send> W<T> {
            const SEND: bool = true;
        }
        #[allow(dead_code)]
        impl<T: ?Sized + Sync> WS<T> {
            const SYNC: bool = true;
        }
        (<W<$t>>::SEND, <WS<$t>>::SYNC)
    }};
}

/// The types that the compiler lets through to another thread.
fn crossing() -> Vec<(&'static str, bool, bool)> {
    use siamesedb::filedb::*;
    use siamesedb::memdb;
    macro_rules! list {
        ($($n:literal $t:ty),* $(,)?) => { vec![$({ let (a, b) = may_cross!($t); ($n, a, b) }),*] };
    }
    list![
        "FileDb" FileDb,
        "FileDbMapDbString" FileDbMapDbString,
        "FileDbMapDbInt" FileDbMapDbInt,
        "FileDbMapDbBytes" FileDbMapDbBytes,
        "DbXxxIter<DbString>" DbXxxIter<DbString>,
        "DbXxxIterMut<DbString>" DbXxxIterMut<DbString>,
        "DbXxxIntoIter<DbString>" DbXxxIntoIter<DbString>,
        "DbXxxIter<DbInt>" DbXxxIter<DbInt>,
        "DbXxxIterMut<DbInt>" DbXxxIterMut<DbInt>,
        "DbXxxIntoIter<DbInt>" DbXxxIntoIter<DbInt>,
        "DbXxxIter<DbBytes>" DbXxxIter<DbBytes>,
        "DbXxxIterMut<DbBytes>" DbXxxIterMut<DbBytes>,
        "DbXxxIntoIter<DbBytes>" DbXxxIntoIter<DbBytes>,
        "MemoryDb" memdb::MemoryDb<'static>,
        "MemoryDbMapDbString" memdb::MemoryDbMapDbString<'static>,
        "MemoryDbMapDbInt" memdb::MemoryDbMapDbInt<'static>,
        "MemoryDbMapDbBytes" memdb::MemoryDbMapDbBytes<'static>,
    ]
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}

/// The compiler lets the handles of a file map through to other threads: then
/// two threads with handles of the same map must work.
fn shared(cx: &mut Cx) -> R {
    let dir = cx.sub("shared");
    let db = io("open", FileDb::open(&dir))?;
    let map = io("opening the map", open_map(&db, Kt::Int, "m", None))?;
    let other = Force(map.dup());
    let mut mine = map;
    let go = Arc::new(Barrier::new(2));
    let go2 = go.clone();
    let work = |m: &mut dyn Map, base: u64| -> Result<(), String> {
        for r in 0..200u64 {
            for i in 0..100u64 {
                let k = (base + i).to_be_bytes();
                let v = (base + i + r).to_le_bytes();
                m.put(&k, &v, 0).map_err(|e| e.to_string())?;
                if m.get(&k, 0).map_err(|e| e.to_string())? != Some(v.to_vec()) {
                    return Err("a key has not the value just put".into());
                }
            }
        }
        Ok(())
    };
    let h = std::thread::spawn(move || {
        let mut m = other.get();
        go2.wait();
        catch(|| work(&mut *m, 1 << 40))
    });
    go.wait();
    let a = catch(|| work(&mut *mine, 0));
    let b = h.join().expect("harness: join");
    for r in [a, b] {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => fail!("the handles can be sent to another thread, but two threads at the same map: {m}"),
        }
    }
    Ok(())
}

pub fn c26(cx: &mut Cx) -> R {
    for (n, send, sync) in crossing() {
        cx.st.add("types_asked", 1);
        if send || sync {
            cx.st.add("types_that_may_cross_threads", 1);
            cx.note(&format!("{n} may be sent to other threads"));
        }
    }
    if crossing().iter().take(4).any(|(_, a, b)| *a || *b) {
        shared(cx)?;
    }
    let n = *cx.rng.pick(&[2usize, 2, 3, 3, 4, 6]);
    let slow = cfg!(any(miri, vh_asan));
    let common = cx.rng.chance(60);
    let kt = KTS[(cx.idx % 3) as usize];
    let ukind = *cx.rng.pick(&gen::UNIS);
    let un = if slow { cx.rng.range(5, 400) } else { cx.rng.range(5, 1500) };
    let uni = gen::universe(kt, ukind, un, &mut cx.rng);
    cx.note(&format!("{n} threads, {}", if common { format!("{ukind:?} {} {} keys in common", kt_name(kt), uni.len()) } else { "each its own keys".into() }));
    let mut jobs = Vec::new();
    for id in 0..n {
        let mut rng = Rng::new(cx.rng.next());
        let s = if common {
            let val = *rng.pick(&gen::VALS);
            let m = (un * 2).min(2000) / if matches!(val, gen::Val::Large | gen::Val::Huge) { 8 } else { 1 } + 10;
            let mut ph = vec![Ph::Fill(pick_order(&mut rng), rng.range(50, 100))];
            for _ in 0..rng.range(1, 4) {
                ph.push(match rng.below(5) {
                    0 => Ph::Drain(pick_order(&mut rng), 100),
                    1 => Ph::Overwrite(m / 2),
                    2 => Ph::Fill(pick_order(&mut rng), 100),
                    3 => Ph::Bulk(3),
                    _ => Ph::Churn(m),
                });
            }
            let o = Opts { reads: 20, misses: true, syncs: rng.chance(50), strings: rng.chance(30), bulk: true };
            script(kt, uni.clone(), val, &ph, &o, &mut rng)
        } else {
            let size = *rng.pick(if slow { &[Size::Tiny, Size::Node, Size::Node] } else { &[Size::Tiny, Size::Node, Size::Two] });
            let kt = *rng.pick(&KTS);
            random_script(kt, size, false, &mut rng)
        };
        cx.note(&s.name.chars().take(60).collect::<String>());
        jobs.push(Job {
            id: id as u64,
            s,
            mem: id > 0 && rng.chance(12),
            name: if rng.chance(70) { "m".into() } else { format!("m{id}") },
            sessions: 1 + rng.below(3),
            leave: rng.chance(25),
            lag: *rng.pick(&[1, 3, 20, 100]),
        });
    }
    let turn = Arc::new(Turn { last: AtomicU64::new(u64::MAX), order: AtomicU64::new(1), switches: AtomicU64::new(0) });
    let go = Arc::new(Barrier::new(n));
    let mut hs = Vec::new();
    for j in jobs {
        let mut tc = Cx {
            prop: cx.prop.clone(),
            thorough: cx.thorough,
            seed: cx.seed,
            idx: cx.idx,
            rng: Rng::new(cx.rng.next()),
            dir: cx.sub(&format!("t{}", j.id)),
            st: Stats::default(),
            desc: String::new(),
            digest: cx.digest,
            nontrivial: true,
        };
        let (turn, go) = (turn.clone(), go.clone());
        hs.push(std::thread::spawn(move || {
            let mut model = Model::new();
            go.wait();
            let r = catch(|| if j.mem { mem_job(&mut tc, &j, &turn, &mut model) } else { file_job(&mut tc, &j, &turn, &mut model) });
            let end = match r {
                Ok(Ok(())) => End::Ok,
                Ok(Err(Fail(m))) => End::Broken(m),
                Err(m) if crate::LAST_PANIC_HARNESS.with(|h| h.get()) => End::Harness(m),
                Err(m) => End::Broken(format!("panic in thread {}: {m}", j.id)),
            };
            (j, tc, model, end)
        }));
    }
    let mut done = Vec::new();
    for h in hs {
        done.push(h.join().map_err(|_| Fail("a thread ended with a panic while its database was closed".into()))?);
    }
    for (j, tc, _, end) in &done {
        for (k, v) in &tc.st.sum {
            cx.st.add(k, *v);
        }
        match end {
            End::Ok => {}
            End::Broken(m) => fail!("{m} (thread {}: {})", j.id, j.s.name),
            End::Harness(m) => panic!("harness: in a thread: {m}"),
        }
    }
    cx.st.add("threads", n as u64);
    let sw = turn.switches.load(Ordering::Relaxed);
    cx.st.add("thread_switches", sw);
    cx.st.shapes.insert(turn.order.load(Ordering::Relaxed));
    // what the threads left on the disk, read by another thread
    for (j, mut tc, model, _) in done {
        if j.mem {
            continue;
        }
        let what = format!("the files of thread {}", j.id);
        let d = fsck::read(&tc.dir, &j.name)?;
        d.same_as(&model, &what)?;
        d.tree()?;
        d.accounting()?;
        #[cfg(feature = "htx")]
        d.hash_table(|k| gen::hash_of(j.s.kt, k))?;
        let db = io("open", FileDb::open(&tc.dir))?;
        let mut map = io("opening the map", open_map(&db, j.s.kt, &j.name, None))?;
        verify_all(&mut tc, &mut *map, &model, &j.s.uni, &what)?;
        cx.st.add("databases_read_afterwards", 1);
    }
    cx.nontrivial = sw > n as u64;
    ensure!(sw >= n as u64 || n == 0, "harness: the threads made no steps");
    Ok(())
}
