//! Crash points and faults of the operating system.
use super::files::hash_check;
use super::*;
use crate::fsck;
use crate::gen;
use crate::iomon::{self, Call, Fault};
use crate::{ensure, fail};
use siamesedb::filedb::{FileBufSizeParam as B, FileDbParams};

extern "C" {
    fn fork() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
}

/// What a process that starts after this moment finds: a copy of the files is
/// opened and compared with the model.
fn survives(cx: &mut Cx, dir: &Path, name: &str, kt: Kt, model: &Model, uni: &[Vec<u8>], full: bool, what: &str) -> R {
    let copy = cx.dir.join("copy");
    rm_dir(&copy);
    if full {
        copy_dir(dir, &copy);
        {
            let db = open_db(&copy)?;
            let mut map = open(&db, kt, name, None)?;
            verify_all(cx, &mut *map, model, uni, what)?;
        }
        rm_dir(&copy);
        cx.st.add("images_reopened", 1);
    }
    let d = fsck::read(dir, name)?;
    d.same_as(model, what)?;
    d.tree().map_err(|Fail(m)| Fail(format!("{what}: {m}")))?;
    hash_check(kt, &d, what)?;
    cx.st.add("images_read", 1);
    Ok(())
}

/// the ways to make everything written
const WAYS: usize = 5;
fn make_durable(way: usize, db: &FileDb, map: &mut dyn Map) -> std::io::Result<()> {
    match way {
        0 => map.flush(),
        1 => map.sync_all(),
        2 => map.sync_data(),
        3 => db.sync_all(),
        _ => db.sync_data(),
    }
}
const WAY_NAMES: [&str; WAYS] = ["flush", "sync_all", "sync_data", "sync_all of the database", "sync_data of the database"];

struct Other {
    kt: Kt,
    name: String,
    map: Box<dyn Map>,
    model: Model,
    uni: Vec<Vec<u8>>,
}

/// After a flush or a sync the death of the process loses nothing; a map that
/// says it is not dirty has nothing to lose.
pub fn c04(cx: &mut Cx) -> R {
    if cx.idx % 320 == 300 {
        return super::many::saves(cx, false);
    }
    if cx.idx % 160 == 60 {
        return super::many::unsaved(cx);
    }
    if cx.idx % 8 == 7 {
        return c04_kill(cx);
    }
    let s = case_script(cx, [40, 35, 20, 5, 0]);
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 20))?;
    let mut model = Model::new();
    let mut others: Vec<Other> = Vec::new();
    if rng.chance(50) {
        for i in 0..1 + rng.below(2) {
            let kt = KTS[rng.below(3)];
            let name = format!("other{i}");
            let map = open(&db, kt, &name, None)?;
            others.push(Other { kt, name, map, model: Model::new(), uni: gen::universe(kt, gen::Uni::Seq, 70, &mut rng) });
        }
    }
    // a new map is there at once
    if rng.chance(30) {
        survives(cx, &dir, "m", s.kt, &model, &s.uni, true, "a new map after the death of the process")?;
    }
    let cuts = 3 + rng.below(8);
    let mut at = 0;
    for c in 0..cuts {
        let to = match rng.below(4) {
            // single operations matter: the first one, one overwrite, one delete
            0 | 1 => (at + rng.below(3)).min(s.ops.len()),
            _ if c + 1 == cuts => s.ops.len(),
            _ => at + rng.below((s.ops.len() - at) / 2 + 1),
        };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if rng.chance(25) && !model.is_empty() {
            // nothing but overwrites, through another handle
            let mut h = map.dup();
            io(WAY_NAMES[1], map.sync_all())?;
            for _ in 0..1 + rng.below(3) {
                let ks: Vec<Vec<u8>> = model.keys().cloned().collect();
                let k = rng.pick(&ks).clone();
                let len = model[&k].len();
                let v = if rng.chance(50) { gen::value(gen::Val::Fixed(len), rng.next(), &mut rng) } else { gen::value(gen::Val::Class, rng.next(), &mut rng) };
                io("put", h.put(&k, &v, 0))?;
                model.insert(k, v);
            }
            cx.st.add("only_overwrites", 1);
        }
        for o in others.iter_mut() {
            for _ in 0..rng.below(20) {
                let k = rng.pick(&o.uni).clone();
                if rng.chance(75) {
                    let v = gen::value(gen::Val::Class, rng.next(), &mut rng);
                    io("put", o.map.put(&k, &v, 0))?;
                    o.model.insert(k, v);
                } else {
                    io("delete", o.map.del(&k, 0))?;
                    o.model.remove(&k);
                }
            }
        }
        if !map.is_dirty() {
            survives(cx, &dir, "m", s.kt, &model, &s.uni, false, "the death of the process while is_dirty() is false")?;
            cx.st.add("clean_moments", 1);
        }
        let way = rng.below(WAYS);
        let whole = way >= 3;
        if way == 2 && rng.chance(30) {
            let mut h = map.dup();
            io("sync_data through another handle", h.sync_data())?;
        } else {
            io(WAY_NAMES[way], make_durable(way, &db, &mut *map))?;
        }
        cx.st.add(&format!("after_{}", WAY_NAMES[way].replace(' ', "_")), 1);
        ensure!(!map.is_dirty(), "is_dirty() is true after {}", WAY_NAMES[way]);
        let what = format!("the death of the process after {} after {at} operations", WAY_NAMES[way]);
        let full = model.len() < 700 || rng.chance(25);
        survives(cx, &dir, "m", s.kt, &model, &s.uni, full, &what)?;
        for o in others.iter_mut() {
            if whole || !o.map.is_dirty() {
                let d = fsck::read_opt(&dir, &o.name, false)?;
                d.same_as(&o.model, &format!("map {}: {what}", o.name))?;
                let _ = o.kt;
                cx.st.add("images_read", 1);
            }
        }
        if rng.chance(12) {
            // an idle one: nothing changed since
            io(WAY_NAMES[way], make_durable(way, &db, &mut *map))?;
            survives(cx, &dir, "m", s.kt, &model, &s.uni, false, &what)?;
        }
    }
    Ok(())
}

/// The same with a real process and a real SIGKILL.
fn c04_kill(cx: &mut Cx) -> R {
    let s = case_script(cx, [40, 40, 20, 0, 0]);
    let mut rng = cx.rng.clone();
    let to = rng.below(s.ops.len() + 1);
    let way = rng.below(WAYS);
    let dir = cx.dir.join("killed");
    let p = gen::maybe_params(&mut rng, 20);
    cx.note(&format!("killed after {to} operations and {}", WAY_NAMES[way]));
    let pid = unsafe { fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        let mut model = Model::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> R {
            let db = open_db(&dir)?;
            let mut map = open(&db, s.kt, "m", p)?;
            play_range(cx, &mut *map, &mut model, &s, 0, to)?;
            io(WAY_NAMES[way], make_durable(way, &db, &mut *map))?;
            std::fs::write(cx.dir.join("done"), b"1").expect("harness: write");
            unsafe { kill(getpid(), 9) };
            Ok(())
        }));
        if let Ok(Err(Fail(m))) = r {
            let _ = std::fs::write(cx.dir.join("failed"), m);
        }
        unsafe { kill(getpid(), 9) };
    }
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 0) };
    assert!(r == pid, "harness: waitpid");
    if let Ok(m) = std::fs::read_to_string(cx.dir.join("failed")) {
        fail!("in the process to be killed: {m}");
    }
    ensure!(cx.dir.join("done").exists(), "the process to be killed died on its own (status {st:#x})");
    cx.st.add("processes_killed", 1);
    let mut model = Model::new();
    {
        let db = siamesedb::open_memory();
        let mut mem = open_mem(&db, s.kt, "m");
        play_range(cx, &mut *mem, &mut model, &s, 0, to)?;
    }
    survives(cx, &dir, "m", s.kt, &model, &s.uni, true, "after SIGKILL")
}

/// every file of the map was given to the disk after its last change
pub fn all_synced(cx: &mut Cx, name: &str, what: &str) -> R {
    let files = iomon::with(|m| m.files.clone());
    for e in super::basic::EXTS {
        let f = format!("/{name}.{e}");
        if let Some(st) = files.get(&f) {
            ensure!(
                st.last_sync >= st.last_mod,
                "{what} returned, but the last of {} writes to {name}.{e} was not followed by a successful fsync ({} before it)",
                st.writes,
                st.syncs
            );
            if st.last_mod > 0 {
                cx.st.add("written_files_checked", 1);
            }
        }
    }
    Ok(())
}

/// After a sync a power loss takes nothing back.
pub fn c05(cx: &mut Cx) -> R {
    if cx.idx % 640 == 300 {
        return super::many::saves(cx, true);
    }
    let s = case_script(cx, [40, 38, 20, 2, 0]);
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    std::fs::create_dir_all(&dir).expect("harness: mkdir");
    iomon::start(&dir);
    let mut db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 30))?;
    let mut other = open(&db, KTS[rng.below(3)], "other", None)?;
    let mut model = Model::new();
    let cuts = 4 + rng.below(8);
    let mut at = 0;
    for c in 0..cuts {
        let to = match rng.below(4) {
            0 | 1 => (at + rng.below(3)).min(s.ops.len()),
            _ if c + 1 == cuts => s.ops.len(),
            _ => at + rng.below((s.ops.len() - at) / 2 + 1),
        };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        match rng.below(6) {
            // writes the changes without giving them to the disk
            0 | 1 => io("flush", map.flush())?,
            2 => {
                let k = s.uni[rng.below(s.uni.len())].clone();
                io("get", map.get(&k, 0))?;
            }
            3 => {
                let _ = map.iter(0).next();
            }
            4 => {
                let mut h = map.dup();
                io("flush", h.flush())?;
            }
            _ => {}
        }
        let way = 1 + rng.below(WAYS - 1);
        if way >= 3 {
            io("put", other.put(&[1, 2, 3, 4, 5, 6, 7, 8], &c.to_le_bytes(), 2))?;
            if rng.chance(30) {
                io("flush", other.flush())?;
            }
        }
        io(WAY_NAMES[way], make_durable(way, &db, &mut *map))?;
        cx.st.add(&format!("after_{}", WAY_NAMES[way].replace(' ', "_")), 1);
        let what = format!("{} after {at} operations", WAY_NAMES[way]);
        all_synced(cx, "m", &what)?;
        if way >= 3 {
            all_synced(cx, "other", &what)?;
        }
        // and what was given to the disk is everything
        let full = model.len() < 400 && rng.chance(30);
        survives(cx, &dir, "m", s.kt, &model, &s.uni, full, &format!("a power loss after {what}"))?;
        if rng.chance(20) {
            // a session that ends without a sync, and one that syncs later
            drop(map);
            drop(other);
            drop(db);
            db = open_db(&dir)?;
            map = open(&db, s.kt, "m", None)?;
            other = open(&db, other_kt(&dir)?, "other", None)?;
        }
    }
    let m = iomon::stop();
    for (k, n) in &m.calls {
        cx.st.add(&format!("calls_{k:?}"), *n);
    }
    Ok(())
}
fn other_kt(dir: &Path) -> R<Kt> {
    let d = fsck::read_opt(dir, "other", false)?;
    Ok(match &d.sig {
        b"string\0\0" => Kt::Str,
        b"uint64\0\0" => Kt::Int,
        _ => Kt::Bytes,
    })
}

fn full_buffers() -> FileDbParams {
    FileDbParams {
        val_buf_size: B::PerMille(1000),
        key_buf_size: B::PerMille(1000),
        idx_buf_size: B::PerMille(1000),
        htx_buf_size: B::PerMille(1000),
    }
}

/// Faults of the operating system are reported, not swallowed, and cost nothing once they are over.
pub fn c17(cx: &mut Cx) -> R {
    match cx.idx % 4 {
        0 => c17_short(cx),
        1 => c17_reads(cx),
        _ => c17_writes(cx),
    }
}

/// short transfers and interrupted calls
fn c17_short(cx: &mut Cx) -> R {
    let mut s = case_script(cx, [40, 45, 15, 0, 0]);
    // it loads the whole hash file
    s.ops.retain(|o| !matches!(o, Op::ReadFill));
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    std::fs::create_dir_all(&dir).expect("harness: mkdir");
    iomon::start(&dir);
    let short = *rng.pick(&[0usize, 64, 700, 5000, 60_000]);
    let eintr = *rng.pick(&[0u64, 2, 3, 7, 50]);
    s.ops.truncate(match short {
        64 => 250,
        700 => 900,
        _ => usize::MAX,
    });
    iomon::with(|m| {
        m.short = short;
        m.eintr = eintr;
    });
    cx.note(&format!("short={short} eintr={eintr}"));
    let mut model = Model::new();
    let sessions = 1 + rng.below(3);
    let mut at = 0;
    for c in 0..sessions {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 40))?;
        let to = if c + 1 == sessions { s.ops.len() } else { at + rng.below(s.ops.len() - at + 1) };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        io("sync_all", map.sync_all())?;
        verify_all(cx, &mut *map, &model, &s.uni, "with short and interrupted transfers")?;
    }
    let m = iomon::stop();
    cx.st.add("short_transfers", m.shorts);
    cx.st.add("interrupted_calls", m.interrupts);
    survives(cx, &dir, "m", s.kt, &model, &s.uni, true, "written with short and interrupted transfers")
}

/// failing reads
fn c17_reads(cx: &mut Cx) -> R {
    let s = case_script(cx, [10, 50, 40, 0, 0]);
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let mut model = Model::new();
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", None)?;
        let to = s.ops.len() / 2 + rng.below(s.ops.len() / 2 + 1);
        play_range(cx, &mut *map, &mut model, &s, 0, to)?;
    }
    for _ in 0..12 {
        let p = FileDbParams {
            val_buf_size: B::Size(4096),
            key_buf_size: if rng.chance(50) { B::Size(4096) } else { B::PerMille(1000) },
            idx_buf_size: if rng.chance(50) { B::Size(4096) } else { B::PerMille(1000) },
            htx_buf_size: if rng.chance(50) { B::Size(4096) } else { B::PerMille(1000) },
        };
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", if rng.chance(70) { Some(p) } else { None })?;
        iomon::start(&dir);
        let at = rng.below(12) as u64;
        let times = *rng.pick(&[1u64, 1, 2, 5]);
        iomon::with(|m| m.faults = vec![Fault { call: Call::Read, at, times, errno: iomon::EIO }]);
        let mut loud = 0;
        for i in 0..60 {
            let k = s.uni[rng.below(s.uni.len())].clone();
            let fired = iomon::with(|m| m.fired);
            let r = catch(|| map.get(&k, i));
            let hit = iomon::with(|m| m.fired) > fired;
            match r {
                Ok(Ok(v)) => ensure!(
                    v.as_ref() == model.get(&k),
                    "get(\"{}\") with {} returned {} instead of {}",
                    esc(&k),
                    if hit { "a failing read" } else { "no fault" },
                    esc_opt(&v),
                    esc_opt(&model.get(&k).cloned())
                ),
                Ok(Err(e)) => {
                    ensure!(hit || loud > 0 && i < 60, "get(\"{}\") failed without any fault: {e}", esc(&k));
                    loud += 1;
                    cx.st.add("reads_reported", 1);
                }
                Err(m) => {
                    ensure!(hit, "get(\"{}\") panicked without any fault: {m}", esc(&k));
                    fail!("get(\"{}\") panicked on a failing read: {m}", esc(&k));
                }
            }
        }
        let m = iomon::stop();
        cx.st.add("reads_failed", m.fired);
        cx.st.add("reads_observed", *m.calls.get(&Call::Read).unwrap_or(&0));
        // the fault is over
        verify_all(cx, &mut *map, &model, &s.uni, "after failing reads")?;
    }
    let d = fsck::read(&dir, "m")?;
    d.same_as(&model, "after failing reads")
}

/// failing writes, syncs and truncations during flush and sync
fn c17_writes(cx: &mut Cx) -> R {
    // nodes that the cache holds go to a small buffer, so that writing one writes others first
    let wide = cx.idx % 16 == 6 && !cfg!(any(miri, vh_asan));
    let (s, filled) = if wide {
        let mut rng = cx.rng.clone();
        let kt = *rng.pick(&[Kt::Int, Kt::Bytes, Kt::Str]);
        let r = crate::drive::wide_script(kt, &mut rng);
        cx.note(&r.0.name);
        cx.rng.next();
        cx.digest = mix(cx.digest, rng.next());
        cx.st.add("wide_cases", 1);
        r
    } else {
        (case_script(cx, [35, 50, 15, 0, 0]), 0)
    };
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    std::fs::create_dir_all(&dir).expect("harness: mkdir");
    let db = open_db(&dir)?;
    let mut p = full_buffers();
    if wide {
        p.idx_buf_size = match rng.below(4) {
            0 => B::Size(0),
            1 => B::PerMille(300),
            _ => B::PerMille(0),
        };
    }
    let mut map = open(&db, s.kt, "m", Some(p))?;
    // other maps of the database, before and after this one in the order of a save
    let mut others: Vec<Other> = Vec::new();
    if !wide && rng.chance(50) {
        for name in ["a", "m", "z", "zz"] {
            let kt = *rng.pick(&[Kt::Int, Kt::Bytes, Kt::Str]);
            if name == "m" || rng.chance(30) {
                continue;
            }
            let uni = gen::universe(kt, gen::Uni::Seq, 12, &mut rng);
            let map = open(&db, kt, name, Some(full_buffers()))?;
            others.push(Other { kt, name: name.to_string(), map, model: Model::new(), uni });
        }
        cx.st.add("maps_beside", others.len() as u64);
    }
    let mut model = Model::new();
    let cuts = if wide { 20 } else { 5 + rng.below(8) };
    let mut at = 0;
    if wide {
        play_range(cx, &mut *map, &mut model, &s, 0, filled)?;
        at = filled;
        io("flush", map.flush())?;
    }
    let mut probe = 6u64;
    for c in 0..cuts {
        let to = if rng.chance(30) {
            (at + 1 + rng.below(3)).min(s.ops.len())
        } else if c + 1 == cuts {
            s.ops.len()
        } else if wide {
            (at + 1 + rng.below(30)).min(s.ops.len())
        } else {
            at + rng.below((s.ops.len() - at) / 2 + 1)
        };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        let mut clean = false;
        for round in 0..4 {
            if clean {
                break;
            }
            let call = *rng.pick(&[Call::Write, Call::Write, Call::Sync]);
            let errno = *rng.pick(&[iomon::EIO, iomon::ENOSPC]);
            let times = *rng.pick(&[1u64, 1, 3, 1000]);
            let few = rng.chance(50);
            let nth = rng.below(if few { 4 } else { probe as usize }) as u64;
            let way = if !others.is_empty() && rng.chance(60) { 3 + rng.below(2) } else { rng.below(WAYS) };
            for o in others.iter_mut() {
                // some of them have nothing to save
                for j in 0..rng.below(4) {
                    let k = rng.pick(&o.uni).clone();
                    if rng.chance(70) {
                        let v = gen::value(gen::Val::Mixed, rng.next(), &mut rng);
                        io("put", o.map.put(&k, &v, j))?;
                        o.model.insert(k, v);
                    } else {
                        let got = io("delete", o.map.del(&k, j))?;
                        ensure!(got == o.model.remove(&k), "delete(\"{}\") of {} returned {}", esc(&k), o.name, esc_opt(&got));
                    }
                }
            }
            let last = round == 3;
            iomon::start(&dir);
            if !last {
                iomon::with(|m| m.faults = vec![Fault { call, at: nth, times, errno }]);
            }
            let r = catch(|| make_durable(way, &db, &mut *map));
            let m = iomon::stop();
            probe = probe.max(*m.calls.get(&Call::Write).unwrap_or(&0)).min(40);
            let what = WAY_NAMES[way];
            match r {
                Ok(Ok(())) => {
                    ensure!(m.fired == 0, "{what} returned Ok although {:?} call {nth} failed with errno {errno}", call);
                    survives(cx, &dir, "m", s.kt, &model, &s.uni, false, &format!("after {what}, which returned Ok"))?;
                    cx.st.add("ok_checked", 1);
                    if way >= 3 {
                        for o in &others {
                            survives(cx, &dir, &o.name, o.kt, &o.model, &o.uni, false, &format!("{} after {what}, which returned Ok", o.name))?;
                            ensure!(!o.map.is_dirty(), "{} is dirty after {what}, which returned Ok", o.name);
                            cx.st.add("ok_checked_beside", 1);
                        }
                    }
                    if rng.chance(60) {
                        clean = true;
                    }
                    if way >= 1 {
                        let late: Vec<&String> = m.files.iter().filter(|(_, f)| f.last_mod > f.last_sync).map(|(n, _)| n).collect();
                        ensure!(late.is_empty(), "{what} returned Ok, but {late:?} were written and not synced");
                    }
                }
                Ok(Err(e)) => {
                    ensure!(m.fired > 0, "{what} failed without any fault: {e}");
                    cx.st.add("faults_reported", 1);
                    cx.st.add(&format!("reported_{:?}", call), 1);
                    cx.st.shapes.insert(mix(call as u64 * 1000 + way as u64, nth * 8 + (errno == iomon::EIO) as u64));
                }
                Err(e) => fail!("{what} panicked when {:?} call {nth} failed with errno {errno}: {e}", call),
            }
            if !map.is_dirty() {
                survives(cx, &dir, "m", s.kt, &model, &s.uni, false, "is_dirty() is false after a fault")?;
            }
            for o in others.iter_mut() {
                if !o.map.is_dirty() {
                    survives(cx, &dir, &o.name, o.kt, &o.model, &o.uni, false, "is_dirty() is false after a fault")?;
                }
                for (j, k) in o.uni.iter().enumerate() {
                    let got = io("get after a fault", o.map.get(k, j))?;
                    ensure!(got.as_ref() == o.model.get(k), "after a {what} with a fault get(\"{}\") of {} returned {}", esc(k), o.name, esc_opt(&got));
                }
            }
            // the answers are the same as ever
            let st = rng.below(s.uni.len());
            for j in 0..s.uni.len().min(40) {
                let k = &s.uni[(st + j) % s.uni.len()];
                let got = io("get after a fault", map.get(k, j))?;
                ensure!(got.as_ref() == model.get(k), "after a failed {what} get(\"{}\") returned {} instead of {}", esc(k), esc_opt(&got), esc_opt(&model.get(k).cloned()));
            }
            if rng.chance(25) {
                let mode = rng.below(5);
                verify_iter(cx, &mut *map, &model, mode, &format!("after a failed {what}"))?;
            }
            if rng.chance(30) {
                // work goes on between the fault and the retry
                let to = (at + rng.below(20)).min(s.ops.len());
                let no_sync = s.ops[at..to].iter().all(|o| !matches!(o, Op::Flush | Op::SyncAll | Op::SyncData));
                if no_sync {
                    play_range(cx, &mut *map, &mut model, &s, at, to)?;
                    at = to;
                }
            }
        }
    }
    drop(map);
    drop(db);
    for mut o in others {
        drop(o.map);
        let d = fsck::read(&dir, &o.name)?;
        d.same_as(&o.model, "after faults which are over")?;
        o.uni.clear();
    }
    survives(cx, &dir, "m", s.kt, &model, &s.uni, true, "after faults which are over")
}
