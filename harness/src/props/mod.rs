//! The monitored scenarios, one function per property.
mod basic;
#[cfg(not(any(miri, vh_asan)))]
mod cost;
#[cfg(not(any(miri, vh_asan)))]
mod fault;
mod files;
pub mod golden;
#[cfg(not(any(miri, vh_asan)))]
mod many;
mod other;
#[cfg(not(miri))]
mod threads;

use crate::drive::*;
use crate::maps::*;
use crate::util::*;
use siamesedb::filedb::FileDb;
use std::path::Path;

pub fn count(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (840, 9000),
        "C02" => (1040, 12000),
        "C03" => (780, 9000),
        "C04" => (640, 8000),
        "C05" => (1280, 14000),
        "C06" => (3600, 40000),
        "C07" => (270, 3600),
        "C08" => (800, 9600),
        "C09" => (750, 9000),
        "C10" => (1600, 18000),
        "C11" => (700, 9000),
        "C12" => (520, 6000),
        "C13" => (6000, 70000),
        "C14" => (1600, 18000),
        "C15" => (780, 9000),
        "C16" => (640, 8000),
        "C17" => (400, 5000),
        "C18" => (800, 10000),
        "C19" => (1800, 20000),
        "C20" => (3000, 40000),
        "C21" => (3200, 36000),
        "C22" => (1800, 24000),
        "C23" => (60, 600),
        "C24" => (72, 900),
        "C25" => (900, 10000),
        "C26" => (420, 6000),
        p => panic!("harness: unknown property {p}"),
    };
    if thorough {
        t
    } else {
        q
    }
}

pub fn run(cx: &mut Cx) -> R {
    match cx.prop.clone().as_str() {
        "C01" => basic::c01(cx),
        "C02" => basic::c02(cx),
        "C03" => basic::c03(cx),
        #[cfg(not(any(miri, vh_asan)))]
        "C04" => fault::c04(cx),
        #[cfg(not(any(miri, vh_asan)))]
        "C05" => fault::c05(cx),
        "C06" => basic::c06(cx),
        "C07" => basic::c07(cx),
        "C08" => files::c08(cx),
        "C09" => files::c09(cx),
        "C10" => files::c10(cx),
        "C11" => files::c11(cx),
        "C12" => files::c12(cx),
        "C13" => other::c13(cx),
        "C14" => other::c14(cx),
        "C15" => other::c15(cx),
        "C16" => files::c16(cx),
        #[cfg(not(any(miri, vh_asan)))]
        "C17" => fault::c17(cx),
        "C18" => files::c18(cx),
        "C19" => files::c19(cx),
        "C20" => other::c20(cx),
        "C21" => other::c21(cx),
        #[cfg(not(any(miri, vh_asan)))]
        "C22" => other::c22(cx),
        "C23" => other::c23(cx),
        #[cfg(not(any(miri, vh_asan)))]
        "C24" => cost::c24(cx),
        "C25" => files::c25(cx),
        #[cfg(not(miri))]
        "C26" => threads::c26(cx),
        p => panic!("harness: unknown property {p}"),
    }
}

/// Key type and size of the case.
pub fn kt_size(cx: &mut Cx, w: [usize; 5]) -> (Kt, Size) {
    let kt = KTS[(cx.idx % 3) as usize];
    let total: usize = w.iter().sum();
    let mut x = cx.rng.below(total);
    for (i, s) in [Size::Tiny, Size::Node, Size::Two, Size::Mid, Size::Big].into_iter().enumerate() {
        if x < w[i] {
            // (an instrumented build is too slow for the largest)
            return (kt, if cfg!(vh_asan) && s == Size::Big { Size::Mid } else { s });
        }
        x -= w[i];
    }
    unreachable!()
}

pub fn case_script(cx: &mut Cx, w: [usize; 5]) -> Script {
    let (kt, size) = kt_size(cx, w);
    let mut rng = cx.rng.clone();
    let deep = cx.idx % 256 == 7 && !cfg!(any(miri, vh_asan)) && matches!(&*cx.prop, "C01" | "C02" | "C03" | "C09" | "C18" | "C16");
    let big = !cfg!(any(miri, vh_asan));
    let s = if deep {
        cx.st.add("deep_cases", 1);
        deep_script(kt, &mut rng)
    } else if big && cx.idx % 64 == 35 {
        cx.st.add("giant_cases", 1);
        giant_script(kt, &mut rng)
    } else if big && cx.idx % 256 == 133 && matches!(&*cx.prop, "C01" | "C02" | "C03" | "C09" | "C16" | "C18" | "C25") {
        cx.st.add("crowd_cases", 1);
        crowd_script(kt, &mut rng)
    } else {
        let raw = (cx.idx / 3) % 10 == 4 && kt != Kt::Bytes && !cfg!(miri);
        if raw {
            cx.st.add("raw_key_cases", 1);
        }
        random_script(kt, size, raw, &mut rng)
    };
    cx.rng.next();
    cx.digest = mix(cx.digest, rng.next());
    cx.note(&s.name);
    cx.st.add(&format!("cases_{}", kt_name(kt)), 1);
    s
}

pub fn open_db(dir: &Path) -> R<FileDb> {
    io("open_file", siamesedb::open_file(dir))
}

pub fn open(db: &FileDb, kt: Kt, name: &str, p: Option<siamesedb::filedb::FileDbParams>) -> R<Box<dyn Map>> {
    io("opening a map", open_map(db, kt, name, p))
}
