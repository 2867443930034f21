//! Replay and search over the real crate. `rsearch --prop C05 --seed 1 --ms 8000
//! --out stats.json --replay-dir DIR` runs random cases against a brute-force
//! oracle; `rsearch --replay FILE` (or --prop/--seed/--case) runs one case again.
#![allow(dead_code, unused_imports, unused_variables)]
mod alg;
mod gen;
mod trees;
use gen::*;
use rstar::RTreeParams;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use trees::*;

const TREE: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C21"];
fn tree_case<G: Geo, PM: RTreeParams>(prop: &str, cx: &mut Cx) -> Res {
    cx.note(format!("object {}, MAX_SIZE {}, MIN_SIZE {}, REINSERTION_COUNT {}", G::NAME, PM::MAX_SIZE, PM::MIN_SIZE, PM::REINSERTION_COUNT));
    match prop {
        #[cfg(feature = "C01")] "C01" => c01::<G, PM>(cx), #[cfg(feature = "C02")] "C02" => c02::<G, PM>(cx), #[cfg(feature = "C03")] "C03" => c03::<G, PM>(cx), #[cfg(feature = "C04")] "C04" => c04::<G, PM>(cx),
        #[cfg(feature = "C05")] "C05" => c05::<G, PM>(cx), #[cfg(feature = "C06")] "C06" => c06::<G, PM>(cx), #[cfg(feature = "C07")] "C07" => c07::<G, PM>(cx), #[cfg(feature = "C08")] "C08" => c08::<G, PM>(cx),
        #[cfg(feature = "C09")] "C09" => c09::<G, PM>(cx), #[cfg(feature = "C10")] "C10" => c10::<G, PM>(cx), #[cfg(feature = "C11")] "C11" => c11::<G, PM>(cx), #[cfg(feature = "C12")] "C12" => c12::<G, PM>(cx),
        #[cfg(feature = "C13")] "C13" => c13::<G, PM>(cx), #[cfg(feature = "C14")] "C14" => c14::<G, PM>(cx), #[cfg(feature = "C21")] "C21" => c21::<G, PM>(cx),
        _ => { eprintln!("rsearch was built without {}", prop); std::process::exit(3) }
    }
}
/// (object, parameters) pairs; their number
const PAIRS: usize = 15;
fn tree_pair(prop: &str, which: usize, cx: &mut Cx) -> Res {
    match which {
        0 => tree_case::<P2i, rstar::DefaultParams>(prop, cx),
        1 => tree_case::<P2s, Pm<4, 1, 0>>(prop, cx),
        2 => tree_case::<P3, Pm<4, 2, 1>>(prop, cx),
        3 => tree_case::<R2i, rstar::DefaultParams>(prop, cx),
        4 => tree_case::<R2, Pm<5, 3, 1>>(prop, cx),
        5 => tree_case::<T2, Pm<10, 5, 4>>(prop, cx),
        6 => tree_case::<T3, Pm<4, 2, 0>>(prop, cx),
        7 => tree_case::<C2, Pm<7, 2, 3>>(prop, cx),
        8 => tree_case::<Pt2, Pm<16, 8, 0>>(prop, cx),
        9 => tree_case::<G4, Pm<9, 5, 3>>(prop, cx),
        10 => tree_case::<P2f, Pm<4, 1, 2>>(prop, cx),
        11 => tree_case::<R2, Pm<50, 20, 10>>(prop, cx),
        12 => tree_case::<R3i, Pm<32, 10, 12>>(prop, cx),
        13 => tree_case::<R7, Pm<6, 3, 2>>(prop, cx),
        _ => { if cx.r.chance(1, 2) { cx.n *= 3; } tree_case::<P2i, Pm<100, 30, 25>>(prop, cx) }
    }
}
fn aabb_case(prop: &str, which: usize, cx: &mut Cx) -> Res {
    macro_rules! go { ($($k:literal => $t:ty),*) => { match which { $( #[cfg(feature = "C15")] $k if prop == "C15" => alg::c15::<$t>(cx), #[cfg(feature = "C16")] $k if prop == "C16" => alg::c16::<$t>(cx), )* _ => unreachable!() } } }
    go!(0 => [i64; 2], 1 => [f64; 2], 2 => [f64; 3], 3 => [i32; 2], 4 => (f64, f64), 5 => [i64; 3], 6 => [f32; 2], 7 => [i64; 4], 8 => [i64; 1], 9 => (f64, f64, f64), 10 => [f64; 5], 11 => mint::Point2<i64>, 12 => [f64; 7], 13 => [i64; 9], 14 => [f64; 10], 15 => (f64, f64, f64, f64, f64, f64))
}
#[cfg(feature = "C17")]
fn point_case(which: usize, cx: &mut Cx) -> Res {
    macro_rules! go { ($($k:literal => $t:ty, $d:literal;)*) => { match which { $( $k => alg::c17::<$t>(cx, $d), )* _ => unreachable!() } } }
    type F = f64; type I = i64; type S = f32;
    go!(0 => [F; 1], 1; 1 => [I; 2], 2; 2 => [F; 3], 3; 3 => [I; 4], 4; 4 => [F; 5], 5; 5 => [I; 6], 6; 6 => [S; 7], 7; 7 => [I; 8], 8; 8 => [F; 9], 9; 9 => [I; 10], 10;
        10 => [F; 12], 12; 11 => (I,), 1; 12 => (F, F), 2; 13 => (I, I, I), 3; 14 => (F, F, F, F), 4; 15 => (I, I, I, I, I), 5; 16 => (F, F, F, F, F, F), 6;
        17 => (I, I, I, I, I, I, I), 7; 18 => (F, F, F, F, F, F, F, F), 8; 19 => (I, I, I, I, I, I, I, I, I), 9; 20 => (F, F, F, F, F, F, F, F, F, F), 10;
        21 => mint::Point2<F>, 2; 22 => mint::Point2<I>, 2; 23 => mint::Point3<F>, 3; 24 => mint::Point3<I>, 3;
        25 => (S,), 1; 26 => (I, I), 2; 27 => (F, F, F), 3; 28 => (I, I, I, I), 4; 29 => (F, F, F, F, F), 5; 30 => (I, I, I, I, I, I), 6; 31 => (S, S, S, S, S, S, S), 7; 32 => [F; 16], 16; 33 => [I; 11], 11; 34 => [S; 33], 33;)
}
fn size_of_case(prop: &str, idx: u64, r: &mut Rng) -> usize {
    if idx >= 1000 {
        if let Some(h) = hint(r, 1, 4) {
            let h = h as usize;
            if h <= 400 || r.chance(1, if h <= 3000 { 12 } else { 80 }) && h <= 5000 {
                return match r.below(4) { 0 => h + r.below(h / 2 + 1), 1 => 2 * h + r.below(4), _ => (h + r.below(6)).saturating_sub(2) };
            }
        }
    }
    if prop == "C04" {
        // every length from 0 to 260, for every parameter set, then larger ones
        let k = idx / PAIRS as u64;
        if k < 260 { return k as usize; }
        return match r.below(40) { 0 => 2000 + r.below(4000), 1..=6 => 300 + r.below(1500), _ => r.below(600) };
    }
    if idx < 3000 { return r.below(14); }
    match r.below(100) { 0..=34 => r.below(14), 35..=69 => 5 + r.below(50), 70..=93 => 40 + r.below(160), 94..=98 => 150 + r.below(350), _ => 500 + r.below(800) }
}
fn run_case(prop: &str, seed: u64, idx: u64, own: &AtomicBool) -> (Result<(), String>, Vec<String>, bool, u64, u64) {
    let mut cx = Cx { r: Rng(mix(mix(seed, idx), prop[1..].parse::<u64>().unwrap())), n: 0, log: vec![], own, nontrivial: false, hash: idx % 32, evals: 0 };
    cx.n = size_of_case(prop, idx, &mut cx.r);
    own.store(true, Relaxed);
    STYLE.with(|s| s.set(mix(seed, idx ^ 0x5717)));
    let res = catch_unwind(AssertUnwindSafe(|| {
        match prop {
            #[cfg(feature = "C15")] "C15" => aabb_case(prop, (idx % 16) as usize, &mut cx),
            #[cfg(feature = "C16")] "C16" => aabb_case(prop, (idx % 16) as usize, &mut cx),
            #[cfg(feature = "C17")] "C17" => point_case((idx % 35) as usize, &mut cx),
            #[cfg(feature = "C18")] "C18" => alg::c18(&mut cx, idx as usize),
            #[cfg(feature = "C19")] "C19" => alg::c19(&mut cx, idx as usize),
            #[cfg(feature = "C20")] "C20" => alg::c20(&mut cx, idx as usize),
            p if TREE.contains(&p) => tree_pair(prop, (idx % PAIRS as u64) as usize, &mut cx),
            _ => { eprintln!("rsearch was built without {}", prop); std::process::exit(3) }
        }
    }));
    let res = match res {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            // a panic while the tree is only being built is another property's business
            if own.load(Relaxed) { Err(format!("panicked: {}", m)) } else { Ok(()) }
        }
    };
    (res, cx.log, cx.nontrivial, cx.hash, cx.evals.max(1))
}
struct Args { prop: String, seed: u64, ms: u64, case: Option<u64>, out: Option<String>, replay_dir: String, threads: usize }
fn hints(s: &str) { let _ = HINTS.set(s.split(',').filter_map(|x| x.trim().parse().ok()).collect()); }
fn main() {
    let mut a = Args { prop: String::new(), seed: 1, ms: 5000, case: None, out: None, replay_dir: ".".into(), threads: 8 };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--prop" => a.prop = x, "--hints" => hints(&x), "--seed" => a.seed = x.parse().unwrap(), "--ms" => a.ms = x.parse().unwrap(), "--case" => a.case = Some(x.parse().unwrap()),
            "--out" => a.out = Some(x), "--replay-dir" => a.replay_dir = x, "--threads" => a.threads = x.parse().unwrap(),
            "--replay" => {
                let t = std::fs::read_to_string(&x).expect("replay file");
                for l in t.lines() { if let Some((k, w)) = l.split_once('=') { match k.trim() { "prop" => a.prop = w.trim().into(), "hints" => hints(w.trim()), "seed" => a.seed = w.trim().parse().unwrap(), "case" => a.case = Some(w.trim().parse().unwrap()), _ => {} } } if l.starts_with("---") { break; } }
            }
            o => panic!("unknown argument {}", o),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(c) = a.case {
        let own = AtomicBool::new(true);
        let (tx, rx) = std::sync::mpsc::channel();
        let (p, s) = (a.prop.clone(), a.seed);
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let r = run_case(&p, s, c, &own); let _ = tx.send(r); }).unwrap();
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok((Ok(()), ..)) => { println!("case {} of {} holds", c, a.prop); std::process::exit(0) }
            Ok((Err(m), log, ..)) => { for l in &log { println!("  {}", l); } println!("VIOLATED {}: {}", a.prop, m); std::process::exit(1) }
            Err(_) => { println!("VIOLATED {}: the call does not return", a.prop); std::process::exit(1) }
        }
    }
    let start = Instant::now();
    let end = start + Duration::from_millis(a.ms);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, String, Vec<String>)>>> = Arc::new(Mutex::new(None));
    let stats = Arc::new(Mutex::new((0u64, std::collections::HashSet::<u64>::new(), Vec::<String>::new())));
    struct Slot { case: AtomicU64, since: AtomicU64, own: AtomicBool, done: AtomicBool }
    let slots: Arc<Vec<Slot>> = Arc::new((0..a.threads).map(|_| Slot { case: AtomicU64::new(u64::MAX), since: AtomicU64::new(0), own: AtomicBool::new(true), done: AtomicBool::new(false) }).collect());
    // the running cases are also kept on disk, so that an abort can be attributed
    let mark = format!("{}/running-{}", a.replay_dir, a.prop);
    let mfile = Arc::new(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&mark).unwrap());
    let finite = if a.prop == "C20" { Some(9) } else { None };
    let (cases, big) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    for k in 0..a.threads {
        let (prop, seed, threads) = (a.prop.clone(), a.seed, a.threads as u64);
        let (stop, found, stats, slots, mfile, cases, big) = (stop.clone(), found.clone(), stats.clone(), slots.clone(), mfile.clone(), cases.clone(), big.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut idx = k as u64;
            let (mut ev, mut set, mut samples) = (0u64, std::collections::HashSet::new(), vec![]);
            while !stop.load(Relaxed) && Instant::now() < end && finite.map_or(true, |f| idx < f) {
                let s = &slots[k];
                s.since.store(start.elapsed().as_millis() as u64, Relaxed);
                s.case.store(idx, Relaxed);
                { use std::os::unix::fs::FileExt; let _ = mfile.write_at(&idx.to_le_bytes(), 8 * k as u64); }
                let (res, log, nontrivial, hash, e) = run_case(&prop, seed, idx, &s.own);
                s.case.store(u64::MAX, Relaxed);
                if let Err(m) = res {
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map_or(true, |(i, ..)| idx < *i) { *f = Some((idx, m, log)); }
                    stop.store(true, Relaxed);
                    break;
                }
                ev += e; cases.fetch_add(1, Relaxed);
                if nontrivial && set.len() < 400_000 { set.insert(hash); }
                if !log.is_empty() && samples.len() < 1 && nontrivial { let mut t = log.join("; "); if t.len() > 600 { let mut c = 600; while !t.is_char_boundary(c) { c -= 1; } t.truncate(c); t.push_str(" ..."); } samples.push(format!("case {}: {}", idx, t)); }
                if log.iter().map(|l| l.len()).sum::<usize>() > 4000 { big.fetch_add(1, Relaxed); }
                idx += threads;
            }
            let mut g = stats.lock().unwrap();
            g.0 += ev; g.1.extend(set); g.2.extend(samples);
            slots[k].done.store(true, SeqCst);
        }).unwrap();
    }
    let mut hang = None;
    while !slots.iter().all(|s| s.done.load(SeqCst)) {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        for s in slots.iter() {
            let c = s.case.load(Relaxed);
            if c != u64::MAX && now.saturating_sub(s.since.load(Relaxed)) > 25_000 && s.case.load(Relaxed) == c {
                if s.own.load(Relaxed) { hang = Some(c); } else { s.done.store(true, SeqCst); }
            }
        }
        if hang.is_some() { break; }
    }
    let _ = std::fs::remove_file(&mark);
    let f = found.lock().unwrap().take();
    let g = stats.lock().unwrap();
    if let Some(o) = &a.out {
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
        let samples: Vec<String> = g.2.iter().take(6).map(|s| format!("\"{}\"", esc(s))).collect();
        std::fs::write(o, format!("{{\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"large_cases\":{},\"samples\":[{}]}}\n", cases.load(Relaxed), g.0, g.1.len(), big.load(Relaxed), samples.join(","))).unwrap();
    }
    let bad = f.or(hang.map(|c| (c, "the call does not return (25 s)".to_string(), vec![])));
    match bad {
        None => { println!("ok {} cases", cases.load(Relaxed)); std::process::exit(0) }
        Some((c, m, log)) => {
            let path = format!("{}/{}-case{}.txt", a.replay_dir, a.prop, c);
            std::fs::write(&path, format!("prop = {}\nseed = {}\nhints = {}\ncase = {}\nrun = native/target/release/rsearch --replay <this file>\n---\n{}\nVIOLATED {}: {}\n", a.prop, a.seed, HINTS.get().map_or(String::new(), |h| h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")), c, log.join("\n"), a.prop, m)).unwrap();
            println!("REPLAY {}", path);
            println!("{}: {}", a.prop, m);
            std::process::exit(1)
        }
    }
}
