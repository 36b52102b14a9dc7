//! Runs one harness natively on one assignment of its inputs, against the real crate.
//! Usage: replay ENTRY PARAMS(comma separated or -) ID=VALUE...
//! Exit 0: all checks held; 1: a check failed; 3: an assumption does not hold; 101: panic.
#[path = "../../harness/src/all/mod.rs"]
#[allow(dead_code)]
mod all;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static IN: RefCell<(Vec<u32>, HashMap<u32, u32>)> = RefCell::new(Default::default());
}
#[no_mangle]
extern "C" fn lsx_u32(id: u32, lo: u32, hi: u32) -> u32 {
    let v = IN.with(|i| i.borrow().1.get(&id).copied()).unwrap_or(lo);
    if v < lo || v > hi { println!("ASSUME input {id} = {v} outside {lo}..={hi}"); std::process::exit(3) }
    v
}
#[no_mangle]
extern "C" fn lsx_assume(b: bool) { if !b { println!("ASSUME failed"); std::process::exit(3) } }
#[no_mangle]
extern "C" fn lsx_check(b: bool, code: u32) { if !b { println!("CHECK {code} failed"); std::process::exit(1) } }
#[no_mangle]
extern "C" fn lsx_cover(code: u32) { println!("COVER {code}") }
#[no_mangle]
extern "C" fn lsx_split(v: u32) -> u32 { v }
#[no_mangle]
extern "C" fn lsx_root(v: u32) -> u32 { v }
#[no_mangle]
extern "C" fn lsx_root64(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn lsx_where(_: bool) {}
#[no_mangle]
extern "C" fn lsx_join(v: u32) -> u32 { v }
#[no_mangle]
extern "C" fn lsx_param(i: u32) -> u32 { IN.with(|x| x.borrow().0.get(i as usize).copied()).unwrap_or(0) }
#[no_mangle]
extern "C" fn lsx_log(v: u64) { println!("LOG {v}") }

static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static OTHERS: std::sync::Mutex<Vec<std::thread::JoinHandle<()>>> = std::sync::Mutex::new(Vec::new());
#[no_mangle]
extern "C" fn lsx_watch(_: bool) -> u32 { 1 }
#[no_mangle]
extern "C" fn lsx_points(_: bool) -> u32 { 64 }
#[no_mangle]
extern "C" fn lsx_preempt(_: u32) {
    for _ in 0..3 { OTHERS.lock().unwrap().push(std::thread::spawn(|| while !STOP.load(std::sync::atomic::Ordering::Relaxed) { (all::ENTRIES.iter().find(|e| e.0 == "h_c27_other").unwrap().1)() })); }
}
#[no_mangle]
extern "C" fn lsx_done() {
    STOP.store(true, std::sync::atomic::Ordering::Relaxed);
    for t in OTHERS.lock().unwrap().drain(..) { if t.join().is_err() { println!("PANIC in another thread"); std::process::exit(101) } }
}
#[no_mangle]
extern "C" fn lsx_again() -> bool { std::thread_local! { static T: std::time::Instant = std::time::Instant::now(); } T.with(|t| t.elapsed().as_secs() < 10) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = if a[2] == "-" { vec![] } else { a[2].split(',').map(|x| x.parse().unwrap()).collect() };
    let m = a[3..].iter().map(|x| { let (k, v) = x.split_once('=').unwrap(); (k.parse().unwrap(), v.parse().unwrap()) }).collect();
    IN.with(|i| *i.borrow_mut() = (p, m));
    let f = all::ENTRIES.iter().chain(all::MORE).find(|e| e.0 == a[1]).expect("no such entry").1;
    f();
    println!("OK");
}
