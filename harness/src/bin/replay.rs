//! Runs one harness entry natively over a recorded assignment.
//! usage: replay ENTRY PARAM HEX(arg) HEX(input)
//! exit: 0 the property held, 3 it did not (message on stdout), 4 the recorded
//! assignment does not satisfy the harness' assumptions or is too short.

use std::cell::RefCell;
use std::panic;

thread_local! {
    static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
}
thread_local! {
    static TEXT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static MASK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };

}
static BATCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Fail(String);
struct Discard;

#[no_mangle]
pub extern "C-unwind" fn sym_set(bitmap: *const u8) -> u8 {
    let v = IN.with(|x| {
        let mut x = x.borrow_mut();
        let i = x.1;
        x.1 += 1;
        x.0.get(i).copied()
    });
    match v {
        Some(v) if unsafe { *bitmap.add(v as usize / 8) } >> (v % 8) & 1 != 0 => v,
        _ => panic::panic_any(Discard),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        panic::panic_any(Discard)
    }
}
#[no_mangle]
pub extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn sym_fail(p: *const u8, n: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    panic::panic_any(Fail(String::from_utf8_lossy(s).into_owned()))
}
#[no_mangle]
pub extern "C" fn sym_reach(k: u32) {
    MASK.with(|m| m.set(m.get() | 1 << (k % 64)));
    if !BATCH.load(std::sync::atomic::Ordering::Relaxed) {
        println!("reach {k}");
    }
}
#[no_mangle]
pub extern "C" fn sym_note(p: *const u8, n: usize) {
    TEXT.with(|t| *t.borrow_mut() = unsafe { std::slice::from_raw_parts(p, n) }.to_vec());
}
#[no_mangle]
pub extern "C" fn sym_steps() -> u64 {
    0
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn entry(n: &str) -> Option<extern "C-unwind" fn(*const u8, usize, u64)> {
    yharness::ENTRIES.iter().find(|e| e.0 == n).map(|e| e.1)
}

/// FILE: lines of ENTRY PARAM HEX(arg) HEX(input); prints one verdict and the
/// mask of reached ids per line
fn batch(file: &str) {
    BATCH.store(true, std::sync::atomic::Ordering::Relaxed);
    panic::set_hook(Box::new(|_| {}));
    for l in std::fs::read_to_string(file).unwrap().lines() {
        let a: Vec<&str> = l.split('\t').collect();
        let (f, arg) = (entry(a[0]).unwrap(), unhex(a[2]));
        let param: u64 = a[1].parse().unwrap();
        IN.with(|x| *x.borrow_mut() = (unhex(a[3]), 0));
        MASK.with(|m| m.set(0));
        let v = match panic::catch_unwind(|| f(arg.as_ptr(), arg.len(), param)) {
            Ok(()) => "held",
            Err(e) if e.is::<Discard>() => "discard",
            Err(e) if e.is::<Fail>() => "fail",
            Err(_) => "panic",
        };
        println!("{v} {}", MASK.with(|m| m.get()));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "-b" {
        return batch(&a[2]);
    }
    let show = a[1] == "-t";
    let a = if show { a[1..].to_vec() } else { a };
    let param: u64 = a[2].parse().unwrap();
    let arg = unhex(&a[3]);
    IN.with(|x| *x.borrow_mut() = (unhex(&a[4]), 0));
    let f = match entry(&a[1]) {
        Some(e) => e,
        None => {
            eprintln!("replay: no entry {}", a[1]);
            std::process::exit(5)
        }
    };
    if show {
        BATCH.store(true, std::sync::atomic::Ordering::Relaxed);
        // the text alone; a watchdog ends what does not terminate
        use std::io::Write;
        panic::set_hook(Box::new(|_| {}));
        let t = std::thread::spawn(move || {
            IN.with(|x| *x.borrow_mut() = (unhex(&a[4]), 0));
            let _ = panic::catch_unwind(|| f(arg.as_ptr(), arg.len(), param));
            TEXT.with(|t| t.borrow().clone())
        });
        let t0 = std::time::Instant::now();
        while !t.is_finished() && t0.elapsed().as_secs() < 5 {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        if t.is_finished() {
            std::io::stdout().write_all(&t.join().unwrap()).unwrap();
        }
        return;
    }
    panic::set_hook(Box::new(|i| {
        if i.payload().is::<Fail>() || i.payload().is::<Discard>() {
            return;
        }
        println!("panic: {i}");
    }));
    match panic::catch_unwind(|| f(arg.as_ptr(), arg.len(), param)) {
        Ok(()) => {
            println!("held");
        }
        Err(e) => {
            if e.is::<Discard>() {
                println!("discard");
                std::process::exit(4)
            }
            if let Some(f) = e.downcast_ref::<Fail>() {
                println!("fail: {}", f.0);
            }
            std::process::exit(3)
        }
    }
}
