//! Runs harnesses natively on given inputs.
//! stdin: one case per line, `ENTRY v0 v1 ...`; stdout: one result per line
//! `STATUS|obs=val;...|failed assertion ids;...|panic message`
//! STATUS: ok, assume (an assumption does not hold), fail, panic, input.

use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};

#[derive(Default)]
struct Ctx {
    inputs: Vec<i128>,
    pos: usize,
    obs: Vec<(String, i64)>,
    failed: Vec<String>,
    covers: Vec<String>,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

struct Assume;
struct BadInput;

fn name(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}
fn next() -> i128 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.pos;
        c.pos += 1;
        match c.inputs.get(i) {
            Some(v) => *v,
            None => {
                drop(c);
                std::panic::resume_unwind(Box::new(BadInput))
            }
        }
    })
}
#[no_mangle]
extern "C-unwind" fn vf_int(lo: i64, hi: i64) -> i64 {
    if lo > hi {
        std::panic::resume_unwind(Box::new(Assume));
    }
    let v = next();
    if v < lo as i128 || v > hi as i128 {
        std::panic::resume_unwind(Box::new(BadInput));
    }
    v as i64
}
#[no_mangle]
extern "C-unwind" fn vf_choice(n: u32) -> u32 {
    let v = next();
    if v < 0 || v >= n as i128 {
        std::panic::resume_unwind(Box::new(BadInput));
    }
    v as u32
}
#[no_mangle]
extern "C-unwind" fn vf_assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
#[no_mangle]
extern "C-unwind" fn vf_assert(b: bool, p: *const u8, n: usize) {
    if !b {
        CTX.with(|c| c.borrow_mut().failed.push(name(p, n)));
    }
}
#[no_mangle]
extern "C-unwind" fn vf_cover(p: *const u8, n: usize) {
    CTX.with(|c| c.borrow_mut().covers.push(name(p, n)));
}
#[no_mangle]
extern "C-unwind" fn vf_obs(p: *const u8, n: usize, v: i64) {
    CTX.with(|c| c.borrow_mut().obs.push((name(p, n), v)));
}
#[no_mangle]
extern "C-unwind" fn vf_concrete(v: i64) -> i64 {
    v
}
#[no_mangle]
extern "C-unwind" fn vf_hint(_: i64) {}
#[no_mangle]
extern "C-unwind" fn vf_div(v: i64, k: i64) -> i64 {
    v.div_euclid(k)
}

extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(f: i32, p: *mut u8, n: usize) -> isize;
    fn write(f: i32, p: *const u8, n: usize) -> isize;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// In the process of an isolated run: where its result goes; in the other: where it comes from, and its process.
static mut ALONE: (bool, i32, i32) = (false, -1, 0);
#[no_mangle]
extern "C-unwind" fn vf_alone_begin() -> bool {
    unsafe {
        let mut p = [0; 2];
        assert!(pipe(p.as_mut_ptr()) == 0);
        let k = fork();
        assert!(k >= 0);
        let child = k == 0;
        ALONE = (child, p[child as usize], k);
        close(p[1 - child as usize]);
        child
    }
}
#[no_mangle]
extern "C-unwind" fn vf_alone_end(p: *mut i64, n: usize) {
    unsafe {
        let (child, f, k) = ALONE;
        if child {
            write(f, p as *const u8, 8 * n);
            _exit(0);
        }
        let got = read(f, p as *mut u8, 8 * n);
        close(f);
        let mut s = 0;
        waitpid(k, &mut s, 0);
        if got != 8 * n as isize {
            panic!("panic in an isolated run");
        }
    }
}

fn main() {
    let all: HashMap<&str, fn()> = vh::all().into_iter().collect();
    if std::env::args().nth(1).as_deref() == Some("--list") {
        let mut n: Vec<_> = all.keys().collect();
        n.sort();
        for k in n {
            println!("{}", k);
        }
        return;
    }
    let verbose = std::env::var("VF_PANIC").is_ok();
    thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
    std::panic::set_hook(Box::new(move |i| {
        let s = i.to_string().replace('\n', " ").replace('|', "/");
        if verbose {
            eprintln!("{}", s);
        }
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(e) = it.next() else { continue };
        let inputs: Vec<i128> = it.map(|x| x.parse().unwrap()).collect();
        let Some(&f) = all.get(e) else {
            writeln!(out, "nosuch|||").unwrap();
            continue;
        };
        // a fresh thread per case: the library keeps thread-local caches
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                CTX.with(|c| *c.borrow_mut() = Ctx { inputs, ..Ctx::default() });
                let r = std::panic::catch_unwind(f);
                if unsafe { ALONE.0 } {
                    unsafe { _exit(101) }
                }
                let (status, msg) = match r {
                    Ok(()) => ("ok", String::new()),
                    Err(p) => {
                        if p.is::<Assume>() {
                            ("assume", String::new())
                        } else if p.is::<BadInput>() {
                            ("input", String::new())
                        } else {
                            ("panic", MSG.with(|m| m.borrow().clone()))
                        }
                    }
                };
                CTX.with(|c| {
                    let c = c.borrow();
                    // a case found at a failed assertion has no inputs for what follows
                    let status = if status != "panic" && !c.failed.is_empty() { "fail" } else { status };
                    let unused = if status == "ok" && c.pos != c.inputs.len() { "input" } else { status };
                    format!(
                        "{}|{}|{}|{}",
                        unused,
                        c.obs.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(";"),
                        c.failed.join(";"),
                        msg
                    )
                })
            })
            .unwrap();
        let s = h.join().unwrap_or_else(|_| "crash|||".into());
        writeln!(out, "{}", s).unwrap();
        out.flush().unwrap();
    }
}
