//! Runs cases against the real Dyon and reports what the monitors saw.
//!
//! Reads cases on stdin, writes one report per case to the original stdout.
//! A case is a list of host operations; see lib/wire.py.
mod conv;
mod host;
mod linkops;
mod val;

use dyon::{Module, Runtime, Variable};
use host::{en, es, event, log};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Arc;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn memfd_create(name: *const std::os::raw::c_char, flags: u32) -> i32;
}

struct Op {
    name: String,
    args: Vec<Vec<u8>>,
}

fn read_case(r: &mut impl BufRead) -> Option<Vec<Op>> {
    let mut ops = vec![];
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let mut it = line.split_whitespace();
        let name = it.next()?.to_string();
        let n: usize = it.next()?.parse().ok()?;
        if name == "end" {
            return Some(ops);
        }
        let mut args = vec![];
        for _ in 0..n {
            let mut l = String::new();
            r.read_line(&mut l).ok()?;
            let k: usize = l.trim().parse().ok()?;
            let mut b = vec![0; k + 1];
            r.read_exact(&mut b).ok()?;
            b.pop();
            args.push(b);
        }
        ops.push(Op { name, args });
    }
}

enum Slot {
    Open(Module),
    Shared(Arc<Module>),
}

#[derive(Default)]
struct World {
    mods: std::collections::HashMap<String, Slot>,
    rts: std::collections::HashMap<String, Runtime>,
    vals: Vec<Variable>,
}

impl World {
    fn share(&mut self, k: &str) -> Arc<Module> {
        let s = self.mods.remove(k).expect("harness: module");
        let a = match s {
            Slot::Open(m) => Arc::new(m),
            Slot::Shared(a) => a,
        };
        self.mods.insert(k.into(), Slot::Shared(a.clone()));
        a
    }
}

fn depths(rt: &Runtime) -> [f64; 4] {
    [
        rt.stack.len() as f64,
        rt.local_stack.len() as f64,
        rt.current_stack.len() as f64,
        rt.call_stack.len() as f64,
    ]
}

/// Asks LeakSanitizer for memory that nothing refers to any more.
#[cfg(asan)]
fn leaked() -> bool {
    extern "C" {
        fn __lsan_do_recoverable_leak_check() -> i32;
    }
    unsafe { __lsan_do_recoverable_leak_check() != 0 }
}
#[cfg(not(asan))]
fn leaked() -> bool {
    false
}

fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// What the host observes of one call: outcome and the change in depth.
fn finish(rt: &Runtime, before: [f64; 4], r: Result<Option<Variable>, String>, same: bool) {
    let after = depths(rt);
    let d: Vec<Vec<u8>> = (0..4).map(|i| en(after[i] - before[i])).collect();
    let mut parts = match r {
        Ok(None) => vec![es("ok"), es("")],
        Ok(Some(v)) => {
            let _ = host::monitor(rt, &[&v]);
            vec![es("ok"), val::enc(rt, &v)]
        }
        Err(e) => vec![es("err"), es(&e)],
    };
    parts.extend(d);
    parts.push(en(if same { 1.0 } else { 0.0 }));
    let mut l = host::LOG.lock().unwrap_or_else(|e| e.into_inner());
    l.push(event("end", &parts));
}

fn exec(w: &mut World, op: &Op, cap: i32) {
    let a = &op.args;
    match op.name.as_str() {
        "limit" => host::LIMIT.store(s(&a[0]).parse().unwrap(), Ordering::Relaxed),
        "quiet" => {
            let on = a[0] == b"1";
            host::QUIET.store(on, Ordering::Relaxed);
            if !on {
                let n = host::QUIET_SEEN.swap(0, Ordering::Relaxed);
                host::LOG.lock().unwrap_or_else(|e| e.into_inner()).push(event("quiet", &[en(n as f64)]));
            }
        }
        "scan" => host::SCAN_ON.store(a[0] == b"1", Ordering::Relaxed),
        "mod" => {
            let mut m = Module::new();
            host::install(&mut m);
            w.mods.insert(s(&a[0]), Slot::Open(m));
        }
        "modconv" => {
            // A module with the functions that convert values.
            let mut m = Module::new();
            host::install(&mut m);
            conv::install(&mut m);
            w.mods.insert(s(&a[0]), Slot::Open(m));
        }
        "conv" => {
            // What the host pushes and pops: conv rt module round|popas type value
            let m = w.share(&s(&a[1]));
            let rt = w.rts.get_mut(&s(&a[0])).expect("harness: rt");
            let v = val::Dec::new(&a[4]).val();
            let b = depths(rt);
            conv::run(&s(&a[2]), &s(&a[3]), rt, &m, &v);
            if depths(rt) != b {
                let _ = log(event("unbal", &[es("conv")]));
            }
        }
        "modempty" => {
            w.mods.insert(s(&a[0]), Slot::Open(Module::empty()));
        }
        "import" => {
            let src = w.share(&s(&a[1]));
            if let Some(Slot::Open(m)) = w.mods.get_mut(&s(&a[0])) {
                m.import(&src);
            }
        }
        "load" => {
            let r = match w.mods.get_mut(&s(&a[0])) {
                Some(Slot::Open(m)) => dyon::load_str(&s(&a[1]), Arc::new(s(&a[2])), m),
                _ => Err("harness: module closed".into()),
            };
            let ev = match r {
                Ok(()) => event("load", &[es("ok"), es("")]),
                Err(e) => event("load", &[es("err"), es(&e)]),
            };
            host::LOG.lock().unwrap_or_else(|e| e.into_inner()).push(ev);
        }
        "find" => {
            let m = w.share(&s(&a[0]));
            let r = match m.find_function(&Arc::new(s(&a[1])), 0) {
                dyon::FnIndex::None => "none",
                dyon::FnIndex::Loaded(_) => "loaded",
                _ => "external",
            };
            let _ = log(event("find", &[es(r)]));
        }
        "rt" => {
            w.rts.insert(s(&a[0]), Runtime::new());
        }
        "run" => {
            let m = w.share(&s(&a[1]));
            let rt = w.rts.get_mut(&s(&a[0])).expect("harness: rt");
            let b = depths(rt);
            let before = rt.module.clone();
            let r = rt.run(&m).map(|_| None);
            finish(rt, b, r, Arc::ptr_eq(&before, &rt.module));
        }
        "call" | "callret" => {
            let m = w.share(&s(&a[1]));
            let rt = w.rts.get_mut(&s(&a[0])).expect("harness: rt");
            let args: Vec<Variable> = a[3..].iter().map(|b| val::Dec::new(b).val()).collect();
            let b = depths(rt);
            let before = rt.module.clone();
            let r = if op.name == "call" {
                rt.call_str(&s(&a[2]), &args, &m).map(|_| None)
            } else {
                rt.call_str_ret(&s(&a[2]), &args, &m).map(Some)
            };
            finish(rt, b, r, Arc::ptr_eq(&before, &rt.module));
        }
        "par" => {
            // Calls of one module on several host threads, each with a runtime of its own.
            let m = w.share(&s(&a[0]));
            let mut i = 1;
            let mut hs = vec![];
            let start = Arc::new(std::sync::Barrier::new(a[1..].iter().filter(|b| *b == b"|").count()));
            while i < a.len() {
                i += 1;
                let name = s(&a[i]);
                i += 1;
                let mut args: Vec<Variable> = vec![];
                while i < a.len() && a[i] != b"|" {
                    args.push(val::Dec::new(&a[i]).val());
                    i += 1;
                }
                let (m, start) = (m.clone(), start.clone());
                hs.push(std::thread::spawn(move || {
                    let mut rt = Runtime::new();
                    start.wait();
                    let r = rt.call_str_ret(&name, &args, &m);
                    drop(args);
                    match r {
                        Ok(v) => (true, val::enc(&rt, &v)),
                        Err(e) => (false, es(&e)),
                    }
                }));
            }
            for h in hs {
                let ev = match h.join() {
                    Ok((true, v)) => event("pend", &[es("ok"), v]),
                    Ok((false, v)) => event("pend", &[es("err"), v]),
                    Err(_) => event("pend", &[es("panic"), es("")]),
                };
                host::LOG.lock().unwrap_or_else(|e| e.into_inner()).push(ev);
            }
        }
        "drop" => {
            w.mods.remove(&s(&a[0]));
            w.rts.remove(&s(&a[0]));
        }
        "keep" => w.vals.push(val::Dec::new(&a[0]).val()),
        "lk" => linkops::run(&val::Dec::new(&a[0]).val()),
        "chdir" => std::env::set_current_dir(s(&a[0])).expect("harness: chdir"),
        "out" => {
            let _ = std::io::stdout().flush();
            let n = unsafe { lseek(cap, 0, 1) };
            let mut b = vec![0u8; n.max(0) as usize];
            unsafe { lseek(cap, 0, 0) };
            let mut f = unsafe { std::fs::File::from_raw_fd(dup(cap)) };
            let _ = f.read_exact(&mut b);
            unsafe {
                ftruncate(cap, 0);
                lseek(cap, 0, 0);
            }
            let _ = log(event("out", &[es(&s(&b))]));
        }
        "leakcheck" => {}
        x => panic!("harness: unknown op {}", x),
    }
}

fn main() {
    let out_fd = unsafe { dup(1) };
    let cap = unsafe { memfd_create(c"out".as_ptr(), 0) };
    unsafe { dup2(cap, 1) };
    let mut out = unsafe { std::fs::File::from_raw_fd(out_fd) };
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut l = host::LOG.lock().unwrap_or_else(|e| e.into_inner());
        l.push(event("panic", &[es(&msg), es(&loc)]));
    }));
    // A large stack, so that nesting depth is bounded by the case and not by
    // the default main thread stack.
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            let mut r = stdin.lock();
            while let Some(ops) = read_case(&mut r) {
                host::LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
                host::OVER.store(false, Ordering::Relaxed);
                host::LIMIT.store(100_000, Ordering::Relaxed);
                host::SCAN_ON.store(true, Ordering::Relaxed);
                host::REFS_SEEN.store(0, Ordering::Relaxed);
                host::SCANS.store(0, Ordering::Relaxed);
                host::GATE.store(0, Ordering::Relaxed);
                host::SEQ.store(0, Ordering::Relaxed);
                host::QUIET.store(false, Ordering::Relaxed);
                let mut w = World::default();
                for op in &ops {
                    let r = catch_unwind(AssertUnwindSafe(|| exec(&mut w, op, cap)));
                    if r.is_err() {
                        // State after a panic is not meaningful.
                        let mut l = host::LOG.lock().unwrap_or_else(|e| e.into_inner());
                        l.push(event("abort", &[es(&op.name)]));
                        break;
                    }
                }
                if catch_unwind(AssertUnwindSafe(|| drop(w))).is_err() {
                    let mut l = host::LOG.lock().unwrap_or_else(|e| e.into_inner());
                    l.push(event("abort", &[es("drop")]));
                }
                let _ = std::io::stdout().flush();
                unsafe {
                    ftruncate(cap, 0);
                    lseek(cap, 0, 0);
                }
                if ops.iter().any(|o| o.name == "leakcheck") {
                    let bad = leaked();
                    let mut l = host::LOG.lock().unwrap_or_else(|e| e.into_inner());
                    l.push(event("leak", &[es(if bad { "leak" } else { "" })]));
                }
                let l = std::mem::take(&mut *host::LOG.lock().unwrap_or_else(|e| e.into_inner()));
                let mut body = vec![];
                for e in &l {
                    body.extend_from_slice(e);
                }
                let head = format!(
                    "R {} {} {} {}\n",
                    body.len(),
                    host::OVER.load(Ordering::Relaxed) as u8,
                    host::SCANS.load(Ordering::Relaxed),
                    host::REFS_SEEN.load(Ordering::Relaxed)
                );
                if out.write_all(head.as_bytes()).is_err() || out.write_all(&body).is_err() {
                    return;
                }
                let _ = out.flush();
            }
        })
        .unwrap();
    let _ = th.join();
}
