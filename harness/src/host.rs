//! Host functions: the monitors that watch a running script.
//!
//! Every host function appends to one event log shared by all threads of a
//! case, and looks over the runtime's stacks while it has control.
use crate::val;
use dyon::{Dfn, Lt, Module, Runtime, Type, Variable};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub static LOG: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
pub static LIMIT: AtomicUsize = AtomicUsize::new(100_000);
pub static OVER: AtomicBool = AtomicBool::new(false);
pub static REFS_SEEN: AtomicUsize = AtomicUsize::new(0);
pub static SCANS: AtomicUsize = AtomicUsize::new(0);
pub static SCAN_ON: AtomicBool = AtomicBool::new(true);
pub static SEQ: AtomicUsize = AtomicUsize::new(0);
pub static GATE: AtomicUsize = AtomicUsize::new(0);

/// When set, events are only counted, so that the log does not synchronise threads.
pub static QUIET: AtomicBool = AtomicBool::new(false);
pub static QUIET_SEEN: AtomicUsize = AtomicUsize::new(0);

pub fn log(ev: Vec<u8>) -> Result<(), String> {
    if QUIET.load(Ordering::Relaxed) {
        QUIET_SEEN.fetch_add(1, Ordering::Relaxed);
        return Ok(());
    }
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    if l.len() >= LIMIT.load(Ordering::Relaxed) {
        OVER.store(true, Ordering::Relaxed);
        return Err("MONITOR: event limit".into());
    }
    l.push(ev);
    Ok(())
}

/// One event: an array of a tag and encoded parts.
pub fn event(tag: &str, parts: &[Vec<u8>]) -> Vec<u8> {
    let mut o = format!("a{}:", parts.len() + 1).into_bytes();
    val::put_str(&mut o, tag);
    for p in parts {
        o.extend_from_slice(p);
    }
    o
}
pub fn es(s: &str) -> Vec<u8> {
    let mut o = vec![];
    val::put_str(&mut o, s);
    o
}
pub fn en(x: f64) -> Vec<u8> {
    let mut o = vec![];
    val::put_num(&mut o, x);
    o
}

fn scan(pos: usize, v: &Variable, bad: &mut Option<(usize, usize)>, n: &mut usize) {
    match v {
        Variable::Ref(i) => {
            *n += 1;
            if *i >= pos && bad.is_none() {
                *bad = Some((pos, *i));
            }
        }
        Variable::Array(a) => a.iter().for_each(|x| scan(pos, x, bad, n)),
        Variable::Object(o) => o.values().for_each(|x| scan(pos, x, bad, n)),
        Variable::Option(Some(x)) => scan(pos, x, bad, n),
        Variable::Result(Ok(x)) => scan(pos, x, bad, n),
        Variable::Result(Err(x)) => scan(pos, &x.message, bad, n),
        Variable::Bool(_, Some(s)) | Variable::F64(_, Some(s)) => {
            s.iter().for_each(|x| scan(pos, x, bad, n))
        }
        _ => {}
    }
}

/// The reference monitor: whatever is stored at a stack position, or handed to
/// the host, refers only to positions below it (variables that live longer).
pub fn monitor(rt: &Runtime, handed: &[&Variable]) -> Result<(), String> {
    if !SCAN_ON.load(Ordering::Relaxed) {
        return Ok(());
    }
    let mut bad = None;
    let mut n = 0;
    for (p, v) in rt.stack.iter().enumerate() {
        scan(p, v, &mut bad, &mut n);
    }
    for v in handed {
        scan(rt.stack.len(), v, &mut bad, &mut n);
    }
    for (_, i) in rt.local_stack.iter().chain(rt.current_stack.iter()) {
        n += 1;
        if *i >= rt.stack.len() && bad.is_none() {
            // A named local may be announced before its slot is filled only
            // by the callee frame set-up, which never calls the host.
            bad = Some((rt.stack.len(), *i));
        }
    }
    REFS_SEEN.fetch_add(n, Ordering::Relaxed);
    SCANS.fetch_add(1, Ordering::Relaxed);
    if let Some((p, i)) = bad {
        log(event("badref", &[en(p as f64), en(i as f64)]))?;
    }
    Ok(())
}

fn pop(rt: &mut Runtime) -> Variable {
    rt.stack.pop().expect("harness: host argument")
}
fn pop_n(rt: &mut Runtime) -> f64 {
    let v = pop(rt);
    match rt.get(&v) {
        Variable::F64(x, _) => *x,
        _ => f64::NAN,
    }
}

fn emit(rt: &mut Runtime) -> Result<(), String> {
    let v = pop(rt);
    monitor(rt, &[&v])?;
    log(event("e", &[val::enc(rt, &v)]))
}
fn emit_id(rt: &mut Runtime) -> Result<(), String> {
    let v = pop(rt);
    let id = pop_n(rt);
    monitor(rt, &[&v])?;
    log(event("E", &[en(id), val::enc(rt, &v)]))
}
fn probe(rt: &mut Runtime) -> Result<(), String> {
    let id = pop_n(rt);
    monitor(rt, &[])?;
    log(event(
        "p",
        &[
            en(id),
            en(rt.stack.len() as f64),
            en(rt.local_stack.len() as f64),
            en(rt.current_stack.len() as f64),
            en(rt.call_stack.len() as f64),
        ],
    ))
}
/// Typed identity that records its evaluation.
fn trace(rt: &mut Runtime) -> Result<Variable, String> {
    let v = pop(rt);
    let id = pop_n(rt);
    monitor(rt, &[&v])?;
    let e = val::enc(rt, &v);
    log(event("t", &[en(id), e]))?;
    Ok(rt.get(&v).clone())
}
/// Identity on any type; hides the type from the checker.
fn blur(rt: &mut Runtime) -> Result<Variable, String> {
    let v = pop(rt);
    let b = val::enc(rt, &v);
    // Values that the wire format can not carry are passed as they are.
    Ok(match rt.get(&v) {
        Variable::Array(_) | Variable::Object(_) if !b.iter().any(|c| b"cXHIU!D$".contains(c)) => {
            val::Dec::new(&b).val()
        }
        x => x.clone(),
    })
}
fn fail(rt: &mut Runtime) -> Result<(), String> {
    let v = pop(rt);
    Err(match rt.get(&v) {
        Variable::Str(s) => (**s).clone(),
        _ => "fail".into(),
    })
}
fn fail_ret(rt: &mut Runtime) -> Result<Variable, String> {
    fail(rt)?;
    Ok(Variable::bool(true))
}
fn cur_num(rt: &mut Runtime) -> Result<Variable, String> {
    let v = pop(rt);
    let name = match rt.get(&v) {
        Variable::Str(s) => s.clone(),
        _ => return Err("harness".into()),
    };
    Ok(Variable::f64(rt.current_object::<f64>(&name)?))
}
fn nap(rt: &mut Runtime) -> Result<(), String> {
    let us = pop_n(rt);
    std::thread::sleep(std::time::Duration::from_micros(us.max(0.0) as u64));
    Ok(())
}
/// Waits until the gate has reached a value (bounded).
fn gate_wait(rt: &mut Runtime) -> Result<(), String> {
    let n = pop_n(rt) as usize;
    let t = std::time::Instant::now();
    while GATE.load(Ordering::Relaxed) < n {
        if t.elapsed().as_secs() > 20 {
            return Err("MONITOR: gate".into());
        }
        std::thread::yield_now();
    }
    Ok(())
}
fn gate_inc(_rt: &mut Runtime) -> Result<(), String> {
    GATE.fetch_add(1, Ordering::Relaxed);
    Ok(())
}
/// Global order stamp.
fn stamp(_rt: &mut Runtime) -> Result<Variable, String> {
    Ok(Variable::f64(SEQ.fetch_add(1, Ordering::Relaxed) as f64))
}
/// Calls back into the script: `hcall(name, [args]) -> any`.
fn hcall(rt: &mut Runtime) -> Result<Variable, String> {
    let args = pop(rt);
    let name = pop(rt);
    let name = match rt.get(&name) {
        Variable::Str(s) => s.clone(),
        _ => return Err("harness".into()),
    };
    let args: Vec<Variable> = match rt.get(&args) {
        Variable::Array(a) => a.to_vec(),
        _ => return Err("harness".into()),
    };
    let m = rt.module.clone();
    let before = (rt.stack.len(), rt.local_stack.len(), rt.current_stack.len(), rt.call_stack.len());
    let r = rt.call_str_ret(&name, &args, &m);
    let after = (rt.stack.len(), rt.local_stack.len(), rt.current_stack.len(), rt.call_stack.len());
    if before != after {
        log(event("unbal", &[es(&format!("{:?} {:?} {}", before, after, r.is_ok()))]))?;
    }
    r
}
fn robj(rt: &mut Runtime) -> Result<Variable, String> {
    let x = pop_n(rt);
    Ok(Variable::RustObject(Arc::new(Mutex::new(x))))
}
fn robj_get(rt: &mut Runtime) -> Result<Variable, String> {
    let v = pop(rt);
    match rt.get(&v) {
        Variable::RustObject(o) => {
            let g = o.lock().map_err(|_| "poison".to_string())?;
            Ok(Variable::f64(*g.downcast_ref::<f64>().ok_or("robj type")?))
        }
        _ => Err("robj".into()),
    }
}

pub fn install(m: &mut Module) {
    use Type::*;
    m.add_str("emit", emit, Dfn::nl(vec![Any], Void));
    m.add_str("emit_id", emit_id, Dfn::nl(vec![F64, Any], Void));
    m.add_str("probe", probe, Dfn::nl(vec![F64], Void));
    m.add_str("tn", trace, Dfn::nl(vec![F64, F64], F64));
    m.add_str("tb", trace, Dfn::nl(vec![F64, Bool], Bool));
    m.add_str("ts", trace, Dfn::nl(vec![F64, Str], Str));
    m.add_str("tv", trace, Dfn::nl(vec![F64, Vec4], Vec4));
    m.add_str("ta", trace, Dfn::nl(vec![F64, Any], Any));
    m.add_str("blur", blur, Dfn::nl(vec![Any], Any));
    m.add_str("fail", fail, Dfn::nl(vec![Str], Void));
    m.add_str("fail_ret", fail_ret, Dfn::nl(vec![Str], Any));
    m.add_str("cur_num", cur_num, Dfn::nl(vec![Str], F64));
    m.add_str("nap", nap, Dfn::nl(vec![F64], Void));
    m.add_str("gate_wait", gate_wait, Dfn::nl(vec![F64], Void));
    m.add_str("gate_inc", gate_inc, Dfn::nl(vec![], Void));
    m.add_str("stamp", stamp, Dfn::nl(vec![], F64));
    m.add_str("hcall", hcall, Dfn::nl(vec![Str, Type::array()], Any));
    m.add_str("robj", robj, Dfn::nl(vec![F64], Any));
    m.add_str("robj_get", robj_get, Dfn::nl(vec![Any], F64));
    let _ = Lt::Default;
}
