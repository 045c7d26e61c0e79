//! Histories of operations on the public `Link` type.
//!
//! Each command is an array: name, then registers (numbers) or a value.
use crate::host::{es, event, LOG};
use crate::val;
use dyon::{Link, Runtime, Variable};

fn n(v: &Variable) -> usize {
    match v {
        Variable::F64(x, _) => *x as usize,
        _ => panic!("harness: register"),
    }
}

pub fn run(prog: &Variable) {
    let rt = Runtime::new();
    let mut regs: Vec<Option<Link>> = vec![];
    let cmds = match prog {
        Variable::Array(a) => a.clone(),
        _ => panic!("harness: link program"),
    };
    let put = |tag: &str, parts: Vec<Vec<u8>>| {
        LOG.lock().unwrap_or_else(|e| e.into_inner()).push(event(tag, &parts));
    };
    let opt = |x: Option<Box<Variable>>| match x {
        None => b"?0".to_vec(),
        Some(v) => [b"?1".to_vec(), val::enc(&rt, &v)].concat(),
    };
    for c in cmds.iter() {
        let c = match c {
            Variable::Array(a) => a.clone(),
            _ => panic!("harness: link command"),
        };
        let name = match &c[0] {
            Variable::Str(s) => s.clone(),
            _ => panic!("harness: link command"),
        };
        let r = n(&c[1]);
        while regs.len() <= r {
            regs.push(None);
        }
        match name.as_str() {
            "new" => regs[r] = Some(Link::new()),
            "push" => {
                let res = regs[r].as_mut().unwrap().push(&c[2]);
                put("push", vec![es(if res.is_ok() { "ok" } else { "err" })]);
            }
            "pushl" => {
                let q = Variable::Link(Box::new(regs[n(&c[2])].clone().unwrap()));
                let res = regs[r].as_mut().unwrap().push(&q);
                put("push", vec![es(if res.is_ok() { "ok" } else { "err" })]);
            }
            "add" => {
                let l = regs[n(&c[2])].as_ref().unwrap().add(regs[n(&c[3])].as_ref().unwrap());
                regs[r] = Some(l);
            }
            "tail" => {
                let l = regs[n(&c[2])].as_ref().unwrap().tail();
                regs[r] = Some(l);
            }
            "neck" => {
                let l = regs[n(&c[2])].as_ref().unwrap().neck();
                regs[r] = Some(l);
            }
            "copy" => {
                let l = regs[n(&c[2])].clone();
                regs[r] = l;
            }
            "drop" => regs[r] = None,
            "ends" => {
                let l = regs[r].as_ref().unwrap();
                put("ends", vec![opt(l.head()), opt(l.tip()), es(if l.is_empty() { "empty" } else { "" })]);
            }
            "read" => {
                let l = regs[r].clone().unwrap();
                put("read", vec![val::enc(&rt, &Variable::Link(Box::new(l)))]);
            }
            "back" => {
                // From the other end.
                let mut cur = regs[r].clone().unwrap();
                let mut items = vec![];
                while let Some(t) = cur.tip() {
                    items.push(*t);
                    cur = cur.neck();
                    if items.len() > 1_000_000 {
                        break;
                    }
                }
                items.reverse();
                put("read", vec![val::enc(&rt, &Variable::Array(std::sync::Arc::new(items)))]);
            }
            x => panic!("harness: link command {}", x),
        }
    }
}
