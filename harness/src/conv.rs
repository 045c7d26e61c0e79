//! Values that cross the boundary between host and script, with every conversion Dyon offers.
//! What the host holds is shown by code of this file, not by the conversions under test.
use crate::host::{event, log};
use crate::val;
use dyon::embed::{ConvertMat4, ConvertVec4, PopVariable, PushVariable};
use dyon::{dyon_fn, dyon_fn_pop, dyon_macro_items, dyon_obj};
use dyon::{Call, Dfn, Mat4, Module, Runtime, Type, Variable, Vec4};
use std::sync::Arc;

pub trait H: Sized {
    fn make(v: &Variable) -> Self;
    fn show(&self) -> Variable;
}

fn items(v: &Variable) -> &[Variable] {
    match v {
        Variable::Array(a) => a,
        _ => panic!("harness: array"),
    }
}
fn number(v: &Variable) -> f64 {
    match v {
        Variable::F64(x, _) => *x,
        _ => panic!("harness: number"),
    }
}
fn array(v: Vec<Variable>) -> Variable {
    Variable::Array(Arc::new(v))
}

impl H for f64 {
    fn make(v: &Variable) -> f64 {
        number(v)
    }
    fn show(&self) -> Variable {
        Variable::F64(*self, None)
    }
}
macro_rules! num {($($t:ty),*) => {$(impl H for $t {
    fn make(v: &Variable) -> $t {
        number(v) as $t
    }
    fn show(&self) -> Variable {
        Variable::F64(*self as f64, None)
    }
})*}}
num!(u32, usize, f32);
impl H for bool {
    fn make(v: &Variable) -> bool {
        matches!(v, Variable::Bool(true, _))
    }
    fn show(&self) -> Variable {
        Variable::Bool(*self, None)
    }
}
impl H for String {
    fn make(v: &Variable) -> String {
        match v {
            Variable::Str(s) => s.to_string(),
            _ => panic!("harness: string"),
        }
    }
    fn show(&self) -> Variable {
        Variable::Str(Arc::new(self.clone()))
    }
}
impl H for Arc<String> {
    fn make(v: &Variable) -> Arc<String> {
        Arc::new(String::make(v))
    }
    fn show(&self) -> Variable {
        Variable::Str(Arc::new(self.to_string()))
    }
}
impl H for Variable {
    fn make(v: &Variable) -> Variable {
        v.clone()
    }
    fn show(&self) -> Variable {
        self.clone()
    }
}
impl H for Vec4 {
    fn make(v: &Variable) -> Vec4 {
        match v {
            Variable::Vec4(v) => Vec4(*v),
            _ => panic!("harness: vec4"),
        }
    }
    fn show(&self) -> Variable {
        Variable::Vec4(self.0)
    }
}
impl H for Mat4 {
    fn make(v: &Variable) -> Mat4 {
        match v {
            Variable::Mat4(m) => Mat4(**m),
            _ => panic!("harness: mat4"),
        }
    }
    fn show(&self) -> Variable {
        Variable::Mat4(Box::new(self.0))
    }
}
impl<T: H> H for Option<T> {
    fn make(v: &Variable) -> Self {
        match v {
            Variable::Option(None) => None,
            Variable::Option(Some(x)) => Some(T::make(x)),
            _ => panic!("harness: option"),
        }
    }
    fn show(&self) -> Variable {
        Variable::Option(self.as_ref().map(|x| Box::new(x.show())))
    }
}
impl<T: H, U: H> H for Result<T, U> {
    fn make(v: &Variable) -> Self {
        match v {
            Variable::Result(Ok(x)) => Ok(T::make(x)),
            Variable::Result(Err(e)) => Err(U::make(&e.message)),
            _ => panic!("harness: result"),
        }
    }
    fn show(&self) -> Variable {
        Variable::Result(match self {
            Ok(x) => Ok(Box::new(x.show())),
            Err(x) => Err(Box::new(dyon::Error { message: x.show(), trace: vec![] })),
        })
    }
}
macro_rules! arr {($($n:tt [$($i:tt),*]),*) => {$(impl<T: H> H for [T; $n] {
    fn make(v: &Variable) -> Self {
        let a = items(v);
        [$(T::make(&a[$i])),*]
    }
    fn show(&self) -> Variable {
        array(vec![$(self[$i].show()),*])
    }
})*}}
arr!(2 [0, 1], 3 [0, 1, 2], 4 [0, 1, 2, 3]);
macro_rules! tup {($(($($t:ident $i:tt),*)),*) => {$(impl<$($t: H),*> H for ($($t),*) {
    fn make(v: &Variable) -> Self {
        let a = items(v);
        ($($t::make(&a[$i])),*)
    }
    fn show(&self) -> Variable {
        array(vec![$(self.$i.show()),*])
    }
})*}}
tup!((A 0, B 1), (A 0, B 1, C 2), (A 0, B 1, C 2, D 3));
impl<T: H> H for Vec<T> {
    fn make(v: &Variable) -> Self {
        items(v).iter().map(T::make).collect()
    }
    fn show(&self) -> Variable {
        array(self.iter().map(|x| x.show()).collect())
    }
}

/// A host struct that is an object in scripts.
pub struct Person {
    name: String,
    age: u32,
    tags: Vec<String>,
    pos: (f64, f64),
}
dyon_obj! {Person {name, age, tags, pos}}
impl H for Person {
    fn make(v: &Variable) -> Self {
        let o = match v {
            Variable::Object(o) => o,
            _ => panic!("harness: object"),
        };
        let f = |k: &str| &o[&Arc::new(k.to_string())];
        Person { name: H::make(f("name")), age: H::make(f("age")), tags: H::make(f("tags")), pos: H::make(f("pos")) }
    }
    fn show(&self) -> Variable {
        let mut o = std::collections::HashMap::new();
        o.insert(Arc::new("name".to_string()), self.name.show());
        o.insert(Arc::new("age".to_string()), self.age.show());
        o.insert(Arc::new("tags".to_string()), self.tags.show());
        o.insert(Arc::new("pos".to_string()), self.pos.show());
        Variable::Object(Arc::new(o))
    }
}

fn shown(rt: &Runtime, r: Result<Variable, String>) -> Vec<u8> {
    // A result: what the host got, or the error.
    let v = match r {
        Ok(v) => array(vec![Variable::Bool(true, None), v]),
        Err(e) => array(vec![Variable::Bool(false, None), Variable::Str(Arc::new(e))]),
    };
    val::enc(rt, &v)
}

fn round<T: H + PushVariable + PopVariable>(rt: &mut Runtime, m: &Arc<Module>, v: &Variable) {
    let h = T::make(v);
    rt.push(T::make(v));
    let seen = val::enc(rt, rt.stack.last().unwrap());
    let top = rt.stack.len();
    let popped = rt.pop::<T>().map(|x| x.show());
    let popped = shown(rt, popped);
    let used = rt.stack.len() == top - 1;
    let echo = Call::new("echo").arg(T::make(v)).run_ret::<T>(rt, m).map(|x| x.show());
    let echo = shown(rt, echo);
    let host = val::enc(rt, &h.show());
    let _ = log(event("round", &[host, seen, popped, echo, val::enc(rt, &Variable::bool(used))]));
}

fn pop_as<T: H + PushVariable + PopVariable>(rt: &mut Runtime, _: &Arc<Module>, v: &Variable) {
    let base = rt.stack.len();
    rt.stack.push(v.clone());
    let a = rt.pop::<T>().map(|x| x.show());
    let a = shown(rt, a);
    // By reference, as variables of a script are handed over.
    rt.stack.truncate(base);
    rt.stack.push(v.clone());
    rt.stack.push(Variable::Ref(base));
    let b = rt.pop::<T>().map(|x| x.show());
    let b = shown(rt, b);
    let c = rt.var::<T>(&Variable::Ref(base)).map(|x| x.show());
    let c = shown(rt, c);
    let kept = val::enc(rt, &rt.stack[base].clone());
    rt.stack.truncate(base);
    let _ = log(event("popas", &[a, b, c, kept]));
}

fn take<T: H + PushVariable + PopVariable>(rt: &mut Runtime) -> Result<Variable, String> {
    let x: T = rt.pop()?;
    log(event("take", &[val::enc(rt, &x.show())]))?;
    Ok(x.push_var())
}
fn cur<T: H + PushVariable + PopVariable>(rt: &mut Runtime) -> Result<Variable, String> {
    let name: String = rt.pop()?;
    let x: T = rt.current_object(&name)?;
    log(event("take", &[val::enc(rt, &x.show())]))?;
    Ok(x.push_var())
}

macro_rules! types {($mac:ident) => {$mac! {
    "f64" f64, "f32" f32, "u32" u32, "usize" usize, "bool" bool, "str" String, "astr" Arc<String>, "var" Variable, "vec4" Vec4, "mat4" Mat4,
    "opt_f64" Option<f64>, "opt_str" Option<String>, "opt_opt_bool" Option<Option<bool>>, "res_f64_str" Result<f64, String>, "res_str_f64" Result<String, f64>,
    "res_opt_u32_str" Result<Option<u32>, String>, "a2_f64" [f64; 2], "a3_str" [String; 3], "a4_f64" [f64; 4], "a2_a2_u32" [[u32; 2]; 2], "a3_f32" [f32; 3],
    "t2_f64_str" (f64, String), "t2_bool_bool" (bool, bool), "t3_bool_f64_str" (bool, f64, String), "t4_f64_str_bool_u32" (f64, String, bool, u32),
    "v_f64" Vec<f64>, "v_str" Vec<String>, "v_v_f64" Vec<Vec<f64>>, "v_opt_bool" Vec<Option<bool>>, "v_t2_str_f64" Vec<(String, f64)>, "opt_v_a2_f64" Option<Vec<[f64; 2]>>,
    "v_vec4" Vec<Vec4>, "v_var" Vec<Variable>, "person" Person, "v_person" Vec<Person>, "opt_person" Option<Person>, "t2_vec4_mat4" (Vec4, Mat4)
}}}

macro_rules! dispatch {($($n:literal $t:ty),*) => {
    pub fn run(op: &str, ty: &str, rt: &mut Runtime, m: &Arc<Module>, v: &Variable) {
        let f: fn(&mut Runtime, &Arc<Module>, &Variable) = match (op, ty) {
            $(("round", $n) => round::<$t>, ("popas", $n) => pop_as::<$t>,)*
            ("round", _) if ty.starts_with("c") => return vector(ty, rt, m, v, true),
            ("popas", _) if ty.starts_with("c") => return vector(ty, rt, m, v, false),
            _ => panic!("harness: type {}", ty),
        };
        f(rt, m, v)
    }
    fn add_types(m: &mut Module) {
        $(m.add_str(concat!("take_", $n), take::<$t>, Dfn::nl(vec![Type::Any], Type::Any));
          m.add_str(concat!("cur_", $n), cur::<$t>, Dfn::nl(vec![Type::Str], Type::Any));)*
    }
}}
types!(dispatch);

/// Host vectors and matrices that become the vector and matrix of scripts.
fn vround<T: ConvertVec4>(rt: &mut Runtime, m: &Arc<Module>, v: &Variable, push: bool, make: fn(&[Variable]) -> T, show: fn(&T) -> Variable) {
    if push {
        let h = make(items(v));
        rt.push_vec4(make(items(v)));
        let seen = val::enc(rt, rt.stack.last().unwrap());
        let popped = rt.pop_vec4::<T>().map(|x| show(&x));
        let popped = shown(rt, popped);
        let echo = Call::new("echo").vec4(make(items(v))).run_vec4::<T>(rt, m).map(|x| show(&x));
        let echo = shown(rt, echo);
        let host = val::enc(rt, &show(&h));
        let _ = log(event("round", &[host, seen, popped, echo, val::enc(rt, &Variable::bool(true))]));
    } else {
        let base = rt.stack.len();
        rt.stack.push(v.clone());
        rt.stack.push(Variable::Ref(base));
        let b = rt.pop_vec4::<T>().map(|x| show(&x));
        let b = shown(rt, b);
        let c = rt.var_vec4::<T>(&Variable::Ref(base)).map(|x| show(&x));
        let c = shown(rt, c);
        let kept = val::enc(rt, &rt.stack[base].clone());
        let a = rt.pop_vec4::<T>().map(|x| show(&x));
        let a = shown(rt, a);
        let _ = log(event("popas", &[a, b, c, kept]));
    }
}

/// A host type that goes through the wrapper's conversions.
struct W<T>(T);

impl<T: Copy> ConvertVec4 for W<T>
where
    Vec4: From<T> + Into<T>,
{
    fn from(val: [f32; 4]) -> Self {
        W(Vec4(val).into())
    }
    fn to(&self) -> [f32; 4] {
        <Vec4 as From<T>>::from(self.0).0
    }
}

fn vector(ty: &str, rt: &mut Runtime, m: &Arc<Module>, v: &Variable, push: bool) {
    macro_rules! v {($t:ty, $n:tt, [$($i:tt),*]) => {
        vround::<[$t; $n]>(rt, m, v, push, |a| [$(number(&a[$i]) as $t),*], |x| array(vec![$(Variable::F64(x[$i] as f64, None)),*]))
    }}
    macro_rules! w {($t:ty, $n:tt, [$($i:tt),*]) => {
        vround::<W<[$t; $n]>>(rt, m, v, push, |a| W([$(number(&a[$i]) as $t),*]), |x| array(vec![$(Variable::F64(x.0[$i] as f64, None)),*]))
    }}
    macro_rules! t {($t:ty, $tt:ty, [$($i:tt),*]) => {
        vround::<W<$tt>>(rt, m, v, push, |a| W(($(number(&a[$i]) as $t),*)), |x| array(vec![$(Variable::F64((x.0).$i as f64, None)),*]))
    }}
    match ty {
        "cwf32_2" => w!(f32, 2, [0, 1]),
        "cwf32_3" => w!(f32, 3, [0, 1, 2]),
        "cwf32_4" => w!(f32, 4, [0, 1, 2, 3]),
        "cwf64_2" => w!(f64, 2, [0, 1]),
        "cwf64_3" => w!(f64, 3, [0, 1, 2]),
        "cwf64_4" => w!(f64, 4, [0, 1, 2, 3]),
        "cwu32_2" => w!(u32, 2, [0, 1]),
        "cwu8_4" => w!(u8, 4, [0, 1, 2, 3]),
        "ctf32_2" => t!(f32, (f32, f32), [0, 1]),
        "ctf32_3" => t!(f32, (f32, f32, f32), [0, 1, 2]),
        "ctf32_4" => t!(f32, (f32, f32, f32, f32), [0, 1, 2, 3]),
        "ctf64_2" => t!(f64, (f64, f64), [0, 1]),
        "ctf64_3" => t!(f64, (f64, f64, f64), [0, 1, 2]),
        "ctf64_4" => t!(f64, (f64, f64, f64, f64), [0, 1, 2, 3]),
        "ctu32_2" => t!(u32, (u32, u32), [0, 1]),
        "ctu8_4" => t!(u8, (u8, u8, u8, u8), [0, 1, 2, 3]),
        "cf32_2" => v!(f32, 2, [0, 1]),
        "cf32_3" => v!(f32, 3, [0, 1, 2]),
        "cf32_4" => v!(f32, 4, [0, 1, 2, 3]),
        "cf64_2" => v!(f64, 2, [0, 1]),
        "cf64_3" => v!(f64, 3, [0, 1, 2]),
        "cf64_4" => v!(f64, 4, [0, 1, 2, 3]),
        "cvec4" => vround::<Vec4>(
            rt,
            m,
            v,
            push,
            |a| Vec4([number(&a[0]) as f32, number(&a[1]) as f32, number(&a[2]) as f32, number(&a[3]) as f32]),
            |x| array(x.0.iter().map(|x| Variable::F64(*x as f64, None)).collect()),
        ),
        "cmat4" => matrix::<[[f32; 4]; 4]>(rt, m, v, push, |x| x, |x| *x),
        "cmat4w" => matrix::<Mat4>(rt, m, v, push, Mat4, |x| x.0),
        _ => panic!("harness: type {}", ty),
    }
}

fn matrix<T: ConvertMat4>(rt: &mut Runtime, m: &Arc<Module>, v: &Variable, push: bool, make: fn([[f32; 4]; 4]) -> T, back: fn(&T) -> [[f32; 4]; 4]) {
    // Host matrices are lists of columns, as the matrix of scripts is.
    let show = |x: &T| Variable::Mat4(Box::new(back(x)));
    if push {
        let raw = match v {
            Variable::Mat4(m) => **m,
            _ => panic!("harness: mat4"),
        };
        rt.push_mat4(make(raw));
        let seen = val::enc(rt, rt.stack.last().unwrap());
        let popped = rt.pop_mat4::<T>().map(|x| show(&x));
        let popped = shown(rt, popped);
        rt.push_mat4(make(raw));
        let x = rt.stack.pop().unwrap();
        let r = rt.call_str_ret("echo", &[x], m);
        let echo = r.and_then(|x| rt.var_mat4::<T>(&x).map(|x| show(&x)));
        let echo = shown(rt, echo);
        let host = val::enc(rt, v);
        let _ = log(event("round", &[host, seen, popped, echo, val::enc(rt, &Variable::bool(true))]));
    } else {
        let base = rt.stack.len();
        rt.stack.push(v.clone());
        rt.stack.push(Variable::Ref(base));
        let b = rt.pop_mat4::<T>().map(|x| show(&x));
        let b = shown(rt, b);
        let c = rt.var_mat4::<T>(&Variable::Ref(base)).map(|x| show(&x));
        let c = shown(rt, c);
        let kept = val::enc(rt, &rt.stack[base].clone());
        let a = rt.pop_mat4::<T>().map(|x| show(&x));
        let a = shown(rt, a);
        let _ = log(event("popas", &[a, b, c, kept]));
    }
}

/// A host type scripts hold without looking inside.
#[derive(Copy, Clone)]
pub struct Ctr {
    n: f64,
}
#[derive(Copy, Clone)]
pub struct Other {
    n: f64,
}

fn told(name: &str, args: Vec<Variable>) {
    let mut b = vec![];
    val::put(&mut b, &[], &array(args), 0);
    let _ = log(event("told", &[crate::host::es(name), b]));
}

dyon_fn! {fn hf0() -> f64 { told("hf0", vec![]); 7.0 }}
dyon_fn! {fn hf1(a: f64) -> f64 { told("hf1", vec![a.show()]); a + 1.0 }}
dyon_fn! {fn hf2(a: f64, b: String) -> String { told("hf2", vec![a.show(), b.show()]); b }}
dyon_fn! {fn hf3(a: bool, b: f64, c: Vec<f64>) -> Vec<f64> { told("hf3", vec![a.show(), b.show(), c.show()]); c }}
dyon_fn! {fn hf4(a: Vec4, b: Option<f64>, c: (f64, String), d: f64) -> Result<f64, String> {
    told("hf4", vec![a.show(), b.show(), c.show(), d.show()]);
    match b {
        Some(x) => Ok(x + d),
        None => Err(c.1),
    }
}}
dyon_fn! {fn hf5(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
    told("hf5", vec![a.show(), b.show(), c.show(), d.show(), e.show()]);
    a * 10000.0 + b * 1000.0 + c * 100.0 + d * 10.0 + e
}}
dyon_fn! {fn hv0() { told("hv0", vec![]) }}
dyon_fn! {fn hv1(a: String) { told("hv1", vec![a.show()]) }}
dyon_fn! {fn hv3(a: f64, b: Person, c: bool) { told("hv3", vec![a.show(), b.show(), c.show()]) }}
dyon_fn! {fn ctr0() -> #Ctr { told("ctr0", vec![]); Ctr { n: 0.0 } }}
dyon_fn! {fn ctr(n: f64) -> #Ctr { told("ctr", vec![n.show()]); Ctr { n } }}
dyon_fn! {fn other(n: f64) -> #Other { told("other", vec![n.show()]); Other { n } }}
dyon_fn! {fn ctr_get(c: #&Ctr) -> f64 { told("ctr_get", vec![c.n.show()]); c.n }}
dyon_fn! {fn ctr_plus(c: #&Ctr, n: f64) -> f64 { told("ctr_plus", vec![c.n.show(), n.show()]); c.n + n }}
dyon_fn! {fn ctr_two(c: #&Ctr, d: #&Other, n: f64) -> f64 { told("ctr_two", vec![c.n.show(), d.n.show(), n.show()]); c.n * 100.0 + d.n * 10.0 + n }}
dyon_fn! {fn ctr_clone(c: #&Ctr) -> #Ctr { told("ctr_clone", vec![c.n.show()]); Ctr { n: c.n } }}
dyon_fn! {fn ctr_next(c: #&Ctr, n: f64) -> #Ctr { told("ctr_next", vec![c.n.show(), n.show()]); Ctr { n: c.n + n } }}
dyon_fn! {fn ctr_val(c: #Ctr, n: f64) -> f64 { told("ctr_val", vec![c.n.show(), n.show()]); c.n - n }}
dyon_fn! {fn ctr_upd(c: #&mut Ctr, d: #&Other, n: f64) -> f64 { told("ctr_upd", vec![c.n.show(), d.n.show(), n.show()]); c.n += d.n * n; c.n }}
dyon_fn! {fn ctr_updv(c: #&mut Ctr, d: #Other, n: f64) -> f64 { told("ctr_updv", vec![c.n.show(), d.n.show(), n.show()]); c.n -= d.n * n; c.n }}
dyon_fn! {fn ctr_add(c: #&mut Ctr, n: f64) { told("ctr_add", vec![c.n.show(), n.show()]); c.n += n }}
dyon_fn! {fn ctr_add2(c: #&mut Ctr, d: #&Other, n: f64) { told("ctr_add2", vec![c.n.show(), d.n.show(), n.show()]); c.n += d.n + n }}
dyon_fn! {fn ctr_add3(c: #&mut Ctr, d: #Other, n: f64) { told("ctr_add3", vec![c.n.show(), d.n.show(), n.show()]); c.n += d.n - n }}
dyon_fn! {fn ctr_see(c: #&Ctr, n: f64) { told("ctr_see", vec![c.n.show(), n.show()]) }}
dyon_fn! {fn ctr_use(c: #Ctr, n: f64) { told("ctr_use", vec![c.n.show(), n.show()]) }}
dyon_fn! {fn ctr_eat(c: #Ctr, d: #Other) { told("ctr_eat", vec![c.n.show(), d.n.show()]) }}

pub fn install(m: &mut Module) {
    use Type::{Any, Void};
    add_types(m);
    let any = |n: usize| vec![Any; n];
    macro_rules! add {($($f:ident $n:tt $r:ident),*) => {$(m.add_str(stringify!($f), $f, Dfn::nl(any($n), $r));)*}}
    add!(hf0 0 Any, hf1 1 Any, hf2 2 Any, hf3 3 Any, hf4 4 Any, hf5 5 Any, hv0 0 Void, hv1 1 Void, hv3 3 Void, ctr0 0 Any, ctr 1 Any, other 1 Any, ctr_get 1 Any, ctr_plus 2 Any, ctr_two 3 Any,
         ctr_clone 1 Any, ctr_next 2 Any, ctr_val 2 Any, ctr_upd 3 Any, ctr_updv 3 Any, ctr_add 2 Void, ctr_add2 3 Void, ctr_add3 3 Void, ctr_see 2 Void, ctr_use 2 Void, ctr_eat 2 Void);
}
