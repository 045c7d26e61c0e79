From 61db0d7052146b80234371847c037653b6952d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:48 +0000
Subject: [PATCH 01/56] fix: do not write to the shared syntax tree when
 looking up variables

With checked variable lookup the stack offset of an item was cached in a
Cell inside the syntax tree, which threads started with go share: a data race.
---
 src/runtime/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a79786c..35cc8e4 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2415,11 +2415,12 @@ impl Runtime {
                     Some(val) => self.stack.len() - val,
                     None => {
                         let name: &str = &**item.name;
-                        let mut found = false;
+                        // The result is not cached in the syntax tree,
+                        // because the module might be shared between threads.
+                        let mut found = None;
                         for &(ref n, id) in self.local_stack.iter().rev().take(locals) {
                             if **n == name {
                                 let new_val = Some(self.stack.len() - id);
-                                item.stack_id.set(new_val);
 
                                 let static_stack_id = item.static_stack_id.get();
                                 if new_val != static_stack_id {
@@ -2432,12 +2433,12 @@ impl Runtime {
                                         ), self));
                                 }
 
-                                found = true;
+                                found = new_val;
                                 break;
                             }
                         }
-                        if found {
-                            self.stack.len() - item.stack_id.get().unwrap()
+                        if let Some(val) = found {
+                            self.stack.len() - val
                         } else if name == "return" {
                             return Err(self.module.error(
                                 item.source_range,
-- 
2.43.0


From 79f615bf0b651125a7a037b619e27045fce19315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:48 +0000
Subject: [PATCH 02/56] fix: let the condition of a for loop be a variable

A condition that is a reference to a variable was rejected at run time.
---
 src/runtime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 35cc8e4..fdace25 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2776,7 +2776,7 @@ impl Runtime {
                     )
                 }
             };
-            let val = match val {
+            let val = match *self.get(&val) {
                 Variable::Bool(val, _) => val,
                 _ => return self.err(for_expr.cond.source_range(), "Expected bool"),
             };
-- 
2.43.0


From 5d432e3e695403c3fd37d215382d3cf6313fe323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:16 +0000
Subject: [PATCH 03/56] fix: end the scope of a current object declared by a
 for loop

The entry stayed on the stack of current objects after the loop, so a later
call that requires the current object got an unrelated variable.
---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index fdace25..cd0f39d 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2750,6 +2750,7 @@ impl Runtime {
     fn for_expr(&mut self, for_expr: &ast::For) -> FlowResult {
         let prev_st = self.stack.len();
         let prev_lc = self.local_stack.len();
+        let prev_cu = self.current_stack.len();
         match self.expression(&for_expr.init, Side::Right)? {
             (None, Flow::Continue) => {}
             (x, Flow::Return) => {
@@ -2839,6 +2840,7 @@ impl Runtime {
         }
         self.stack.truncate(prev_st);
         self.local_stack.truncate(prev_lc);
+        self.current_stack.truncate(prev_cu);
         Ok((None, flow))
     }
     fn vec4(&mut self, vec4: &ast::Vec4, side: Side) -> FlowResult {
-- 
2.43.0


From 92a2ff52e632b6a913c82880a26681802af16736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:16 +0000
Subject: [PATCH 04/56] fix: clean up the stack when a lazy invariant ends a
 call early

The slot for the return value and the arguments computed so far stayed on the
stack, which made later variables of the same block resolve to wrong values.
---
 src/runtime/mod.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index cd0f39d..b269d6a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1474,6 +1474,7 @@ impl Runtime {
         // Copy the module to avoid problems with borrow checker.
         let mod_copy = self.module.clone();
         let f = &mod_copy.functions[new_index];
+        let prev_st = self.stack.len();
         // Arguments must be computed.
         if f.returns() {
             // Add return value before arguments on the stack.
@@ -1491,27 +1492,33 @@ impl Runtime {
                     // Return immediately if equal to lazy invariant.
                     if let Some(lz) = f.lazy_inv.get(i) {
                         for lazy in lz {
-                            match *lazy {
+                            let ret = match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
-                                        return Ok((Some(x), Flow::Continue));
-                                    }
-                                }
-                                Lazy::UnwrapOk => {
-                                    if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
-                                    }
-                                }
-                                Lazy::UnwrapErr => {
-                                    if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
-                                    }
-                                }
-                                Lazy::UnwrapSome => {
-                                    if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        Some(x.clone())
+                                    } else {
+                                        None
                                     }
                                 }
+                                Lazy::UnwrapOk => match self.get(&x) {
+                                    Variable::Result(Ok(x)) => Some((**x).clone()),
+                                    _ => None,
+                                },
+                                Lazy::UnwrapErr => match self.get(&x) {
+                                    Variable::Result(Err(x)) => Some(x.message.clone()),
+                                    _ => None,
+                                },
+                                Lazy::UnwrapSome => match self.get(&x) {
+                                    Variable::Option(Some(x)) => Some((**x).clone()),
+                                    _ => None,
+                                },
+                            };
+                            if let Some(ret) = ret {
+                                // Remove return value and arguments computed so far.
+                                self.stack.truncate(prev_st);
+                                self.local_stack.truncate(lc);
+                                self.current_stack.truncate(cu);
+                                return Ok((Some(ret), Flow::Continue));
                             }
                         }
                     }
-- 
2.43.0


From bb44e63d8c8e5cc86de46e565459487afdb23b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:42 +0000
Subject: [PATCH 05/56] fix: do not change a property or element when reading
 it with `?`

`a.x?` replaced the stored `ok(_)` or `some(_)` by its inner value, so that
reading it a second time failed.
---
 src/runtime/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index b269d6a..2c9063e 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -134,6 +134,14 @@ impl Default for Runtime {
     }
 }
 
+// Gets the inner value of `ok(_)` or `some(_)`, leaving the variable as it is.
+fn unwrap_in_place(var: *mut Variable) -> *mut Variable {
+    match unsafe { var.as_mut().unwrap() } {
+        Variable::Result(Ok(inner)) | Variable::Option(Some(inner)) => &mut **inner,
+        _ => var,
+    }
+}
+
 // Looks up an item from a variable property.
 fn item_lookup(
     module: &Module,
@@ -2574,10 +2582,10 @@ impl Runtime {
                     }
                 };
                 match v {
-                    Ok(ref ok) => unsafe {
-                        *var = (**ok).clone();
+                    Ok(_) => {
+                        var = unwrap_in_place(var);
                         try_id_ind += 1;
-                    },
+                    }
                     Err(ref err) => {
                         let call = call_stack.last().expect(CSIE);
                         if call.stack_len == 0 {
@@ -2650,10 +2658,10 @@ impl Runtime {
                         }
                     };
                     match v {
-                        Ok(ref ok) => unsafe {
-                            *var = (**ok).clone();
+                        Ok(_) => {
+                            var = unwrap_in_place(var);
                             try_id_ind += 1;
-                        },
+                        }
                         Err(ref err) => {
                             let call = call_stack.last().expect(CSIE);
                             if call.stack_len == 0 {
-- 
2.43.0


From 3640fc068b2112484d5df9a9f793a6779dd2f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:31 +0000
Subject: [PATCH 06/56] fix: NaN is not greater than any number

---
 src/dyon_std/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 6b78d42..7995f44 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -57,22 +57,22 @@ pub(crate) fn less_or_equal(a: &Variable, b: &Variable) -> Result<Variable, Stri
 }
 
 pub(crate) fn greater(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less_or_equal(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a > b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a > b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
 pub(crate) fn greater_or_equal(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a >= b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a >= b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
-- 
2.43.0


From ba48d5ceef8577c95b2f87d8879533b4284cee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 07/56] fix: let a vector be a lazy invariant

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5d84a00..8ab4b30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -327,6 +327,7 @@ impl PartialEq for Variable {
             (&Variable::Bool(a, _), &Variable::Bool(b, _)) => a == b,
             (&Variable::F64(a, _), &Variable::F64(b, _)) => a == b,
             (&Variable::Str(ref a), &Variable::Str(ref b)) => a == b,
+            (&Variable::Vec4(ref a), &Variable::Vec4(ref b)) => a == b,
             (&Variable::Object(ref a), &Variable::Object(ref b)) => a == b,
             (&Variable::Array(ref a), &Variable::Array(ref b)) => a == b,
             (&Variable::Ref(_), _) => false,
-- 
2.43.0


From 298367aa648b152569ef3a1094e3fa3f6c323bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:23 +0000
Subject: [PATCH 08/56] fix: return the value, not a reference, when a lazy
 invariant ends a call

---
 src/runtime/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2c9063e..716beb1 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1412,8 +1412,11 @@ impl Runtime {
                         for lazy in ls {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
-                                    if self.get(&x) == val {
-                                        return Ok((Some(x), Flow::Continue));
+                                    // Return the value, since a reference might outlive
+                                    // the variable.
+                                    let v = self.get(&x);
+                                    if v == val {
+                                        return Ok((Some(v.clone()), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
@@ -1502,11 +1505,10 @@ impl Runtime {
                         for lazy in lz {
                             let ret = match *lazy {
                                 Lazy::Variable(ref val) => {
-                                    if self.get(&x) == val {
-                                        Some(x.clone())
-                                    } else {
-                                        None
-                                    }
+                                    // Return the value, since a reference might outlive
+                                    // the variable.
+                                    let v = self.get(&x);
+                                    if v == val { Some(v.clone()) } else { None }
                                 }
                                 Lazy::UnwrapOk => match self.get(&x) {
                                     Variable::Result(Ok(x)) => Some((**x).clone()),
-- 
2.43.0


From bd0e0a610ee38436a62f118cea2e16fee9448531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:51 +0000
Subject: [PATCH 09/56] fix: let `try` put a copy in its result instead of a
 reference

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 716beb1..7fd34ce 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -721,6 +721,8 @@ impl Runtime {
         let cu = self.current_stack.len();
         match self.expression(&try_expr.expr, Side::Right) {
             Ok((Some(x), Flow::Continue)) => {
+                // A result contains no reference, like the one of `ok(x)`.
+                let x = x.deep_clone(&self.stack);
                 Ok((Some(Variable::Result(Ok(Box::new(x)))), Flow::Continue))
             }
             Ok((None, Flow::Continue)) => self.err(try_expr.source_range, "Expected something"),
-- 
2.43.0


From 9c8b3fbc4b89cc553a8754059a41e01264ccff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:51 +0000
Subject: [PATCH 10/56] fix: do not return references inside the default value
 of unwrap_or

---
 src/dyon_std/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 7995f44..51e008b 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1703,7 +1703,7 @@ pub(crate) fn unwrap_or(rt: &mut Runtime) -> Result<Variable, String> {
     Ok(match rt.get(&v) {
         &Variable::Option(Some(ref v)) => (**v).clone(),
         &Variable::Result(Ok(ref ok)) => (**ok).clone(),
-        &Variable::Option(None) | &Variable::Result(Err(_)) => rt.get(&def).clone(),
+        &Variable::Option(None) | &Variable::Result(Err(_)) => def.deep_clone(&rt.stack),
         x => return Err(rt.expected_arg(0, x, "some(_) or ok(_)")),
     })
 }
-- 
2.43.0


From 4ddf75bd7d76ad561232550842308b91f5e62783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:27 +0000
Subject: [PATCH 11/56] fix: use the smallest lifetime among children, as
 documented

---
 src/lifetime/node.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 191095b..97db9cc 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -252,6 +252,7 @@ impl Node {
 
         // Pick the smallest lifetime among children.
         let mut min: Option<Lifetime> = None;
+        let mut failed_to_unify = false;
         // TODO: Filter by kind of children.
         let mut call_arg_ind = 0;
         for &c in &self.children {
@@ -376,15 +377,25 @@ impl Node {
             let lifetime = match nodes[c].lifetime(nodes, arg_names) {
                 Ok(lifetime) => lifetime,
                 Err(LifetimeError::None) => continue,
-                Err(LifetimeError::FailedToUnify) => return Err(LifetimeError::FailedToUnify),
+                Err(LifetimeError::FailedToUnify) => {
+                    failed_to_unify = true;
+                    continue;
+                }
             };
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Less)) => Some(lifetime),
-                Some(None) => return Err(LifetimeError::FailedToUnify),
+                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
+                Some(None) => {
+                    failed_to_unify = true;
+                    min
+                }
                 _ => min,
             };
         }
+        // A local variable has a smaller lifetime than anything else.
+        if failed_to_unify && !matches!(min, Some(Lifetime::Local(_))) {
+            return Err(LifetimeError::FailedToUnify);
+        }
         min.ok_or(LifetimeError::None)
     }
 }
-- 
2.43.0


From c6f2f339b318e398b50c0176ce6e862adc6b6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:54 +0000
Subject: [PATCH 12/56] fix: leave the runtime as it was when a call from the
 outside fails

---
 src/runtime/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 7fd34ce..1ddc4af 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -915,17 +915,8 @@ impl Runtime {
                         self,
                     ));
                 }
-                let loader = false;
-                match self.call_internal(&call, loader) {
-                    Ok(_) => {
-                        self.module = old_module;
-                        Ok(())
-                    }
-                    Err(x) => {
-                        self.module = old_module;
-                        Err(x)
-                    }
-                }
+                self.module = old_module;
+                self.call(&call, module).map(|_| ())
             }
             _ => {
                 self.module = old_module;
@@ -1230,9 +1221,18 @@ impl Runtime {
         // Keep track of the call state,
         // since `call` might be called from an external function.
         let call_stack_len = self.call_stack.len();
+        let st = self.stack.len();
+        let lc = self.local_stack.len();
+        let cu = self.current_stack.len();
         let res = self.call_internal(call, true);
         // Restore call state.
         self.call_stack.truncate(call_stack_len);
+        if res.is_err() {
+            // Remove what the failed call left behind.
+            self.stack.truncate(st);
+            self.local_stack.truncate(lc);
+            self.current_stack.truncate(cu);
+        }
         self.module = old_module;
         res
     }
-- 
2.43.0


From 1e6752489ddf72cfe73b3aa46ad3b8ce32316fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:30 +0000
Subject: [PATCH 13/56] fix: report a missing or unexpected return value of a
 function called from the outside

---
 src/runtime/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 1ddc4af..9b3eb07 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1654,13 +1654,14 @@ impl Runtime {
             _ => {}
         }
         self.pop_fn(info.name.clone());
+        // There is no caller when called from the outside.
+        let caller = self.call_stack.last().map(|c| c.index).unwrap_or(new_index);
         match (f.returns(), x) {
             (true, None) => {
                 match self.stack.pop().expect(TINVOTS) {
                     Variable::Return => {
                         let source = custom_source.as_ref().unwrap_or(
-                            &self.module.functions[self.call_stack.last()
-                                .expect(CSIE).index].source,
+                            &self.module.functions[caller].source,
                         );
                         Err(self.module.error_source(
                             info.source_range,
@@ -1681,8 +1682,7 @@ impl Runtime {
             }
             (false, Some(_)) => {
                 let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
+                    &self.module.functions[caller].source,
                 );
                 Err(self.module.error_source(
                     info.source_range,
@@ -1698,8 +1698,7 @@ impl Runtime {
                 // TODO: Could return the last value on the stack.
                 //       Requires .pop_fn delayed after.
                 let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
+                    &self.module.functions[caller].source,
                 );
                 Err(self.module.error_source(
                     info.source_range,
-- 
2.43.0


From 298c73e56ad5059cee36d1cd6d256ef27e0022c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:13 +0000
Subject: [PATCH 14/56] fix: do not block when a function called by name uses
 its own module

---
 src/dyon_std/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 51e008b..79e792d 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1429,7 +1429,9 @@ pub(crate) fn _call(rt: &mut Runtime) -> Result<(), String> {
         x => return Err(rt.expected_arg(0, x, "Module")),
     };
 
-    match obj.lock().unwrap().downcast_ref::<Arc<Module>>() {
+    // Do not hold the lock while calling, since the function might use the module.
+    let m = obj.lock().unwrap().downcast_ref::<Arc<Module>>().cloned();
+    match m.as_ref() {
         Some(m) => {
             let f_index = m.find_function(&fn_name, 0);
             match f_index {
@@ -1502,7 +1504,9 @@ pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
         x => return Err(rt.expected_arg(0, x, "Module")),
     };
 
-    let v = match obj.lock().unwrap().downcast_ref::<Arc<Module>>() {
+    // Do not hold the lock while calling, since the function might use the module.
+    let m = obj.lock().unwrap().downcast_ref::<Arc<Module>>().cloned();
+    let v = match m.as_ref() {
         Some(m) => {
             let f_index = m.find_function(&fn_name, 0);
             match f_index {
-- 
2.43.0


From 455a909c42b04d2905ea28b89a9ef41b09b6b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:05 +0000
Subject: [PATCH 15/56] fix: do not leave references to temporary arguments
 with a lifetime after a call

---
 src/lib.rs         | 11 +++++++++++
 src/runtime/mod.rs | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8ab4b30..8cbb69e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -276,6 +276,17 @@ impl Variable {
         }
     }
 
+    /// Returns `true` if the value refers to the stack at `st` or above.
+    fn has_ref_from(&self, st: usize) -> bool {
+        match *self {
+            Variable::Ref(ind) => ind >= st,
+            Variable::Array(ref arr) => arr.iter().any(|v| v.has_ref_from(st)),
+            Variable::Object(ref obj) => obj.values().any(|v| v.has_ref_from(st)),
+            // Other values do not contain references.
+            _ => false,
+        }
+    }
+
     fn deep_clone(&self, stack: &[Variable]) -> Variable {
         use Variable::*;
 
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 9b3eb07..d7e2198 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1653,6 +1653,7 @@ impl Runtime {
             }
             _ => {}
         }
+        let x = self.copy_temporaries(f, st, x);
         self.pop_fn(info.name.clone());
         // There is no caller when called from the outside.
         let caller = self.call_stack.last().map(|c| c.index).unwrap_or(new_index);
@@ -1720,6 +1721,43 @@ impl Runtime {
         }
     }
 
+    /// An argument with a lifetime can be a temporary value instead of a reference.
+    /// Since it is gone after the call, copies what refers to it.
+    fn copy_temporaries(
+        &mut self,
+        f: &ast::Function,
+        st: usize,
+        x: Option<Variable>,
+    ) -> Option<Variable> {
+        let temporary = f.args.iter().enumerate().any(|(i, arg)| {
+            arg.lifetime.is_some() && !matches!(self.stack[st + i], Variable::Ref(_))
+        });
+        if !temporary {
+            return x;
+        }
+        let mut outlives = vec![];
+        if f.returns() {
+            outlives.push(st - 1);
+        }
+        for (i, arg) in f.args.iter().enumerate() {
+            if let (true, &Variable::Ref(ind)) = (arg.mutable, &self.stack[st + i]) {
+                outlives.push(ind);
+            }
+        }
+        for ind in outlives {
+            if self.stack[ind].has_ref_from(st) {
+                self.stack[ind] = self.stack[ind].deep_clone(&self.stack);
+            }
+        }
+        x.map(|x| {
+            if x.has_ref_from(st) {
+                x.deep_clone(&self.stack)
+            } else {
+                x
+            }
+        })
+    }
+
     /// Used internally because loaded functions are looked up
     /// relative to the caller, which stores its index on the
     /// call stack.
-- 
2.43.0


From 89bf1ec5cac574a2fafe2aadfb8ecf7aa38acc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 16/56] fix: let `call_ret` return a copy instead of a
 reference of unknown lifetime

---
 src/dyon_std/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 79e792d..906fa11 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1551,7 +1551,8 @@ pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
             };
 
             if let Some(v) = rt.call(&call, m)?.0 {
-                v
+                // The lifetime checker does not know what the result refers to.
+                v.deep_clone(&rt.stack)
             } else {
                 return Err(format!("Expected some return value `{}`", fn_name));
             }
-- 
2.43.0


From 03c3553c657938d17e27c9a691f52667968daf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:31 +0000
Subject: [PATCH 17/56] fix: do not read freed memory when a text is added to
 itself with `+=`

---
 src/runtime/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index d7e2198..d506430 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2186,7 +2186,11 @@ impl Runtime {
                     match *r.0 {
                         Variable::Str(ref mut n) => match op {
                             Set => *n = b.clone(),
-                            Add => Arc::make_mut(n).push_str(b),
+                            Add => {
+                                // The text might be added to itself.
+                                let b = b.clone();
+                                Arc::make_mut(n).push_str(&b)
+                            }
                             _ => unimplemented!(),
                         },
                         Variable::Return => {
-- 
2.43.0


From e40c049e5cfa27dd6ac0a8ce8e97cc05f5bd0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:43 +0000
Subject: [PATCH 18/56] fix: report an error for compound assignments that have
 no meaning instead of crashing

---
 src/runtime/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index d506430..2800e29 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2157,7 +2157,12 @@ impl Runtime {
                         Variable::Bool(ref mut n, ref mut n_sec) => {
                             match op {
                                 Set => *n = b,
-                                _ => unimplemented!(),
+                                _ => {
+                                    return self.err(
+                                        left.source_range(),
+                                        "Can not use this assignment operator with `bool`",
+                                    )
+                                }
                             };
                             *n_sec = sec.clone();
                         }
@@ -2191,7 +2196,12 @@ impl Runtime {
                                 let b = b.clone();
                                 Arc::make_mut(n).push_str(&b)
                             }
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `text`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2220,7 +2230,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Object(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2239,7 +2252,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Array(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `array`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2258,7 +2274,12 @@ impl Runtime {
                             Set => *n = b.clone(),
                             Add => **n = n.add(b),
                             Sub => **n = b.add(n),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `link`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2276,7 +2297,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Option(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `option`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2295,7 +2319,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Result(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `result`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2314,7 +2341,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::RustObject(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `rust_object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2336,7 +2366,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Closure(b.clone(), env.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `closure`",
+                                );
                             }
                         }
                         Variable::Return => {
-- 
2.43.0


From c7c173adeb9afa013cb733dc5004ab8b4eeda648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:43 +0000
Subject: [PATCH 19/56] fix: report wrong argument types of `s`, `rv` and `cv`
 instead of crashing

---
 src/dyon_std/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 906fa11..9a9ebf1 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -326,12 +326,12 @@ pub(crate) fn norm(v: &Variable) -> Result<Variable, String> {
 }
 
 pub(crate) fn s(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let v: [f32; 4] = rt.pop_vec4().expect(TINVOTS);
+    let v: [f32; 4] = rt.pop_vec4()?;
     Ok(Variable::f64(f64::from(v[ind])))
 }
 
@@ -405,12 +405,12 @@ dyon_fn! {fn rz(m: Mat4) -> Vec4 {Vec4([m.0[0][2], m.0[1][2], m.0[2][2], m.0[3][
 dyon_fn! {fn rw(m: Mat4) -> Vec4 {Vec4([m.0[0][3], m.0[1][3], m.0[2][3], m.0[3][3]])}}
 
 pub(crate) fn rv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4([m[0][ind], m[1][ind], m[2][ind], m[3][ind]]))
 }
 
@@ -420,12 +420,12 @@ dyon_fn! {fn cz(m: Mat4) -> Vec4 {Vec4(m.0[2])}}
 dyon_fn! {fn cw(m: Mat4) -> Vec4 {Vec4(m.0[3])}}
 
 pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Mat4(Box::new(m)))
 }
 
-- 
2.43.0


From 6ad79d783c678778d9fd526c0258c31912427156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:45 +0000
Subject: [PATCH 20/56] fix: let `cv` return the column instead of the matrix

---
 src/dyon_std/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 9a9ebf1..239290b 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -426,7 +426,7 @@ pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
         return Err(format!("Index out of bounds `{}`", ind));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4()?;
-    Ok(Variable::Mat4(Box::new(m)))
+    Ok(Variable::Vec4(m[ind]))
 }
 
 pub(crate) fn clone(rt: &mut Runtime) -> Result<Variable, String> {
-- 
2.43.0


From 4dbaf18981b2cdeaf641ec1deb9bf992d2ae9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:22 +0000
Subject: [PATCH 21/56] fix: let unary minus negate only the next factor of a
 product

---
 assets/syntax.txt | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/assets/syntax.txt b/assets/syntax.txt
index 61c422d..d4ed0eb 100644
--- a/assets/syntax.txt
+++ b/assets/syntax.txt
@@ -107,7 +107,7 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
 26 text = .t?:"text"
 27 bool = [{"true":"bool" "false":!"bool"} !.._seps!]
 28 unop_not = [{"!" "¬"} ?w lexpr:"expr"]
-29 unop_neg = ["-" ?w mul_expr:"expr"]
+29 unop_neg = ["-" ?w neg_expr:"expr"]
 30 norm = ["|" ?w expr:"expr" ?w "|"]
 31 item = [?"~":"current" ?w .._seps!:"name" ?[?wn "?":"try_item"]
     ?item_extra:"item_extra"]
@@ -244,5 +244,8 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
 206 mul = .s!({* / %} {unop_neg:"neg" pow:"pow" lexpr:"expr"})
 207 mul_expr = {mul:"mul"}
 208 add = .s!({+ -} mul_expr:"expr")
+// Only negates the next factor, e.g. `a / -b / c` is `(a / -b) / c`.
+209 neg_expr = {neg_factor:"mul"}
+210 neg_factor = {unop_neg:"neg" pow:"pow" lexpr:"expr"}
 
 1000 document = [?[?w ns:"ns"] ?w ?uses:"uses" ?w .l({[.w? fn:"fn"] comment})]
-- 
2.43.0


From af2082fb3ad040c855be96ea45d61d2bea0064a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 22/56] fix: compare what references inside arrays and objects
 refer to

---
 src/runtime/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2800e29..2a07a52 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1338,8 +1338,18 @@ impl Runtime {
                 )
             }
         };
-        let left = self.get(&left);
-        let right = self.get(&right);
+        let mut left = self.get(&left);
+        let mut right = self.get(&right);
+        // Operators do not look up references inside arrays and objects.
+        let (left_copy, right_copy);
+        if left.has_ref_from(0) {
+            left_copy = left.deep_clone(&self.stack);
+            left = &left_copy;
+        }
+        if right.has_ref_from(0) {
+            right_copy = right.deep_clone(&self.stack);
+            right = &right_copy;
+        }
         Ok((
             Some((fun.0)(left, right).map_err(|err| {
                 let range = if let Some(ind) = self.arg_err_index.get() {
-- 
2.43.0


From 255166bd51d1cb43ef820a67cfe1f3e51e4d66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:46 +0000
Subject: [PATCH 23/56] fix: release the string that a push to the neck of a
 link overwrites

---
 src/link.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/link.rs b/src/link.rs
index 9761962..7e31881 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -49,6 +49,12 @@ impl Block {
 
         let i = k / 32;
         let j = k - i * 32;
+        if self.tys[i] >> (j * 2) & 0x3 == STR {
+            // Release the string that is overwritten, which happens when
+            // pushing to the neck of a link.
+            self.tys[i] &= !(0x3 << (j * 2));
+            unsafe { drop(transmute::<usize, Arc<String>>(self.data[k] as usize)) }
+        }
         match *var {
             Variable::Bool(val, _) => {
                 // Reset bits.
-- 
2.43.0


From 80fa6a990eb224ed6386a9e65fb13e92aaae363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:10 +0000
Subject: [PATCH 24/56] fix: let `?` return an error after `return` has been
 assigned

---
 src/runtime/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2a07a52..3dc10b2 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -62,6 +62,16 @@ pub struct Call {
     current_len: usize,
 }
 
+impl Call {
+    // Returns `true` if the called function or closure returns a value.
+    // The place of the return value is the first local named `return`.
+    fn returns(&self, local_stack: &[(Arc<String>, usize)]) -> bool {
+        local_stack[self.local_len..]
+            .iter()
+            .any(|(name, ind)| *name == *RETURN_TYPE && *ind + 1 == self.stack_len)
+    }
+}
+
 lazy_static! {
     pub(crate) static ref TEXT_TYPE: Arc<String> = Arc::new("string".into());
     pub(crate) static ref F64_TYPE: Arc<String> = Arc::new("number".into());
@@ -862,8 +872,7 @@ impl Runtime {
                         self,
                     ));
                 }
-                if let Variable::Return = self.stack[call.stack_len - 1] {
-                } else {
+                if !call.returns(&self.local_stack) {
                     return Err(self.module.error(
                         expr.source_range(),
                         &format!(
@@ -2460,7 +2469,7 @@ impl Runtime {
 
         #[inline(always)]
         fn try_fun(
-            stack: &mut Vec<Variable>,
+            local_stack: &[(Arc<String>, usize)],
             call_stack: &[Call],
             v: Result<Box<Variable>, Box<Error>>,
             source_range: Range,
@@ -2481,8 +2490,7 @@ impl Runtime {
                             call.index,
                         ));
                     }
-                    if let Variable::Return = stack[call.stack_len - 1] {
-                    } else {
+                    if !call.returns(local_stack) {
                         return Err(module.error_fnindex(
                             source_range,
                             &format!(
@@ -2604,7 +2612,7 @@ impl Runtime {
                     }
                 };
                 return try_fun(
-                    &mut self.stack,
+                    &self.local_stack,
                     &self.call_stack,
                     v,
                     item.source_range,
@@ -2629,6 +2637,7 @@ impl Runtime {
         let &mut Runtime {
             ref mut stack,
             ref mut call_stack,
+            ref local_stack,
             ..
         } = self;
         let mut expr_j = 0;
@@ -2687,8 +2696,7 @@ impl Runtime {
                                 call.index,
                             ));
                         }
-                        if let Variable::Return = stack[call.stack_len - 1] {
-                        } else {
+                        if !call.returns(local_stack) {
                             return Err(self.module.error_fnindex(
                                 item.ids[0].source_range(),
                                 &format!(
@@ -2763,8 +2771,7 @@ impl Runtime {
                                     call.index,
                                 ));
                             }
-                            if let Variable::Return = stack[call.stack_len - 1] {
-                            } else {
+                            if !call.returns(local_stack) {
                                 return Err(self.module.error_fnindex(
                                     prop.source_range(),
                                     &format!(
-- 
2.43.0


From d7a5f474279f0a198ab20ba9d375286a2f38149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:43 +0000
Subject: [PATCH 25/56] fix: apply `?` to a variable before looking up in it,
 and to elements that are references

---
 src/runtime/mod.rs | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 3dc10b2..8d760b5 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -152,6 +152,14 @@ fn unwrap_in_place(var: *mut Variable) -> *mut Variable {
     }
 }
 
+// Gets the variable that a reference refers to.
+fn resolve_in_place(var: *mut Variable, stack: &mut [Variable]) -> *mut Variable {
+    match unsafe { &*var } {
+        Variable::Ref(id) => &mut stack[*id],
+        _ => var,
+    }
+}
+
 // Looks up an item from a variable property.
 fn item_lookup(
     module: &Module,
@@ -2599,18 +2607,18 @@ impl Runtime {
         } else {
             stack_id
         };
-        if item.ids.is_empty() {
-            if item.try_flag {
-                // Check for `err(_)` or unwrap when `?` follows item.
-                let v = match Runtime::try_msg(&self.stack[stack_id]) {
-                    Some(v) => v,
-                    None => {
-                        return self.err(
-                            item.source_range,
-                            "Expected `ok(_)`, `err(_)`, `bool`, `f64`",
-                        )
-                    }
-                };
+        if item.try_flag {
+            // Check for `err(_)` or unwrap when `?` follows item.
+            let v = match Runtime::try_msg(&self.stack[stack_id]) {
+                Some(v) => v,
+                None => {
+                    return self.err(
+                        item.source_range,
+                        "Expected `ok(_)`, `err(_)`, `bool`, `f64`",
+                    )
+                }
+            };
+            if item.ids.is_empty() || v.is_err() {
                 return try_fun(
                     &self.local_stack,
                     &self.call_stack,
@@ -2618,9 +2626,9 @@ impl Runtime {
                     item.source_range,
                     &self.module,
                 );
-            } else {
-                return Ok((Some(Variable::Ref(stack_id)), Flow::Continue));
             }
+        } else if item.ids.is_empty() {
+            return Ok((Some(Variable::Ref(stack_id)), Flow::Continue));
         }
 
         // Pre-evaluate expressions for identity.
@@ -2648,10 +2656,16 @@ impl Runtime {
 
         let v = {
             let item_len = item.ids.len();
+            let first: *mut Variable = if item.try_flag {
+                // Look up in the value of `ok(_)` or `some(_)`.
+                unwrap_in_place(&mut stack[stack_id])
+            } else {
+                &mut stack[stack_id]
+            };
             // Get the first variable (a.x).y
             let mut var: *mut Variable = item_lookup(
                 &self.module,
-                &mut stack[stack_id],
+                first,
                 stack,
                 call_stack,
                 &item.ids[0],
@@ -2663,6 +2677,7 @@ impl Runtime {
             let mut try_id_ind = 0;
             if !item.try_ids.is_empty() && item.try_ids[try_id_ind] == 0 {
                 // Check for error on `?` for first id.
+                var = resolve_in_place(var, stack);
                 let v = unsafe {
                     match Runtime::try_msg(&*var) {
                         Some(v) => v,
@@ -2738,6 +2753,7 @@ impl Runtime {
 
                 if item.try_ids.len() > try_id_ind && item.try_ids[try_id_ind] == i + 1 {
                     // Check for error on `?` for rest of ids.
+                    var = resolve_in_place(var, stack);
                     let v = unsafe {
                         match Runtime::try_msg(&*var) {
                             Some(v) => v,
-- 
2.43.0


From ec382551129a61e0037dcba063de87ec72ada737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:03 +0000
Subject: [PATCH 26/56] fix: loops over a receiver without messages give the
 neutral value

---
 src/runtime/for_in.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/runtime/for_in.rs b/src/runtime/for_in.rs
index 10e389e..f663651 100644
--- a/src/runtime/for_in.rs
+++ b/src/runtime/for_in.rs
@@ -18,11 +18,12 @@ macro_rules! iter(
 );
 
 macro_rules! iter_val(
-    ($iter:ident, $rt:ident, $for_in_expr:ident) => {
+    ($iter:ident, $rt:ident, $for_in_expr:ident, $empty:expr) => {
         match $iter.lock() {
             Ok(x) => match x.try_recv() {
                 Ok(x) => x,
-                Err(_) => return Ok((None, Flow::Continue)),
+                // There is nothing to receive.
+                Err(_) => return Ok(($empty, Flow::Continue)),
             },
             Err(err) => {
                 return Err($rt.module.error($for_in_expr.source_range,
@@ -86,7 +87,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, None);
 
         // Initialize counter.
         self.local_stack
@@ -123,7 +124,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(0.0)));
 
         let mut sum = 0.0;
 
@@ -174,7 +175,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(1.0)));
 
         let mut prod = 1.0;
 
@@ -225,7 +226,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut min = ::std::f64::NAN;
         let mut sec = None;
@@ -293,7 +294,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut max = ::std::f64::NAN;
         let mut sec = None;
@@ -361,7 +362,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(false)));
 
         let mut any = false;
         let mut sec = None;
@@ -431,7 +432,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(true)));
 
         let mut all = true;
         let mut sec = None;
@@ -508,7 +509,7 @@ impl Runtime {
             let prev_lc = rt.local_stack.len();
 
             let iter = iter!(rt, for_in_expr);
-            let iter_val = iter_val!(iter, rt, for_in_expr);
+            let iter_val = iter_val!(iter, rt, for_in_expr, None);
 
             // Initialize counter.
             rt.local_stack
@@ -636,7 +637,7 @@ impl Runtime {
         let mut res: Vec<Variable> = vec![];
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::Array(Arc::new(vec![]))));
 
         // Initialize counter.
         self.local_stack
-- 
2.43.0


From fb9779cf9b65465d00c0b82e5a6cb5ffd9108640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:03 +0000
Subject: [PATCH 27/56] fix: send only the arguments of a call to receivers,
 not its current objects

---
 src/runtime/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 8d760b5..8a424a2 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1608,7 +1608,8 @@ impl Runtime {
 
         // Send arguments to senders.
         if f.senders.0.load(Ordering::Relaxed) {
-            let n = self.stack.len();
+            // The current objects come after the arguments.
+            let n = self.stack.len() - f.currents.len();
             let mut msg = Vec::with_capacity(n - st);
             for i in st..n {
                 msg.push(self.stack[i].deep_clone(&self.stack));
-- 
2.43.0


From f07abf61fe6d1b759de26e1c96fc96948085b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:28 +0000
Subject: [PATCH 28/56] fix: data that is written is read back unchanged, and
 only data is accepted

Numbers were read with rounding errors or rejected, control characters
were written raw in JSON strings, empty keys without quotes, colors were
not consumed, text after the value was ignored and a failing write at
the end of saving went unnoticed.
---
 src/dyon_std/data.rs | 34 +++++++++++++++++++++++++++-------
 src/dyon_std/mod.rs  |  6 ++++--
 src/write.rs         | 31 ++++++++++++++++++++++++++-----
 3 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 11f5822..2d33c7c 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -36,7 +36,12 @@ pub fn load_data(data: &str) -> Result<Variable, String> {
     let mut read = ReadToken::new(data, 0);
     let mut strings: Strings = HashSet::new();
     opt_w(&mut read);
-    expr(&mut read, &mut strings, data)
+    let res = expr(&mut read, &mut strings, data)?;
+    opt_w(&mut read);
+    if !read.src.is_empty() {
+        return Err(error(read.start(), "Expected end of file", data));
+    }
+    Ok(res)
 }
 
 static NUMBER_SETTINGS: NumberSettings = NumberSettings {
@@ -68,7 +73,10 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
         *read = read.consume(range.length);
         let (range, _) = read.until_any_or_whitespace(SEPS);
         let val = read.raw_string(range.length);
-        if let Some((rgb, a)) = rgb_maybe_a(&mut val.chars()) {
+        let color = rgb_maybe_a(&mut val.chars())
+            .filter(|&(_, a)| val.len() == if a.is_some() { 8 } else { 6 });
+        if let Some((rgb, a)) = color {
+            *read = read.consume(range.length);
             let v = [
                 f32::from(rgb[0]) / 255.0,
                 f32::from(rgb[1]) / 255.0,
@@ -108,7 +116,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     }
     // Number.
     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range.length) {
             Ok(val) => {
                 *read = read.consume(range.length);
                 return Ok(Variable::f64(val));
@@ -145,6 +153,18 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     Err(error(read.start(), "Reached end of file", data))
 }
 
+/// Parses number from n bytes.
+///
+/// Gives the nearest number, such that a number that was written is read back unchanged.
+fn parse_number(read: &ReadToken, n: usize) -> Result<f64, String> {
+    let text = read.raw_string(n).replace('_', "");
+    match text.parse::<f64>() {
+        Ok(val) if val.is_finite() => Ok(val),
+        Ok(_) => Err("The number is too large".into()),
+        Err(err) => Err(err.to_string()),
+    }
+}
+
 fn object(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Variable, String> {
     use std::collections::HashMap;
 
@@ -266,7 +286,7 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range.length) {
             Ok(x) => {
                 *read = read.consume(range.length);
                 x
@@ -278,7 +298,7 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     comma(read);
     let y = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range.length) {
             Ok(y) => {
                 *read = read.consume(range.length);
                 y
@@ -290,12 +310,12 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     let (z, w) = if comma(read) {
         if let Some(range) = read.number(&NUMBER_SETTINGS) {
-            match read.parse_number(&NUMBER_SETTINGS, range.length) {
+            match parse_number(read, range.length) {
                 Ok(z) => {
                     *read = read.consume(range.length);
                     comma(read);
                     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-                        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+                        match parse_number(read, range.length) {
                             Ok(w) => {
                                 *read = read.consume(range.length);
                                 (z, w)
diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 239290b..94229ec 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1949,7 +1949,7 @@ pub(crate) fn args_os(_rt: &mut Runtime) -> Result<Variable, String> {
 #[cfg(feature = "file")]
 pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
     use std::fs::File;
-    use std::io::BufWriter;
+    use std::io::{BufWriter, Write};
     use write::{write_variable, EscapeString};
 
     let file = rt.stack.pop().expect(TINVOTS);
@@ -1968,7 +1968,9 @@ pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
             })
         }
     };
-    let res = match write_variable(&mut f, rt, &data, EscapeString::Json, 0) {
+    let res = match write_variable(&mut f, rt, &data, EscapeString::Json, 0)
+        .and_then(|_| f.flush())
+    {
         Ok(()) => Ok(Box::new(Variable::Str(file))),
         Err(err) => Err(Box::new(Error {
             message: Variable::Str(Arc::new(format!(
diff --git a/src/write.rs b/src/write.rs
index 16b3c97..805c00f 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -1,4 +1,3 @@
-use piston_meta::json;
 use std::io;
 use crate::{ast, Runtime, Variable};
 
@@ -23,7 +22,7 @@ where
     match *v {
         Variable::Str(ref t) => match escape_string {
             EscapeString::Json => {
-                json::write_string(w, t)?;
+                write_string(w, t)?;
             }
             EscapeString::None => write!(w, "{}", t)?,
         },
@@ -99,10 +98,10 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if is_key(k) {
                     write!(w, "{}: ", k)?;
                 } else {
-                    json::write_string(w, k)?;
+                    write_string(w, k)?;
                     write!(w, ": ")?;
                 }
                 write_variable(w, rt, v, EscapeString::Json, tabs)?;
@@ -166,6 +165,28 @@ pub(crate) fn eprint_variable(rt: &Runtime, v: &Variable, escape_string: EscapeS
     write_variable(&mut io::stderr(), rt, v, escape_string, 0).unwrap();
 }
 
+/// Returns `true` if an object key can be written without quotes.
+fn is_key(key: &str) -> bool {
+    !key.is_empty() && key.chars().all(|c| c.is_alphanumeric() || c == '_')
+}
+
+/// Writes a string as JSON.
+fn write_string<W: io::Write>(w: &mut W, val: &str) -> Result<(), io::Error> {
+    write!(w, "\"")?;
+    for c in val.chars() {
+        match c {
+            '\\' => write!(w, "\\\\")?,
+            '"' => write!(w, "\\\"")?,
+            '\n' => write!(w, "\\n")?,
+            '\r' => write!(w, "\\r")?,
+            '\t' => write!(w, "\\t")?,
+            c if c < ' ' => write!(w, "\\u{:04x}", c as u32)?,
+            c => write!(w, "{}", c)?,
+        }
+    }
+    write!(w, "\"")
+}
+
 fn write_tabs<W: io::Write>(w: &mut W, tabs: u32) -> Result<(), io::Error> {
     for _ in 0..tabs {
         write!(w, "    ")?;
@@ -554,7 +575,7 @@ fn write_obj<W: io::Write>(
         if key_value.0.chars().all(|c| c.is_alphanumeric()) {
             write!(w, "{}: ", key_value.0)?;
         } else {
-            json::write_string(w, &key_value.0)?;
+            write_string(w, &key_value.0)?;
             write!(w, ": ")?;
         }
         write_expr(w, rt, &key_value.1, tabs + 1)?;
-- 
2.43.0


From 8b45a63895f8e0351418faabf124885a4ba05926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:12 +0000
Subject: [PATCH 29/56] fix: a closure prints as the text of a closure with the
 same behaviour

Parentheses, labels, current objects, namespace aliases, mutable marks,
`?` after items, array fills and zero vectors were left out or written
in a form that is read as something else.
---
 src/write.rs | 332 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 253 insertions(+), 79 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 805c00f..34547b3 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -78,6 +78,11 @@ where
                     for slice in &link.slices {
                         for i in slice.start..slice.end {
                             let v = slice.block.var(i);
+                            match v {
+                                // On the same line it would be read as a subtraction in code.
+                                Variable::F64(x, _) if x.is_sign_negative() => writeln!(w)?,
+                                _ => {}
+                            }
                             write_variable(w, rt, &v, EscapeString::Json, tabs)?;
                             write!(w, " ")?;
                         }
@@ -207,7 +212,18 @@ fn write_closure<W: io::Write>(
             write!(w, ", ")?;
         }
     }
-    write!(w, ") = ")?;
+    write!(w, ") ")?;
+    for (i, current) in closure.currents.iter().enumerate() {
+        write!(w, "{}", if i == 0 { "~ " } else { ", " })?;
+        if current.mutable {
+            write!(w, "mut ")?;
+        }
+        write!(w, "{}", current.name)?;
+    }
+    if !closure.currents.is_empty() {
+        write!(w, " ")?;
+    }
+    write!(w, "= ")?;
     write_expr(w, rt, &closure.expr, tabs)?;
     Ok(())
 }
@@ -233,19 +249,19 @@ fn write_expr<W: io::Write>(
         E::Object(ref obj) => write_obj(w, rt, obj, tabs)?,
         E::Array(ref arr) => write_arr(w, rt, arr, tabs)?,
         E::ArrayFill(ref arr_fill) => write_arr_fill(w, rt, arr_fill, tabs)?,
-        E::Call(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallVoid(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallReturn(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::Call(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallVoid(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallReturn(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
         E::CallBinOp(ref call) => write_call(
             w,
             rt,
-            &call.info.name,
+            &call.info,
             &[call.left.clone(), call.right.clone()],
             tabs,
         )?,
-        E::CallUnOp(ref call) => write_call(w, rt, &call.info.name, &[call.arg.clone()], tabs)?,
-        E::CallLazy(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallLoaded(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::CallUnOp(ref call) => write_call(w, rt, &call.info, &[call.arg.clone()], tabs)?,
+        E::CallLazy(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallLoaded(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
         E::Return(ref expr) => {
             write!(w, "return ")?;
             write_expr(w, rt, expr, tabs)?;
@@ -265,11 +281,19 @@ fn write_expr<W: io::Write>(
                 write!(w, "continue")?;
             }
         }
-        E::Block(ref b) => write_block(w, rt, b, tabs)?,
+        E::Block(ref b) => match b.expressions[..] {
+            // Without parentheses the label would be read as the key of an object.
+            [ref expr] if label(expr).is_some() => {
+                write!(w, "{{ (")?;
+                write_expr(w, rt, expr, tabs + 1)?;
+                write!(w, ") }}")?;
+            }
+            _ => write_block(w, rt, b, tabs)?,
+        },
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::Go(ref go) => {
             write!(w, "go ")?;
-            write_call(w, rt, &go.call.info.name, &go.call.args, tabs)?;
+            write_fn_call(w, rt, &go.call.info, &go.call.args, tabs)?;
         }
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::Go(ref go) => match **go {},
@@ -278,11 +302,13 @@ fn write_expr<W: io::Write>(
         E::Mat4(ref mat4) => write_mat4(w, rt, mat4, tabs)?,
         E::For(ref f) => write_for(w, rt, f, tabs)?,
         E::ForN(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "for ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ForIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "for ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
@@ -297,88 +323,106 @@ fn write_expr<W: io::Write>(
         E::AllIn(ref for_in) |
         E::LinkIn(ref for_in) => match **for_in {},
         E::Sum(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "sum ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SumIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "sum ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::SumVec4(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "sum_vec4 ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         E::Prod(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "prod ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ProdIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "prod ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::ProdVec4(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "prod_vec4 ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         E::Min(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "min ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MinIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "min ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Max(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "max ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MaxIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "max ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Sift(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "sift ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SiftIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "sift ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Any(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "any ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AnyIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "any ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::All(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "all ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AllIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "all ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::LinkFor(ref for_n) => {
+            write_label(w, &for_n.label)?;
             write!(w, "link ")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::LinkIn(ref for_in) => {
+            write_label(w, &for_in.label)?;
             write!(w, "link ")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::If(ref if_expr) => write_if(w, rt, if_expr, tabs)?,
         E::Try(ref expr) => {
-            write_expr(w, rt, expr, tabs)?;
+            write_operand(w, rt, expr, tabs)?;
             write!(w, "?")?;
         }
         E::Swizzle(ref swizzle) => write_swizzle(w, rt, swizzle, tabs)?,
@@ -388,7 +432,11 @@ fn write_expr<W: io::Write>(
         E::CallClosure(ref call) => write_call_closure(w, rt, call, tabs)?,
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::In(ref in_expr) => {
-            write!(w, "in {}", in_expr.name)?;
+            write!(w, "in ")?;
+            if let Some(ref alias) = in_expr.alias {
+                write!(w, "{}::", alias)?;
+            }
+            write!(w, "{}", in_expr.name)?;
         } // x => panic!("Unimplemented `{:#?}`", x),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::In(ref in_expr) => match **in_expr {},
@@ -403,11 +451,110 @@ fn write_norm<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "|")?;
-    write_expr(w, rt, expr, tabs)?;
+    write_operand(w, rt, expr, tabs)?;
     write!(w, "|")?;
     Ok(())
 }
 
+/// Writes the label of a loop.
+fn write_label<W: io::Write>(w: &mut W, label: &Option<Arc<String>>) -> Result<(), io::Error> {
+    if let Some(ref label) = *label {
+        write!(w, "'{}: ", label)?;
+    }
+    Ok(())
+}
+
+/// Returns the label of a loop.
+fn label(expr: &ast::Expression) -> Option<&Arc<String>> {
+    use ast::Expression as E;
+
+    match *expr {
+        E::For(ref f) => f.label.as_ref(),
+        E::ForN(ref f)
+        | E::Sum(ref f)
+        | E::SumVec4(ref f)
+        | E::Prod(ref f)
+        | E::ProdVec4(ref f)
+        | E::Min(ref f)
+        | E::Max(ref f)
+        | E::Sift(ref f)
+        | E::Any(ref f)
+        | E::All(ref f)
+        | E::LinkFor(ref f) => f.label.as_ref(),
+        #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
+        E::ForIn(ref f)
+        | E::SumIn(ref f)
+        | E::ProdIn(ref f)
+        | E::MinIn(ref f)
+        | E::MaxIn(ref f)
+        | E::SiftIn(ref f)
+        | E::AnyIn(ref f)
+        | E::AllIn(ref f)
+        | E::LinkIn(ref f) => f.label.as_ref(),
+        _ => None,
+    }
+}
+
+/// Returns `true` if an expression can be an operand without parentheses.
+fn is_atom(expr: &ast::Expression) -> bool {
+    use ast::Expression as E;
+
+    let fn_call = |info: &ast::CallInfo, n: usize| !is_operator(info, n);
+    match *expr {
+        E::Item(_) | E::Vec4(_) | E::Link(_) | E::Mat4(_) | E::Grab(_) | E::TryExpr(_)
+        | E::CallClosure(_) => true,
+        E::Variable(ref range_var) => match range_var.1 {
+            Variable::F64(x, _) => !x.is_sign_negative(),
+            Variable::Array(_) | Variable::Object(_) | Variable::Closure(..) => false,
+            _ => true,
+        },
+        E::Call(ref call) => fn_call(&call.info, call.args.len()),
+        E::CallVoid(ref call) => fn_call(&call.info, call.args.len()),
+        E::CallReturn(ref call) => fn_call(&call.info, call.args.len()),
+        E::CallLazy(ref call) => fn_call(&call.info, call.args.len()),
+        E::CallLoaded(ref call) => fn_call(&call.info, call.args.len()),
+        E::CallUnOp(ref call) => fn_call(&call.info, 1),
+        _ => false,
+    }
+}
+
+/// Returns `true` if a call is written as an operator, not counting norm.
+fn is_operator(info: &ast::CallInfo, n: usize) -> bool {
+    info.alias.is_none()
+        && match n {
+            1 => matches!(&**info.name, "not" | "neg"),
+            2 => standard_binop(&info.name).is_some(),
+            _ => false,
+        }
+}
+
+/// Writes an operand, with parentheses when it is not read as a whole without them.
+fn write_operand<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    expr: &ast::Expression,
+    tabs: u32,
+) -> Result<(), io::Error> {
+    write_paren(w, rt, expr, tabs, !is_atom(expr))
+}
+
+fn write_paren<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    expr: &ast::Expression,
+    tabs: u32,
+    parens: bool,
+) -> Result<(), io::Error> {
+    if parens {
+        write!(w, "(")?;
+    }
+    write_expr(w, rt, expr, tabs)?;
+    if parens {
+        write!(w, ")")?;
+    }
+    Ok(())
+}
+
 fn write_block<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
@@ -440,26 +587,21 @@ fn write_block<W: io::Write>(
 fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bool {
     use ast::Expression as E;
 
-    let binop: ast::BinOp = match *expr {
-        E::Call(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallBinOp(ref call) => match standard_binop(&call.info.name,
-            &[call.left.clone(), call.right.clone()])
-        {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallLazy(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallReturn(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        _ => return false
+    let binop = |info: &ast::CallInfo, n: usize| match n {
+        2 if info.alias.is_none() => standard_binop(&info.name),
+        _ => None,
+    };
+    let binop: Option<ast::BinOp> = match *expr {
+        E::Call(ref call) => binop(&call.info, call.args.len()),
+        E::CallBinOp(ref call) => binop(&call.info, 2),
+        E::CallLazy(ref call) => binop(&call.info, call.args.len()),
+        E::CallReturn(ref call) => binop(&call.info, call.args.len()),
+        E::CallLoaded(ref call) => binop(&call.info, call.args.len()),
+        _ => None,
+    };
+    let binop = match binop {
+        Some(binop) => binop,
+        None => return !is_atom(expr),
     };
     match (op.precedence(), binop.precedence()) {
         (ast::BINOP_PREC_POW, _) => true,
@@ -467,6 +609,7 @@ fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bo
         (ast::BINOP_PREC_MUL, ast::BINOP_PREC_MUL) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_ADD) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_EQ) => true,
+        (ast::BINOP_PREC_EQ, _) => !right,
         _ => false,
     }
 }
@@ -482,22 +625,9 @@ fn write_binop<W: io::Write>(
     let left_needs_parens = binop_needs_parens(op, left, false);
     let right_needs_parens = binop_needs_parens(op, right, true);
 
-    if left_needs_parens {
-        write!(w, "(")?;
-    }
-    write_expr(w, rt, left, tabs)?;
-    if left_needs_parens {
-        write!(w, ")")?;
-    }
+    write_paren(w, rt, left, tabs, left_needs_parens)?;
     write!(w, " {} ", op.symbol())?;
-    if right_needs_parens {
-        write!(w, "(")?;
-    }
-    write_expr(w, rt, right, tabs)?;
-    if right_needs_parens {
-        write!(w, ")")?;
-    }
-    Ok(())
+    write_paren(w, rt, right, tabs, right_needs_parens)
 }
 
 fn write_not<W: io::Write>(
@@ -507,7 +637,7 @@ fn write_not<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "!")?;
-    write_expr(w, rt, expr, tabs)
+    write_operand(w, rt, expr, tabs)
 }
 
 fn write_neg<W: io::Write>(
@@ -517,7 +647,7 @@ fn write_neg<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "-")?;
-    write_expr(w, rt, expr, tabs)
+    write_operand(w, rt, expr, tabs)
 }
 
 fn write_item<W: io::Write>(
@@ -532,9 +662,17 @@ fn write_item<W: io::Write>(
         write!(w, "~ ")?;
     }
     write!(w, "{}", item.name)?;
+    if item.try_flag {
+        write!(w, "?")?;
+    }
     for (i, id) in item.ids.iter().enumerate() {
         match *id {
-            Id::String(_, ref prop) => write!(w, ".{}", prop)?,
+            Id::String(_, ref prop) if is_key(prop) => write!(w, ".{}", prop)?,
+            Id::String(_, ref prop) => {
+                write!(w, "[")?;
+                write_string(w, prop)?;
+                write!(w, "]")?;
+            }
             Id::F64(_, ind) => write!(w, "[{}]", ind)?,
             Id::Expression(ref expr) => {
                 write!(w, "[")?;
@@ -555,9 +693,18 @@ fn write_link<W: io::Write>(
     link: &ast::Link,
     tabs: u32,
 ) -> Result<(), io::Error> {
+    // An item on the same line could be read as a continuation of the previous item.
+    let literals = link.items.iter().all(|item| match *item {
+        ast::Expression::Variable(_) => is_atom(item),
+        _ => false,
+    });
     write!(w, "link {{ ")?;
-    for item in &link.items {
-        write_expr(w, rt, item, tabs)?;
+    for (i, item) in link.items.iter().enumerate() {
+        if i > 0 && !literals {
+            writeln!(w)?;
+            write_tabs(w, tabs + 1)?;
+        }
+        write_expr(w, rt, item, tabs + 1)?;
         write!(w, " ")?;
     }
     write!(w, "}}")?;
@@ -572,7 +719,7 @@ fn write_obj<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "{{")?;
     for (i, key_value) in obj.key_values.iter().enumerate() {
-        if key_value.0.chars().all(|c| c.is_alphanumeric()) {
+        if is_key(&key_value.0) {
             write!(w, "{}: ", key_value.0)?;
         } else {
             write_string(w, &key_value.0)?;
@@ -590,29 +737,54 @@ fn write_obj<W: io::Write>(
 fn write_call<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
-    name: &Arc<String>,
+    info: &ast::CallInfo,
     args: &[ast::Expression],
     tabs: u32,
 ) -> Result<(), io::Error> {
-    if &**name == "norm" && args.len() == 1 {
-        write_norm(w, rt, &args[0], tabs)
-    } else if &**name == "not" && args.len() == 1 {
-        write_not(w, rt, &args[0], tabs)
-    } else if &**name == "neg" && args.len() == 1 {
-        write_neg(w, rt, &args[0], tabs)
-    } else if let Some(op) = standard_binop(name, args) {
-        write_binop(w, rt, op, &args[0], &args[1], tabs)
-    } else {
-        write!(w, "{}(", name)?;
-        for (i, arg) in args.iter().enumerate() {
-            write_expr(w, rt, arg, tabs)?;
-            if i + 1 < args.len() {
-                write!(w, ", ")?;
+    if info.alias.is_some() {
+        return write_fn_call(w, rt, info, args, tabs);
+    }
+    match *args {
+        [ref arg] if &**info.name == "norm" => return write_norm(w, rt, arg, tabs),
+        [ref arg] if &**info.name == "not" => return write_not(w, rt, arg, tabs),
+        [ref arg] if &**info.name == "neg" => return write_neg(w, rt, arg, tabs),
+        [ref left, ref right] => {
+            if let Some(op) = standard_binop(&info.name) {
+                return write_binop(w, rt, op, left, right, tabs);
             }
         }
-        write!(w, ")")?;
-        Ok(())
+        _ => {}
+    }
+    write_fn_call(w, rt, info, args, tabs)
+}
+
+fn write_fn_call<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    info: &ast::CallInfo,
+    args: &[ast::Expression],
+    tabs: u32,
+) -> Result<(), io::Error> {
+    // The name of a call with mutable arguments ends with e.g. `(mut,_)`.
+    let (name, muts) = match info.name.find('(') {
+        Some(pos) => info.name.split_at(pos),
+        None => (&**info.name, ""),
+    };
+    let mut muts = muts.trim_matches(|c| c == '(' || c == ')').split(',');
+    if let Some(ref alias) = info.alias {
+        write!(w, "{}::", alias)?;
+    }
+    write!(w, "{}(", name)?;
+    for (i, arg) in args.iter().enumerate() {
+        if muts.next() == Some("mut") {
+            write!(w, "mut ")?;
+        }
+        write_expr(w, rt, arg, tabs)?;
+        if i + 1 < args.len() {
+            write!(w, ", ")?;
+        }
     }
+    write!(w, ")")
 }
 
 fn write_call_closure<W: io::Write>(
@@ -659,7 +831,7 @@ fn write_arr_fill<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "[")?;
     write_expr(w, rt, &arr_fill.fill, tabs + 1)?;
-    write!(w, ", ")?;
+    write!(w, "; ")?;
     write_expr(w, rt, &arr_fill.n, tabs + 1)?;
     write!(w, "]")?;
     Ok(())
@@ -684,7 +856,7 @@ fn write_vec4<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     let mut n = vec4.args.len();
-    for expr in vec4.args.iter().rev() {
+    for expr in vec4.args[1..].iter().rev() {
         if let ast::Expression::Variable(ref range_var) = *expr {
             if let (_, Variable::F64(num, _)) = **range_var {
                 if num == 0.0 {
@@ -762,6 +934,7 @@ fn write_for<W: io::Write>(
     f: &ast::For,
     tabs: u32,
 ) -> Result<(), io::Error> {
+    write_label(w, &f.label)?;
     if let ast::Expression::Block(ref b) = f.init {
         if b.expressions.is_empty() {
             if let ast::Expression::Variable(ref range_var) = f.cond {
@@ -791,13 +964,9 @@ fn write_for<W: io::Write>(
     Ok(())
 }
 
-fn standard_binop(name: &Arc<String>, args: &[ast::Expression]) -> Option<ast::BinOp> {
+fn standard_binop(name: &Arc<String>) -> Option<ast::BinOp> {
     use crate::ast::BinOp::*;
 
-    if args.len() != 2 {
-        return None;
-    };
-
     let name: &str = &**name;
     Some(match name {
         "dot" => Dot,
@@ -834,7 +1003,12 @@ fn write_for_n<W: io::Write>(
         write_expr(w, rt, &for_n.end, tabs)?;
         write!(w, ") ")?;
     } else {
-        write_expr(w, rt, &for_n.end, tabs)?;
+        // A block or an object would be read as the body of the loop.
+        let parens = match for_n.end {
+            ast::Expression::Block(_) | ast::Expression::Object(_) => true,
+            _ => false,
+        };
+        write_paren(w, rt, &for_n.end, tabs, parens)?;
         write!(w, " ")?;
     }
     write_block(w, rt, &for_n.block, tabs + 1)?;
-- 
2.43.0


From b4964b46e35f593cf3e91284bf7aa4cebbd5c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:27 +0000
Subject: [PATCH 30/56] fix: joining what is not a thread leaves the variable
 unchanged

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8cbb69e..d0b2433 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -131,12 +131,10 @@ impl Thread {
             Variable::Ref(ind) => {
                 use std::mem::replace;
 
-                match replace(
-                    &mut rt.stack[ind],
-                    Variable::Thread(Thread { handle: None }),
-                ) {
-                    Variable::Thread(th) => th,
-                    x => return Err(rt.expected(&x, "Thread")),
+                if let Variable::Thread(ref mut th) = rt.stack[ind] {
+                    replace(th, Thread { handle: None })
+                } else {
+                    return Err(rt.expected(&rt.stack[ind], "Thread"));
                 }
             }
             Variable::Thread(thread) => thread,
-- 
2.43.0


From 72134dfe66d51062b32679b53ba6e71c61d10ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:11 +0000
Subject: [PATCH 31/56] fix: a call on a new thread uses the alias of its
 function

---
 src/ast/mod.rs     | 28 +++++++++++++++++-----------
 src/runtime/mod.rs |  3 +--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index c8438d5..bac2066 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2554,6 +2554,7 @@ impl Go {
         use_lookup: &UseLookup,
     ) {
         let st = stack.len();
+        self.call.f_index = self.call.find_function(relative, module, use_lookup);
         for arg in &mut self.call.args {
             let st = stack.len();
             arg.get_locals(relative, stack, closure_stack, module, use_lookup);
@@ -2830,14 +2831,8 @@ impl Call {
         ))
     }
 
-    fn get_locals(
-        &mut self,
-        relative: usize,
-        stack: &mut Vec<Option<Arc<String>>>,
-        closure_stack: &mut Vec<usize>,
-        module: &Module,
-        use_lookup: &UseLookup,
-    ) {
+    /// Finds the function that is called, using the alias if there is one.
+    fn find_function(&self, relative: usize, module: &Module, use_lookup: &UseLookup) -> FnIndex {
         use crate::{
             FnBinOpRef,
             FnExt,
@@ -2846,8 +2841,7 @@ impl Call {
             FnVoidRef,
         };
 
-        let st = stack.len();
-        let f_index = if let Some(ref alias) = self.info.alias {
+        if let Some(ref alias) = self.info.alias {
             if let Some(&i) = use_lookup
                 .aliases
                 .get(alias)
@@ -2870,7 +2864,19 @@ impl Call {
             }
         } else {
             module.find_function(&self.info.name, relative)
-        };
+        }
+    }
+
+    fn get_locals(
+        &mut self,
+        relative: usize,
+        stack: &mut Vec<Option<Arc<String>>>,
+        closure_stack: &mut Vec<usize>,
+        module: &Module,
+        use_lookup: &UseLookup,
+    ) {
+        let st = stack.len();
+        let f_index = self.find_function(relative, module, use_lookup);
         self.f_index = f_index;
         match f_index {
             FnIndex::Loaded(f_index) => {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 8a424a2..9a49493 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -978,9 +978,8 @@ impl Runtime {
 
         let n = go.call.args.len();
         let mut stack = vec![];
-        let relative = self.call_stack.last().map(|c| c.index).expect(CSIE);
         let mut fake_call = ast::Call {
-            f_index: self.module.find_function(&go.call.info.name, relative),
+            f_index: go.call.f_index,
             args: Vec::with_capacity(n),
             custom_source: None,
             info: go.call.info.clone(),
-- 
2.43.0


From 68b7beaa56674650896f8ff33a63504b1b0220c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:59 +0000
Subject: [PATCH 32/56] fix: do not accept a plain number or boolean with an
 ad-hoc type as a secret

---
 src/ty.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index c82956f..351f35d 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -334,11 +334,11 @@ impl Type {
     pub fn goes_with(&self, other: &Type) -> bool {
         use self::Type::*;
 
-        // Invert the order because of complex ad-hoc logic.
-        if let AdHoc(_, _) = *other {
+        // An ad-hoc type goes with a plain type when its inner type does.
+        if let AdHoc(_, ref other_ty) = *other {
             if let AdHoc(_, _) = *self {
             } else {
-                return other.goes_with(self);
+                return *self != Void && self.goes_with(other_ty);
             }
         }
         if let Secret(ref other_ty) = *other {
-- 
2.43.0


From d629a9a7be9de18e442679b6591150ce45ed5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:15 +0000
Subject: [PATCH 33/56] fix: reject assigning with := to an item of an argument
 or current object not declared mutable

---
 src/lifetime/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 34bb68f..ad7d9b4 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1091,7 +1091,8 @@ pub(crate) fn check_core(
     }
 
     // Check that mutable locals are not immutable arguments.
-    for &(_, i) in &mutated_locals {
+    // Assigning with `:=` to an object or array mutates it as well.
+    for &(_, i) in mutated_locals.iter().chain(assigned_locals.iter()) {
         if let Some(decl) = nodes[i].declaration {
             if (nodes[decl].kind == Kind::Arg || nodes[decl].kind == Kind::Current)
                 && !nodes[decl].mutable
-- 
2.43.0


From 0a169bd3b58491bca4a681ac8650e01f283b19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:56 +0000
Subject: [PATCH 34/56] fix: leave the module as it was when loading fails

---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d0b2433..83036a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -670,6 +670,9 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
         lifetime::check(&check_data, &prelude)
     });
 
+    // Keep the functions to restore the module if loading fails.
+    let functions = module.functions.clone();
+
     // Convert to AST.
     let mut ignored = vec![];
     let conv_res = ast::convert(
@@ -694,6 +697,8 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
             use piston_meta::ParseErrorHandler;
             use std::io::Write;
 
+            module.functions = functions;
+
             let (range, msg) = err_msg.decouple();
 
             let mut buf: Vec<u8> = vec![];
@@ -705,7 +710,11 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
         }
     }
 
-    check_ignored_meta_data(conv_res, source, &d, &data, &ignored)
+    let res = check_ignored_meta_data(conv_res, source, &d, &data, &ignored);
+    if res.is_err() {
+        module.functions = functions;
+    }
+    res
 }
 
 /// Loads a source from meta data.
@@ -716,6 +725,9 @@ pub fn load_meta(
     data: &[Range<MetaData>],
     module: &mut Module,
 ) -> Result<(), String> {
+    // Keep the functions to restore the module if loading fails.
+    let functions = module.functions.clone();
+
     // Convert to AST.
     let mut ignored = vec![];
     let conv_res = ast::convert(
@@ -726,7 +738,11 @@ pub fn load_meta(
         module,
     );
 
-    check_ignored_meta_data(conv_res, source, &d, data, &ignored)
+    let res = check_ignored_meta_data(conv_res, source, &d, data, &ignored);
+    if res.is_err() {
+        module.functions = functions;
+    }
+    res
 }
 
 fn check_ignored_meta_data(
-- 
2.43.0


From 1b7cfbf9542e5e606a2ec80fb09ab7b2d20afbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 35/56] fix: do not crash while converting calls with a wrong
 number of arguments or a loop without range

---
 src/ast/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index bac2066..e01f476 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -1354,7 +1354,7 @@ impl Expression {
                 result = Some(Expression::If(Box::new(val)));
             } else if let Ok((range, _)) = convert.meta_bool("try") {
                 convert.update(range);
-                result = Some(Expression::Try(Box::new(result.unwrap())));
+                result = Some(Expression::Try(Box::new(result.ok_or(())?)));
             } else if let Ok((range, val)) = Swizzle::from_meta_data(file, source, convert, ignored)
             {
                 convert.update(range);
@@ -1589,7 +1589,8 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
-                    FnIndex::BinOp(f) => {
+                    // Wrong number of arguments is reported by the lifetime checker.
+                    FnIndex::BinOp(f) if call.args.len() == 2 => {
                         *self = Expression::CallBinOp(Box::new(self::CallBinOp {
                             left: call.args[0].clone(),
                             right: call.args[1].clone(),
@@ -1597,7 +1598,7 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
-                    FnIndex::UnOp(f) => {
+                    FnIndex::UnOp(f) if call.args.len() == 1 => {
                         *self = Expression::CallUnOp(Box::new(self::CallUnOp {
                             arg: call.args[0].clone(),
                             fun: f,
@@ -1620,7 +1621,7 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
-                    FnIndex::None => {}
+                    FnIndex::BinOp(_) | FnIndex::UnOp(_) | FnIndex::None => {}
                 }
             }
             CallVoid(_) => unimplemented!("`CallVoid` is transformed from `Call`"),
-- 
2.43.0


From d1ede578a76847f836393894cc006f0cc9483ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 36/56] fix: report a mutable argument of a closure call as an
 error instead of crashing

---
 src/lifetime/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index ad7d9b4..f566b27 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -169,6 +169,11 @@ pub(crate) fn check_core(
             (nodes[arg].kind == Kind::Arg || nodes[arg].kind == Kind::CallArg) && nodes[arg].mutable
         });
         if mutable_args {
+            if nodes[i].kind == Kind::CallClosure {
+                return Err(nodes[i]
+                    .source
+                    .wrap("Closures do not take mutable arguments".to_string()));
+            }
             let mut name_plus_args = String::from(&***nodes[i].name().unwrap());
             name_plus_args.push('(');
             let mut first = true;
-- 
2.43.0


From 2741acf3d545deace33e22d4b48a8d291acf7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:29 +0000
Subject: [PATCH 37/56] fix: report assigning to something that is not a
 variable as an error instead of crashing

---
 src/lifetime/mod.rs | 7 ++++++-
 src/runtime/mod.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index f566b27..74202c4 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -322,7 +322,12 @@ pub(crate) fn check_core(
     let mutated_locals: Vec<(usize, usize)> = nodes
         .iter()
         .enumerate()
-        .filter(|&(_, n)| n.op.is_some() && n.op != Some(AssignOp::Assign))
+        .filter(|&(_, n)| {
+            n.op.is_some()
+                && n.op != Some(AssignOp::Assign)
+                && !n.children.is_empty()
+                && !nodes[n.children[0]].children.is_empty()
+        })
         .map(|(i, n)| {
             // Left argument.
             let j = n.children[0];
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 9a49493..fb7bea4 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2052,7 +2052,12 @@ impl Runtime {
                     r
                 }
                 Variable::Ref(ind) => UnsafeRef(&mut self.stack[ind] as *mut Variable),
-                x => panic!("Expected reference, found `{}`", x.typeof_var()),
+                x => {
+                    return self.err(
+                        left.source_range(),
+                        &format!("Expected reference, found `{}`", x.typeof_var()),
+                    )
+                }
             };
 
             match *self.get(&b) {
-- 
2.43.0


From 34fc1ad31fb95b68207a1117eb5366e707beaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 38/56] fix: suggest functions in a stable order and without
 cutting names inside a character

---
 src/lifetime/mod.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 74202c4..648b6b1 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1172,23 +1172,19 @@ fn suggestions(
     function_lookup: &HashMap<Arc<String>, usize>,
     prelude: &Prelude,
 ) -> String {
-    let search_name = if let Some((mut_pos, _)) = name.chars().enumerate().find(|&(_, c)| c == '(')
-    {
-        &name[..mut_pos - 1]
+    let search_name = if let Some(mut_pos) = name.find('(') {
+        &name[..mut_pos]
     } else {
         name
     };
     let mut found_suggestions = false;
     let mut suggestions = String::from("\n\nDid you mean:\n");
-    for f in function_lookup.keys() {
-        if (&***f).starts_with(search_name) {
-            suggestions.push_str("- ");
-            suggestions.push_str(f);
-            suggestions.push('\n');
-            found_suggestions = true;
-        }
-    }
-    for f in prelude.functions.keys() {
+    // Sort names to get the same message every time.
+    let mut local_names: Vec<_> = function_lookup.keys().collect();
+    local_names.sort();
+    let mut prelude_names: Vec<_> = prelude.functions.keys().collect();
+    prelude_names.sort();
+    for f in local_names.into_iter().chain(prelude_names) {
         if (&***f).starts_with(search_name) {
             suggestions.push_str("- ");
             suggestions.push_str(f);
-- 
2.43.0


From 58f23e0fbd5d0c665cb699736d1f6ee38ae20366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:42 +0000
Subject: [PATCH 39/56] fix: do not crash while converting `?` after an index
 that could not be converted

---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index e01f476..a53dc1e 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2425,7 +2425,7 @@ impl Item {
             } else if let Ok((range, _)) = convert.meta_bool("try_id") {
                 convert.update(range);
                 // id is pushed before the `?` operator, therefore subtract 1.
-                try_ids.push(ids.len() - 1);
+                try_ids.push(ids.len().checked_sub(1).ok_or(())?);
             } else {
                 let range = convert.ignore();
                 convert.update(range);
-- 
2.43.0


From cb8c36a094dbd0774182a72270a918ac6b36e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:27 +0000
Subject: [PATCH 40/56] fix: report the same type error every time a program is
 loaded

---
 src/lifetime/typecheck.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 25ccec8..4a14143 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -48,13 +48,14 @@ pub(crate) fn run(
     prelude: &Prelude,
     use_lookup: &UseLookup,
 ) -> Result<(), Range<String>> {
-    use std::collections::HashMap;
+    use std::collections::BTreeMap;
 
     // Keep an extra todo-list for nodes that are affected by type refinement.
     let mut todo: Vec<usize> = (0..nodes.len()).collect();
     // Keep an extra delay-errors map for nodes that should not report an error after all,
     // if the type refined turned out to match.
-    let mut delay_errs: HashMap<usize, Range<String>> = HashMap::new();
+    // Ordered to report the same error every time.
+    let mut delay_errs: BTreeMap<usize, Range<String>> = BTreeMap::new();
     // Type propagation.
     let mut changed;
     loop {
-- 
2.43.0


From 8136e5480cb5f7213ae171105a673095aa2f0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:43 +0000
Subject: [PATCH 41/56] fix: do not crash while checking a variable after an
 assignment to something else than an item

---
 src/lifetime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 648b6b1..1245882 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -399,6 +399,9 @@ pub(crate) fn check_core(
                     continue;
                 }
                 let left = nodes[j].children[0];
+                if nodes[left].children.is_empty() {
+                    continue;
+                }
                 let item = nodes[left].children[0];
                 if nodes[item].name() == nodes[i].name() {
                     if nodes[item].item_ids() {
-- 
2.43.0


From 2c3afdbc18befa49c9088b38a596d1b765422a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 42/56] fix: do not crash on incomplete meta data when writing
 JSON

---
 src/dyon_std/meta.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index bee0504..dcace56 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -185,7 +185,7 @@ pub fn download_url_to_file(_url: &str, _file: &str) -> Result<String, String> {
 pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
     fn is_start_node(v: &Variable) -> bool {
         if let Variable::Array(ref arr) = *v {
-            if let Variable::Str(ref t) = arr[2] {
+            if let Some(&Variable::Str(ref t)) = arr.get(2) {
                 &**t == "start"
             } else {
                 false
@@ -197,7 +197,7 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
 
     fn is_end_node(v: &Variable) -> bool {
         if let Variable::Array(ref arr) = *v {
-            if let Variable::Str(ref t) = arr[2] {
+            if let Some(&Variable::Str(ref t)) = arr.get(2) {
                 &**t == "end"
             } else {
                 false
@@ -221,7 +221,7 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
     let mut first = true;
     for (i, d) in data.iter().enumerate() {
         let is_end = if is_end_node(d) {
-            indent -= 1;
+            indent = indent.saturating_sub(1);
             true
         } else {
             false
@@ -237,12 +237,12 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
             write!(w, " ")?;
         }
         if let Variable::Array(ref arr) = *d {
-            let name = if let Variable::Str(ref t) = arr[3] {
+            let name = if let Some(&Variable::Str(ref t)) = arr.get(3) {
                 t
             } else {
                 ""
             };
-            if let Variable::Str(ref t) = arr[2] {
+            if let Some(&Variable::Str(ref t)) = arr.get(2) {
                 match &***t {
                     "start" => {
                         first = true;
@@ -254,19 +254,19 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
                         write!(w, "{}", "}")?;
                     }
                     "bool" => {
-                        if let Variable::Bool(val, _) = arr[4] {
+                        if let Some(&Variable::Bool(val, _)) = arr.get(4) {
                             write_string(&mut w, name)?;
                             write!(w, ":{}", val)?;
                         }
                     }
                     "f64" => {
-                        if let Variable::F64(val, _) = arr[4] {
+                        if let Some(&Variable::F64(val, _)) = arr.get(4) {
                             write_string(&mut w, name)?;
                             write!(w, ":{}", val)?;
                         }
                     }
                     "str" => {
-                        if let Variable::Str(ref val) = arr[4] {
+                        if let Some(&Variable::Str(ref val)) = arr.get(4) {
                             write_string(&mut w, name)?;
                             write!(w, ":")?;
                             write_string(&mut w, val)?;
-- 
2.43.0


From eccc6a9ad040a70ae3cbe453cebc97cd151ed41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 43/56] fix: report a too large length of an array as an error
 instead of crashing

---
 src/runtime/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index fb7bea4..90f93e5 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2001,7 +2001,17 @@ impl Runtime {
             _ => return self.err(array_fill.n.source_range(), "Expected something"),
         };
         let v = match (self.get(&fill), self.get(&n)) {
-            (x, &Variable::F64(n, _)) => Variable::Array(Arc::new(vec![x.clone(); n as usize])),
+            (x, &Variable::F64(n, _)) => {
+                let mut arr = vec![];
+                if arr.try_reserve_exact(n as usize).is_err() {
+                    return self.err(
+                        array_fill.n.source_range(),
+                        "Length in `[value; length]` is too large",
+                    );
+                }
+                arr.resize(n as usize, x.clone());
+                Variable::Array(Arc::new(arr))
+            }
             _ => {
                 return self.err(
                     array_fill.n.source_range(),
-- 
2.43.0


From 5a94ddf8d0ea26fbc2467e483a2f9f839ee64fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:44 +0000
Subject: [PATCH 44/56] fix: report arguments of a wrong type as an error
 instead of crashing

---
 src/dyon_std/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 94229ec..0f2f30f 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -939,7 +939,7 @@ pub(crate) fn read_line(_rt: &mut Runtime) -> Result<Variable, String> {
 pub(crate) fn read_number(rt: &mut Runtime) -> Result<Variable, String> {
     use std::io::{self, Write};
 
-    let err: Arc<String> = rt.pop().expect(TINVOTS);
+    let err: Arc<String> = rt.pop()?;
     let stdin = io::stdin();
     let mut stdout = io::stdout();
     let mut input = String::new();
@@ -1162,8 +1162,8 @@ pub(crate) fn load__source_imports(rt: &mut Runtime) -> Result<Variable, String>
 pub(crate) fn load__source_imports_tr_usetr(rt: &mut Runtime) -> Result<Variable, String> {
     use crate::load;
 
-    let usetr: bool = rt.pop().expect(TINVOTS);
-    let tr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
+    let tr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let mut new_module = Module::empty();
@@ -1259,8 +1259,8 @@ pub(crate) fn module__in_string_imports(rt: &mut Runtime) -> Result<Variable, St
 }
 
 pub(crate) fn module__in_string_imports_tr_usetr(rt: &mut Runtime) -> Result<Variable, String> {
-    let usetr: bool = rt.pop().expect(TINVOTS);
-    let tr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
+    let tr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let source = match rt.get(&source) {
@@ -1359,7 +1359,7 @@ pub(crate) fn check__in_string_imports(rt: &mut Runtime) -> Result<Variable, Str
 }
 
 pub(crate) fn check__in_string_imports_usetr(rt: &mut Runtime) -> Result<Variable, String> {
-    let usetr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let source = match rt.get(&source) {
-- 
2.43.0


From 3676c381ce5e9aa98bb4750b9a059f696a3ad8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:59 +0000
Subject: [PATCH 45/56] fix: report a swap out of bounds and clamp the range of
 errstr instead of crashing

---
 src/dyon_std/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 0f2f30f..fe8e69f 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -898,7 +898,11 @@ pub(crate) fn swap(rt: &mut Runtime) -> Result<(), String> {
     let v = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = v {
         let ok = if let Variable::Array(ref mut arr) = rt.stack[ind] {
-            Arc::make_mut(arr).swap(i as usize, j as usize);
+            let (i, j) = (i as usize, j as usize);
+            if i >= arr.len() || j >= arr.len() {
+                return Err(format!("Index out of bounds `{}`", i.max(j)));
+            }
+            Arc::make_mut(arr).swap(i, j);
             true
         } else {
             false
@@ -2030,7 +2034,7 @@ pub(crate) fn errstr__string_start_len_msg(rt: &mut Runtime) -> Result<Variable,
 
     let mut buf: Vec<u8> = vec![];
     ParseErrorHandler::new(&source)
-        .write_msg(&mut buf, Range::new(start, len), &msg)
+        .write_msg(&mut buf, Range::new(start, len.min(usize::MAX - start)), &msg)
         .unwrap();
     Ok(Variable::Str(Arc::new(String::from_utf8(buf).unwrap())))
 }
-- 
2.43.0


From cc3d687d4d310d6e457efe84ee1533b7036a4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 46/56] fix: keep functions lazy and let mutable external
 functions be renamed when called through an alias

---
 src/ast/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index a53dc1e..2fa32ea 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -160,7 +160,7 @@ impl UseLookup {
                         // A function with mutable information.
                         let mut name: Arc<String> = use_fn.1.as_ref().unwrap_or(&use_fn.0).clone();
                         Arc::make_mut(&mut name).push_str(&f.name.as_str()[use_fn.0.len()..]);
-                        fns.insert(f.name.clone(), FnAlias::External(i));
+                        fns.insert(name, FnAlias::External(i));
                     }
                 }
             }
@@ -2854,7 +2854,13 @@ impl Call {
                         let f = &module.ext_prelude[i];
                         match f.f {
                             FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
-                            FnExt::Return(ff) => FnIndex::Return(FnReturnRef(ff)),
+                            FnExt::Return(ff) => {
+                                if f.p.lazy == crate::LAZY_NO {
+                                    FnIndex::Return(FnReturnRef(ff))
+                                } else {
+                                    FnIndex::Lazy(FnReturnRef(ff), f.p.lazy)
+                                }
+                            }
                             FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
                             FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
                         }
-- 
2.43.0


From f686457ccef45b2b967549f38f11b15a7d136243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 47/56] fix: check the number of arguments of a call through an
 alias when loading

---
 src/lifetime/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 1245882..5be8752 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -679,6 +679,15 @@ pub(crate) fn check_core(
                 use_lookup.aliases.get(alias).and_then(|map| map.get(&name))
             {
                 node.lts = prelude.list[i].lts.clone();
+                if node.lts.len() != n {
+                    return Err(node.source.wrap(format!(
+                        "{}::{}: Expected {} arguments, found {}",
+                        alias,
+                        name,
+                        node.lts.len(),
+                        n
+                    )));
+                }
                 continue;
             } else {
                 return Err(node
-- 
2.43.0


From fc649a197de6f322eaf646618dd9a49de2892b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 48/56] fix: check the number of arguments when the host calls
 a function by name

---
 src/runtime/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 90f93e5..a01702f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -386,6 +386,28 @@ fn item_lookup(
     }
 }
 
+/// Checks that a function is called from the outside with the number of arguments it has.
+fn check_arg_count(module: &Module, name: &Arc<String>, args: &[Variable]) -> Result<(), String> {
+    let n = match module.find_function(name, 0) {
+        FnIndex::Loaded(f_index) => Some(module.functions[f_index as usize].args.len()),
+        _ => module
+            .ext_prelude
+            .iter()
+            .rev()
+            .find(|f| &f.name == name)
+            .map(|f| f.p.tys.len()),
+    };
+    match n {
+        Some(n) if n != args.len() => Err(format!(
+            "{}: Expected {} arguments, found {}",
+            name,
+            n,
+            args.len()
+        )),
+        _ => Ok(()),
+    }
+}
+
 impl Runtime {
     /// Creates a new Runtime.
     pub fn new() -> Runtime {
@@ -1822,6 +1844,7 @@ impl Runtime {
         let name: Arc<String> = Arc::new(function.into());
         match module.find_function(&name, 0) {
             FnIndex::Loaded(f_index) => {
+                check_arg_count(module, &name, args)?;
                 let call = ast::Call {
                     f_index: FnIndex::Loaded(f_index),
                     args: args
@@ -1856,6 +1879,7 @@ impl Runtime {
         if let FnIndex::None = fn_index {
             return Err(format!("Could not find function `{}`", function));
         }
+        check_arg_count(module, &name, args)?;
 
         let call = ast::Call {
             f_index: fn_index,
-- 
2.43.0


From 5ab9488298046851f25c0d1ee7215f924ca26c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:53 +0000
Subject: [PATCH 49/56] fix: report short arrays and look up references in
 fields when converting to host values

---
 src/embed.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/embed.rs b/src/embed.rs
index 172e775..f4ce2e1 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -3,6 +3,7 @@
 use std::sync::Arc;
 
 use crate::{
+    Array,
     Error,
     Object,
     Runtime,
@@ -21,7 +22,7 @@ pub fn obj_field<T: PopVariable>(rt: &Runtime, obj: &Object, name: &str) -> Resu
     let var = obj
         .get(&Arc::new(name.into()))
         .ok_or_else(|| format!("Object has no key `{}`", name))?;
-    PopVariable::pop_var(rt, var)
+    PopVariable::pop_var(rt, rt.get(var))
 }
 
 /// Implemented by types that can be popped from the runtime stack.
@@ -53,6 +54,14 @@ pub trait ConvertMat4: Sized {
     fn to(&self) -> [[f32; 4]; 4];
 }
 
+/// Gets array with at least some number of items.
+fn array_of_len(var: &Variable, n: usize) -> Option<&Array> {
+    match var {
+        Variable::Array(arr) if arr.len() >= n => Some(arr),
+        _ => None,
+    }
+}
+
 impl PopVariable for Variable {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         Ok(var.deep_clone(&rt.stack))
@@ -167,7 +176,7 @@ impl<T: PopVariable, U: PopVariable> PopVariable for Result<T, U> {
 
 impl<T: PopVariable> PopVariable for [T; 2] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 2) {
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -180,7 +189,7 @@ impl<T: PopVariable> PopVariable for [T; 2] {
 
 impl<T: PopVariable> PopVariable for [T; 3] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 3) {
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -194,7 +203,7 @@ impl<T: PopVariable> PopVariable for [T; 3] {
 
 impl<T: PopVariable> PopVariable for [T; 4] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 4) {
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -209,7 +218,7 @@ impl<T: PopVariable> PopVariable for [T; 4] {
 
 impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 2) {
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -222,7 +231,7 @@ impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
 
 impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 3) {
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -236,7 +245,7 @@ impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
 
 impl<T: PopVariable, U: PopVariable, V: PopVariable, W: PopVariable> PopVariable for (T, U, V, W) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
-        if let Variable::Array(ref arr) = *var {
+        if let Some(arr) = array_of_len(var, 4) {
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
-- 
2.43.0


From 16fb6d5ca0c5140f1a534d3e3723206b4360918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 50/56] fix: keep strings with escapes as they are when
 formatting text

---
 src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 34547b3..85778e6 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -1143,8 +1143,8 @@ pub fn fmt(tab: i32, text: &str) -> String {
     let mut string_escape = false;
     for ch in text.chars() {
         match ch {
-            '"' if string_escape => string_escape = false,
-            '"' if !string_escape => {
+            _ if string_escape => string_escape = false,
+            '"' => {
                 string = !string;
                 res.push(ch);
                 continue;
-- 
2.43.0


From 4b0cbdd2924dee02fcd945c3d075adde2c0e2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 51/56] fix: report negative and NaN indices as out of bounds
 instead of using the first item

---
 src/dyon_std/mod.rs | 33 +++++++++++++++++----------------
 src/runtime/mod.rs  | 13 +++++++++++--
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index fe8e69f..70e24d8 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1,5 +1,6 @@
 #![allow(non_snake_case)]
 
+use crate::runtime::array_index;
 use crate::*;
 
 mod data;
@@ -326,10 +327,10 @@ pub(crate) fn norm(v: &Variable) -> Result<Variable, String> {
 }
 
 pub(crate) fn s(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop()?;
-    let ind = ind as usize;
+    let id: f64 = rt.pop()?;
+    let ind = array_index(id);
     if ind >= 4 {
-        return Err(format!("Index out of bounds `{}`", ind));
+        return Err(format!("Index out of bounds `{}`", id));
     };
     let v: [f32; 4] = rt.pop_vec4()?;
     Ok(Variable::f64(f64::from(v[ind])))
@@ -405,10 +406,10 @@ dyon_fn! {fn rz(m: Mat4) -> Vec4 {Vec4([m.0[0][2], m.0[1][2], m.0[2][2], m.0[3][
 dyon_fn! {fn rw(m: Mat4) -> Vec4 {Vec4([m.0[0][3], m.0[1][3], m.0[2][3], m.0[3][3]])}}
 
 pub(crate) fn rv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop()?;
-    let ind = ind as usize;
+    let id: f64 = rt.pop()?;
+    let ind = array_index(id);
     if ind >= 4 {
-        return Err(format!("Index out of bounds `{}`", ind));
+        return Err(format!("Index out of bounds `{}`", id));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4([m[0][ind], m[1][ind], m[2][ind], m[3][ind]]))
@@ -420,10 +421,10 @@ dyon_fn! {fn cz(m: Mat4) -> Vec4 {Vec4(m.0[2])}}
 dyon_fn! {fn cw(m: Mat4) -> Vec4 {Vec4(m.0[3])}}
 
 pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop()?;
-    let ind = ind as usize;
+    let id: f64 = rt.pop()?;
+    let ind = array_index(id);
     if ind >= 4 {
-        return Err(format!("Index out of bounds `{}`", ind));
+        return Err(format!("Index out of bounds `{}`", id));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4(m[ind]))
@@ -681,7 +682,7 @@ pub(crate) fn insert_ref(rt: &mut Runtime) -> Result<(), String> {
 
     if let Variable::Ref(ind) = v {
         if let Variable::Array(ref arr) = rt.stack[ind] {
-            let index = index as usize;
+            let index = array_index(index);
             if index > arr.len() {
                 return Err("Index out of bounds".into());
             }
@@ -746,7 +747,7 @@ pub(crate) fn insert(rt: &mut Runtime) -> Result<(), String> {
 
     if let Variable::Ref(ind) = v {
         if let Variable::Array(ref arr) = rt.stack[ind] {
-            let index = index as usize;
+            let index = array_index(index);
             if index > arr.len() {
                 return Err("Index out of bounds".into());
             }
@@ -815,7 +816,7 @@ pub(crate) fn remove(rt: &mut Runtime) -> Result<Variable, String> {
     let arr = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = arr {
         if let Variable::Array(ref arr) = rt.stack[ind] {
-            let index = index as usize;
+            let index = array_index(index);
             if index >= arr.len() {
                 return Err("Index out of bounds".into());
             }
@@ -898,11 +899,11 @@ pub(crate) fn swap(rt: &mut Runtime) -> Result<(), String> {
     let v = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = v {
         let ok = if let Variable::Array(ref mut arr) = rt.stack[ind] {
-            let (i, j) = (i as usize, j as usize);
-            if i >= arr.len() || j >= arr.len() {
-                return Err(format!("Index out of bounds `{}`", i.max(j)));
+            let (a, b) = (array_index(i), array_index(j));
+            if a >= arr.len() || b >= arr.len() {
+                return Err(format!("Index out of bounds `{}`", if a < arr.len() { j } else { i }));
             }
-            Arc::make_mut(arr).swap(i, j);
+            Arc::make_mut(arr).swap(a, b);
             true
         } else {
             false
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a01702f..0232506 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -283,7 +283,7 @@ fn item_lookup(
                                 };
                                 // Make it explicit `&mut (*arr)` to use
                                 // dangerous implicit autoref.
-                                let v = match unsafe {arr.as_mut().unwrap().get_mut(id as usize)} {
+                                let v = match unsafe {arr.as_mut().unwrap().get_mut(array_index(id))} {
                                     None => {
                                         return Err(module.error_fnindex(
                                             prop.source_range(),
@@ -352,7 +352,7 @@ fn item_lookup(
                     ))
                 }
             };
-            let v = match Arc::make_mut(arr).get_mut(id as usize) {
+            let v = match Arc::make_mut(arr).get_mut(array_index(id)) {
                 None => {
                     return Err(module.error_fnindex(
                         prop.source_range(),
@@ -3096,6 +3096,15 @@ impl Runtime {
     }
 }
 
+/// Converts a number to an index, which is out of bounds if the number is negative or `NaN`.
+pub(crate) fn array_index(id: f64) -> usize {
+    if id > -1.0 {
+        id as usize
+    } else {
+        usize::MAX
+    }
+}
+
 fn stack_trace(call_stack: &[Call]) -> String {
     let mut s = String::new();
     for call in call_stack.iter() {
-- 
2.43.0


From 6b84e1598091cc89c6c407a7ff4865302f01630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:33 +0000
Subject: [PATCH 52/56] fix: allow a thread to join another thread with
 asynchronous threads

---
 src/threading.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 0d26e05..9382fe2 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -42,6 +42,7 @@ macro_rules! join {
 #[macro_export]
 macro_rules! join {
     ($rt:expr, $e:expr) => {
-        $rt.block_on($e)
+        // The thread that joins might itself run inside the runtime.
+        tokio::task::block_in_place(|| $rt.block_on($e))
     }
 }
-- 
2.43.0


From c8c323d0fac47fc0fbcafe3debaed9f1ffa2e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:32 +0000
Subject: [PATCH 53/56] fix: check all argument lifetimes for cycles

The check stopped at the first argument with the lifetime 'return,
so a cycle after it made the lifetime checker loop forever.
---
 src/lifetime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 5be8752..95c18b5 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -804,7 +804,7 @@ pub(crate) fn check_core(
         {
             if let Some(ref lt) = nodes[c].lifetime {
                 if &**lt == "return" {
-                    break;
+                    continue;
                 }
                 // Reset visit flags.
                 for it in &mut visited {
-- 
2.43.0


From 1a443b7b23e1b6af08c4911cfe8d6e1be2c6af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:02 +0000
Subject: [PATCH 54/56] fix: report an error when the return value is used as
 an argument with a lifetime

Passing `return` where a reference with a lifetime is required made the
lifetime checker panic.
---
 src/lifetime/lt.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lifetime/lt.rs b/src/lifetime/lt.rs
index ac80852..fe0e6fa 100644
--- a/src/lifetime/lt.rs
+++ b/src/lifetime/lt.rs
@@ -198,10 +198,14 @@ pub(crate) fn compare_lifetimes(
                             // since `a` and `b` must have some lifetime in common to get an order.
                             // In addition they both need `'return` lifetime.
                             // `a` has an implicit `'return` lifetime through `b`.
-                            return Err(format!(
-                                "`{}` does not live long enough",
-                                nodes[r[0]].name().expect("Expected name")
-                            ));
+                            // The list is empty when the value is the return value itself.
+                            return Err(match r.first() {
+                                Some(&r) => format!(
+                                    "`{}` does not live long enough",
+                                    nodes[r].name().expect("Expected name")
+                                ),
+                                None => "`return` does not live long enough".into(),
+                            });
                         }
                     }
                 }
@@ -225,7 +229,7 @@ pub(crate) fn compare_lifetimes(
                                     nodes[l[0]].name().expect("Expected name")
                                 ));
                             } else {
-                                unimplemented!();
+                                return Err("`return` does not live long enough".into());
                             }
                         }
                         (&Lifetime::Return(ref l), &Lifetime::Return(ref r)) => {
-- 
2.43.0


From a2e1945fb25456b0fed7f7ef26b0b025de8ad79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:00 +0000
Subject: [PATCH 55/56] fix: an error propagated inside a swizzle is returned
 from the function

---
 src/runtime/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 0232506..5f33b51 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -708,10 +708,7 @@ impl Runtime {
             If(ref if_expr) => self.if_expr(if_expr),
             Variable(ref range_var) => Ok((Some(range_var.1.clone()), Flow::Continue)),
             Try(ref expr) => self.try_fun(expr, side),
-            Swizzle(ref sw) => {
-                let flow = self.swizzle(sw)?;
-                Ok((None, flow))
-            }
+            Swizzle(ref sw) => self.swizzle(sw),
             Closure(ref closure) => self.closure(closure),
             CallClosure(ref call) => self.call_closure(call),
             Grab(ref g) => self.err(
@@ -1905,11 +1902,11 @@ impl Runtime {
         }
     }
 
-    fn swizzle(&mut self, sw: &ast::Swizzle) -> Result<Flow, String> {
+    fn swizzle(&mut self, sw: &ast::Swizzle) -> FlowResult {
         let v = match self.expression(&sw.expr, Side::Right)? {
             (Some(x), Flow::Continue) => x,
-            (_, Flow::Return) => {
-                return Ok(Flow::Return);
+            (x, Flow::Return) => {
+                return Ok((x, Flow::Return));
             }
             _ => {
                 return Err(self.module.error(
@@ -1935,7 +1932,7 @@ impl Runtime {
         if let Some(ind) = sw.sw3 {
             self.stack.push(Variable::f64(f64::from(v[ind])));
         }
-        Ok(Flow::Continue)
+        Ok((None, Flow::Continue))
     }
 
     fn link(&mut self, link: &ast::Link) -> FlowResult {
-- 
2.43.0


From 1aa32965eb9f46b66f01f2eeb36075865fc49785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:05 +0000
Subject: [PATCH 56/56] fix: the counter of an inner loop does not hide an
 outer one when a range is inferred

---
 src/ast/infer_len.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ast/infer_len.rs b/src/ast/infer_len.rs
index 6c4ff41..0aeb8a4 100644
--- a/src/ast/infer_len.rs
+++ b/src/ast/infer_len.rs
@@ -360,9 +360,9 @@ fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> O
     // Check for declaration of same name.
     if &**for_n_expr.name == name {
         return None;
-    } else {
-        decls.push(for_n_expr.name.clone());
     }
+    let st = decls.len();
+    decls.push(for_n_expr.name.clone());
     let f = |decls: &mut Vec<Arc<String>>| -> Option<Item> {
         if let Some(ref start) = for_n_expr.start {
             let res = infer_expr(start, name, decls);
@@ -380,7 +380,6 @@ fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> O
         }
         None
     };
-    let st = decls.len();
     let res = { f(decls) };
     decls.truncate(st);
     res
-- 
2.43.0

