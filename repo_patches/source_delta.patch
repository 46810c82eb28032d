From 0befcbb4850cae06f8d6a563d844134bf9313bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 01/60] fix: forget the previous answer when a solve call fails
 or variables are declared

---
 cadical/src/lib.rs  | 6 ++++++
 glucose/src/core.rs | 4 ++++
 glucose/src/simp.rs | 4 ++++
 ipasir/src/lib.rs   | 4 ++++
 minisat/src/core.rs | 4 ++++
 minisat/src/simp.rs | 4 ++++
 6 files changed, 26 insertions(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..1f584a8 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -643,6 +643,8 @@ impl CaDiCaL<'_, '_> {
     /// If `num_additional > i32::MAX`
     #[cfg(cadical_version = "v2.2")]
     pub fn declare_more_variables(&mut self, num_additional: u32) -> Var {
+        // Declaring variables leaves the satisfied/unsatisfied state of the backend
+        self.state = InternalSolverState::Input;
         Lit::from_ipasir(unsafe {
             ffi::ccadical_declare_more_variables(
                 self.handle,
@@ -722,6 +724,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             }
         }
         let start = rustsat::utils::Timer::now();
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = InternalSolverState::Input;
         // Solve with CaDiCaL backend
         let res = handle_oom!(unsafe { ffi::ccadical_solve_mem(self.handle) });
         self.stats.cpu_solve_time += start.elapsed();
@@ -793,6 +797,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
 impl rustsat::solvers::SolveIncremental for CaDiCaL<'_, '_> {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
         let start = rustsat::utils::Timer::now();
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = InternalSolverState::Input;
         // Solve with CaDiCaL backend
         for a in assumps {
             handle_oom!(unsafe { ffi::ccadical_assume_mem(self.handle, a.to_ipasir()) });
diff --git a/glucose/src/core.rs b/glucose/src/core.rs
index ce0318c..1340232 100644
--- a/glucose/src/core.rs
+++ b/glucose/src/core.rs
@@ -116,6 +116,8 @@ impl rustsat::solvers::Solve for Glucose {
         }
         let start = rustsat::utils::Timer::now();
         // Solve with glucose backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cglucose4_solve(self.handle, std::ptr::null(), 0)
         });
@@ -196,6 +198,8 @@ impl rustsat::solvers::SolveIncremental for Glucose {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
         let start = rustsat::utils::Timer::now();
         // Solve with glucose backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cglucose4_solve(self.handle, assumps.as_ptr().cast(), assumps.len())
         });
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..ce699f2 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -123,6 +123,8 @@ impl rustsat::solvers::Solve for Glucose {
         }
         let start = rustsat::utils::Timer::now();
         // Solve with glucose backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cglucosesimp4_solve(self.handle, std::ptr::null(), 0)
         });
@@ -208,6 +210,8 @@ impl rustsat::solvers::SolveIncremental for Glucose {
                 return Err(crate::AssumpEliminated(a.var()).into());
             }
         }
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cglucosesimp4_solve(self.handle, assumps.as_ptr().cast(), assumps.len())
         });
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..5760f90 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -182,6 +182,8 @@ impl rustsat::solvers::Solve for IpasirSolver<'_, '_> {
             }
         }
         let start = rustsat::utils::Timer::now();
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = InternalSolverState::Input;
         // Solve with IPASIR backend
         let res = unsafe { ffi::ipasir_solve(self.handle) };
         self.stats.cpu_solve_time += start.elapsed();
@@ -261,6 +263,8 @@ impl rustsat::solvers::SolveIncremental for IpasirSolver<'_, '_> {
         // If in error state, remain there
         // If not, need to resolve because assumptions might have changed
         let start = rustsat::utils::Timer::now();
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = InternalSolverState::Input;
         // Solve with IPASIR backend
         for a in assumps {
             unsafe { ffi::ipasir_assume(self.handle, a.to_ipasir()) }
diff --git a/minisat/src/core.rs b/minisat/src/core.rs
index fe55ce6..c91c8e6 100644
--- a/minisat/src/core.rs
+++ b/minisat/src/core.rs
@@ -116,6 +116,8 @@ impl rustsat::solvers::Solve for Minisat {
         }
         let start = rustsat::utils::Timer::now();
         // Solve with minisat backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cminisat_solve(self.handle, std::ptr::null(), 0)
         });
@@ -196,6 +198,8 @@ impl rustsat::solvers::SolveIncremental for Minisat {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
         let start = rustsat::utils::Timer::now();
         // Solve with minisat backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cminisat_solve(self.handle, assumps.as_ptr().cast(), assumps.len())
         });
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..29f2965 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -124,6 +124,8 @@ impl rustsat::solvers::Solve for Minisat {
         }
         let start = rustsat::utils::Timer::now();
         // Solve with minisat backend
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cminisatsimp_solve(self.handle, std::ptr::null(), 0)
         });
@@ -209,6 +211,8 @@ impl rustsat::solvers::SolveIncremental for Minisat {
                 return Err(crate::AssumpEliminated(a.var()).into());
             }
         }
+        // The previous answer is gone as soon as the backend starts working, even if it fails
+        self.state = crate::InternalSolverState::Input;
         let res = crate::handle_oom!(unsafe {
             crate::ffi::cminisatsimp_solve(self.handle, assumps.as_ptr().cast(), assumps.len())
         });
-- 
2.43.0


From 9ceaff379dc673922b76c99fc5314a6c708d8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 02/60] fix: CaDiCaL simplification under assumptions no longer
 leaks its answer to other calls

---
 cadical/src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 1f584a8..6ba0682 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -475,11 +475,14 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
+        if let InternalSolverState::Unsat(core) = &self.state {
+            if core.is_empty() {
+                return Ok(SolverResult::Unsat);
+            }
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
+        self.state = InternalSolverState::Input;
         match unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) } {
             0 => {
                 self.state = InternalSolverState::Input;
@@ -523,15 +526,9 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
-        }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend under assumptions
+        self.state = InternalSolverState::Input;
         for a in assumps {
             handle_oom!(unsafe { ffi::ccadical_assume_mem(self.handle, a.to_ipasir()) });
         }
@@ -545,7 +542,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
-- 
2.43.0


From 0df229be191c7bf93963f5ce12b7de0c3d75f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 03/60] fix: report bad_alloc from CaDiCaL simplify and implied
 instead of unwinding into Rust

---
 cadical/cpp-extension/ccadical_extension.cpp | 19 ++++++++++++++-----
 cadical/cpp-extension/ccadical_extension.h   |  4 ++--
 cadical/src/lib.rs                           | 16 ++++++++--------
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/cadical/cpp-extension/ccadical_extension.cpp b/cadical/cpp-extension/ccadical_extension.cpp
index 0e826a8..53162c1 100644
--- a/cadical/cpp-extension/ccadical_extension.cpp
+++ b/cadical/cpp-extension/ccadical_extension.cpp
@@ -67,7 +67,11 @@ int64_t ccadical_redundant(CCaDiCaL *wrapper) {
 }
 
 int ccadical_simplify_rounds(CCaDiCaL *wrapper, int rounds) {
-  return ((Wrapper *)wrapper)->solver->simplify(rounds);
+  try {
+    return ((Wrapper *)wrapper)->solver->simplify(rounds);
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
 }
 
 int ccadical_resize(CCaDiCaL *wrapper, int min_max_var) {
@@ -131,17 +135,22 @@ int ccadical_propagate(CCaDiCaL *wrapper) {
   }
 }
 
-void ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
-                      void *cb_data) {
+int ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
+                     void *cb_data) {
   std::vector<int> implied{};
+  try {
 #ifdef V2_2
-  ((Wrapper *)wrapper)->solver->implied(implied);
+    ((Wrapper *)wrapper)->solver->implied(implied);
 #else
-  ((Wrapper *)wrapper)->solver->get_entrailed_literals(implied);
+    ((Wrapper *)wrapper)->solver->get_entrailed_literals(implied);
 #endif
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
   for (int lit : implied) {
     implied_cb(cb_data, lit);
   }
+  return 0;
 }
 #endif
 
diff --git a/cadical/cpp-extension/ccadical_extension.h b/cadical/cpp-extension/ccadical_extension.h
index d89ceb3..9a0f347 100644
--- a/cadical/cpp-extension/ccadical_extension.h
+++ b/cadical/cpp-extension/ccadical_extension.h
@@ -35,8 +35,8 @@ int ccadical_propcheck(CCaDiCaL *wrapper, const int *assumps,
                        void (*prop_cb)(void *, int), void *cb_data);
 #else
 int ccadical_propagate(CCaDiCaL *wrapper);
-void ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
-                      void *cb_data);
+int ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
+                     void *cb_data);
 #endif
 #ifndef NTRACING
 int ccadical_trace_api_calls(CCaDiCaL *wrapper, const char *const path);
diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 6ba0682..aaccc47 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -483,7 +483,7 @@ impl CaDiCaL<'_, '_> {
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
         self.state = InternalSolverState::Input;
-        match unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) } {
+        match handle_oom!(unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) }) {
             0 => {
                 self.state = InternalSolverState::Input;
                 Ok(SolverResult::Interrupted)
@@ -532,7 +532,7 @@ impl CaDiCaL<'_, '_> {
         for a in assumps {
             handle_oom!(unsafe { ffi::ccadical_assume_mem(self.handle, a.to_ipasir()) });
         }
-        match unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) } {
+        match handle_oom!(unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) }) {
             0 => {
                 self.state = InternalSolverState::Input;
                 Ok(SolverResult::Interrupted)
@@ -1096,24 +1096,24 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-                unsafe {
+                handle_oom!(unsafe {
                     ffi::ccadical_implied(
                         self.handle,
                         Some(ffi::rustsat_cadical_collect_lits),
                         prop_ptr.cast::<std::os::raw::c_void>(),
-                    );
-                }
+                    )
+                });
             }
             10 => {
                 self.state = InternalSolverState::Sat;
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-                unsafe {
+                handle_oom!(unsafe {
                     ffi::ccadical_implied(
                         self.handle,
                         Some(ffi::rustsat_cadical_collect_lits),
                         prop_ptr.cast::<std::os::raw::c_void>(),
-                    );
-                }
+                    )
+                });
             }
             20 => {}
             value => {
-- 
2.43.0


From 97f63986510f367226aef0dcd54b0f5d71f50b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 04/60] fix: detach_learner drops the learner callback instead
 of the terminator

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index aaccc47..6b30481 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -939,7 +939,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index 5760f90..2542121 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -402,7 +402,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From c2159a8a45a82ebbcfc5cbed183eb090e49d5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 05/60] fix: attaching a learner with a large maximum length
 does not panic

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 6b30481..e567baa 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -932,7 +932,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
             ffi::ccadical_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                c_int::try_from(max_len).unwrap_or(c_int::MAX),
                 Some(ffi::rustsat_ccadical_learn_cb),
             );
         }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index 2542121..47d8ff3 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -395,7 +395,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
             ffi::ipasir_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                c_int::try_from(max_len).unwrap_or(c_int::MAX),
                 Some(ffi::ipasir_learn_cb),
             );
         }
-- 
2.43.0


From a72aeb1c1c2a343b0b92a2efd4edece308a7061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 06/60] fix: Minisat and Glucose report the value of the
 literal, not of its variable

---
 glucose/vendor/cglucose4.cc        | 7 +++++--
 minisat/vendor/minisat/cminisat.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..3e6523d 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -135,8 +135,11 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l{lit.x};
+  // variables declared after the last solve have no value in the model
+  if (var(l) >= solver->model.size())
+    return T_UNASSIGNED;
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..5cdf515 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -131,8 +131,11 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l{lit.x};
+  // variables declared after the last solve have no value in the model
+  if (var(l) >= solver->model.size())
+    return T_UNASSIGNED;
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
-- 
2.43.0


From eb871243691e4ddff9d191a831b5a358b3197bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/60] fix: Minisat and Glucose no longer index past the known
 variables

---
 glucose/src/simp.rs                | 7 +++++++
 glucose/vendor/cglucose4.cc        | 1 +
 minisat/src/simp.rs                | 7 +++++++
 minisat/vendor/minisat/cminisat.cc | 1 +
 4 files changed, 16 insertions(+)

diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index ce699f2..00743d1 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -72,6 +72,13 @@ impl Glucose {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: rustsat::types::Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cglucosesimp4_is_eliminated(self.handle, var.idx32() as c_int)
diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 3e6523d..9e5a8ef 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -293,6 +293,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index 29f2965..20b06a4 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -73,6 +73,13 @@ impl Minisat {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cminisatsimp_is_eliminated(self.handle, var.idx32() as c_int)
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5cdf515..9445bb8 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -289,6 +289,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From bc1535a3ff34e67443423fa0841140b26a034db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 08/60] fix: removing the conflict or propagation limit of
 Minisat and Glucose

---
 glucose/vendor/cglucose4.cc        | 16 ++++++++++++----
 minisat/vendor/minisat/cminisat.cc | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 9e5a8ef..31dc6a1 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -222,19 +222,27 @@ int cglucosesimp4_n_vars(CGlucoseSimp4 *handle) {
 }
 
 void cglucose4_set_conf_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cglucosesimp4_set_conf_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cglucose4_set_prop_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cglucosesimp4_set_prop_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cglucose4_set_no_limit(CGlucose4 *handle) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 9445bb8..e956a42 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -218,19 +218,27 @@ int cminisatsimp_n_vars(CMinisatSimp *handle) {
 }
 
 void cminisat_set_conf_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cminisatsimp_set_conf_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cminisat_set_prop_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cminisatsimp_set_prop_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // the budgets count from the work already done, a negative total means no limit
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cminisat_set_no_limit(CMinisat *handle) {
-- 
2.43.0


From d8d3bdd96bc3028d4b00d5020aad6613e43cccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 09/60] fix: refuse a null handle from ipasir_init and
 kissat_init

---
 ipasir/src/lib.rs | 7 ++++++-
 kissat/src/lib.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index 47d8ff3..834f830 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -124,8 +124,13 @@ unsafe impl Send for IpasirSolver<'_, '_> {}
 
 impl Default for IpasirSolver<'_, '_> {
     fn default() -> Self {
+        let handle = unsafe { ffi::ipasir_init() };
+        assert!(
+            !handle.is_null(),
+            "not enough memory to initialize IPASIR solver"
+        );
         Self {
-            handle: unsafe { ffi::ipasir_init() },
+            handle,
             state: InternalSolverState::default(),
             terminate_cb: None,
             learner_cb: None,
diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..79a09bb 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -130,8 +130,13 @@ unsafe impl Send for Kissat<'_> {}
 
 impl Default for Kissat<'_> {
     fn default() -> Self {
+        let handle = unsafe { ffi::kissat_init() };
+        assert!(
+            !handle.is_null(),
+            "not enough memory to initialize Kissat solver"
+        );
         let solver = Self {
-            handle: unsafe { ffi::kissat_init() },
+            handle,
             state: InternalSolverState::default(),
             terminate_cb: None,
             stats: rustsat::solvers::SolverStats::default(),
-- 
2.43.0


From 52350a6eb1856703cfe22f1a35ad411089302437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 10/60] fix: extending an instance keeps cardinality and
 pseudo-Boolean constraints

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..2b36e2f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From 63812bcece024295e9226948def147ad6d98a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 11/60] fix: extending an instance with clauses marks their
 variables as used

---
 src/instances/sat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 2b36e2f..df25f4f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -1159,7 +1159,7 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        iter.into_iter().for_each(|cl| self.add_clause(cl));
     }
 }
 
@@ -1172,7 +1172,12 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend_clauses(cl_iter.into_iter().inspect(|cl| {
+            cl.iter().for_each(|l| {
+                super::ManageVars::mark_used(var_manager, l.var());
+            });
+        }))
     }
 }
 
-- 
2.43.0


From 9760163bcbd5af081f3d116235d702c562cf0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 12/60] fix: reserve the variables of objectives before drawing
 auxiliary ones

---
 src/instances/multiopt.rs | 32 +++++++++++++-------------------
 src/instances/opt.rs      | 21 ++++++++++++++-------
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..535e5eb 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -56,13 +56,11 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
 
     /// Decomposes the optimization instance to a [`SatInstance`] and [`Objective`]s
     pub fn decompose(mut self) -> (SatInstance<VM>, Vec<Objective>) {
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
+        for o in &self.objs {
             if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
+                self.constrs.var_manager.increase_next_free(mv + 1);
             }
-            v
-        });
-        self.constrs.var_manager.increase_next_free(omv + 1);
+        }
         (self.constrs, self.objs)
     }
 
@@ -136,15 +134,13 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
+    pub fn into_hard_cls_soft_cls(mut self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
+        for o in &self.objs {
             if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
+                self.constrs.var_manager.increase_next_free(mv + 1);
             }
-            v
-        });
-        vm.increase_next_free(omv + 1);
+        }
+        let (cnf, vm) = self.constrs.into_cnf();
         let soft_cls = self
             .objs
             .into_iter()
@@ -158,15 +154,13 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
+    pub fn into_hard_cls_soft_lits(mut self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
+        for o in &self.objs {
             if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
+                self.constrs.var_manager.increase_next_free(mv + 1);
             }
-            v
-        });
-        vm.increase_next_free(omv);
+        }
+        let (mut cnf, mut vm) = self.constrs.into_cnf();
         let soft_lits = self
             .objs
             .into_iter()
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..d692279 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1288,11 +1288,13 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
+    pub fn into_hard_cls_soft_cls(
+        mut self,
+    ) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
         if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
         }
+        let (cnf, vm) = self.constrs.into_cnf();
         (cnf, self.obj.into_soft_cls(), vm)
     }
 
@@ -1302,11 +1304,13 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
+    pub fn into_hard_cls_soft_lits(
+        mut self,
+    ) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
         if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
         }
+        let (mut cnf, mut vm) = self.constrs.into_cnf();
         let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
@@ -1640,7 +1644,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
     ///
     /// - If any interaction with the solver errors
     /// - If the objective value overflows [`isize::MAX`]
-    pub fn solve_maxsat<Alg>(self) -> Option<(Assignment, isize)>
+    pub fn solve_maxsat<Alg>(mut self) -> Option<(Assignment, isize)>
     where
         Alg: crate::algs::maxsat::Solve,
         Alg::Solver: Default,
@@ -1649,6 +1653,9 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
+        if let Some(mv) = self.obj.max_var() {
+            self.constrs.var_manager_mut().increase_next_free(mv + 1);
+        }
         let (cnf, vm) = self.constrs.into_cnf();
         let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
             super::BasicVarManager::from_next_free(max_var + 1)
-- 
2.43.0


From 9f8fbf2d0d2b842689223ff3d08580da2ae60c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 13/60] fix: solution-improving search reserves the variables
 of the objective

---
 src/algs/maxsat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..a2d4acd 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,7 +61,8 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
+        let obj_max_var = objective.iter().map(|(lit, _)| lit.var()).max();
+        let Some(max_var) = std::cmp::max(solver.max_var(), obj_max_var) else {
             return Some((Assignment::default(), 0));
         };
         let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
-- 
2.43.0


From d59f0e74c8a322cdd24354eea35183cc76339f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 14/60] fix: solve_maxsat relaxes soft clauses with the literal
 that carries their cost

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index d692279..5e2fd0b 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1672,7 +1672,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From 71fc8d1e84230077f421f5f5374e515a1298af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 15/60] fix: increasing the weight of an empty soft clause
 increases the offset

---
 src/instances/opt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 5e2fd0b..40a2d3d 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -533,6 +533,9 @@ impl Objective {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            return self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From b80530293d2992a9bb432f2852caee39d0f35963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 16/60] fix: normalizing an unweighted objective keeps its last
 literal and does not underflow

---
 src/instances/opt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 40a2d3d..8b638ae 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1014,7 +1014,7 @@ impl Objective {
                 soft_lits.sort_unstable();
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
+                while next + 1 < soft_lits.len() {
                     if soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
@@ -1031,7 +1031,11 @@ impl Objective {
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                if next < soft_lits.len() {
+                    soft_lits.swap(end, next);
+                    end += 1;
+                }
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From cfe87bf639b8685a3cc34b6ad977851addc0d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 17/60] fix: formatting of the two preceding signatures

---
 src/instances/multiopt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 535e5eb..4152ac9 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -134,7 +134,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_cls(mut self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
+    pub fn into_hard_cls_soft_cls(
+        mut self,
+    ) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
         for o in &self.objs {
             if let Some(mv) = o.max_var() {
                 self.constrs.var_manager.increase_next_free(mv + 1);
@@ -154,7 +156,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     /// # Panic
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
-    pub fn into_hard_cls_soft_lits(mut self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
+    pub fn into_hard_cls_soft_lits(
+        mut self,
+    ) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
         for o in &self.objs {
             if let Some(mv) = o.max_var() {
                 self.constrs.var_manager.increase_next_free(mv + 1);
-- 
2.43.0


From 2ef5d611d58a921a8d0c10711e8d06834b30ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 18/60] fix: sanitizing an unsatisfiable instance records the
 variable it uses

---
 src/instances/sat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index df25f4f..54026e0 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -929,6 +929,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -936,7 +938,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
-- 
2.43.0


From 9f7c59badd0de741ed03913590ea0b7dd38fb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 19/60] fix: re-indexing manager reverses variables drawn
 between re-indexings correctly

---
 src/instances/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..0876e78 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,7 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    out_map: RsHashMap<Var, Var>,
 }
 
 impl ReindexingVarManager {
@@ -164,10 +164,11 @@ impl ReindexingVarManager {
     /// Will map all variables below `next_var` with the identity function
     #[must_use]
     pub fn from_next_free(next_var: Var) -> Self {
+        let identity = || (0..next_var.idx32()).map(|idx| (Var::new(idx), Var::new(idx)));
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: identity().collect(),
+            out_map: identity().collect(),
         }
     }
 }
@@ -179,16 +180,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.out_map.insert(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(&out_var).copied()
     }
 }
 
@@ -197,7 +195,7 @@ impl Default for ReindexingVarManager {
         Self {
             next_var: Var::new(0),
             in_map: RsHashMap::default(),
-            out_map: Vec::default(),
+            out_map: RsHashMap::default(),
         }
     }
 }
@@ -230,6 +228,7 @@ impl ManageVars for ReindexingVarManager {
             self.next_var = other.next_var;
         }
         self.in_map.extend(other.in_map);
+        self.out_map.extend(other.out_map);
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +237,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.retain(|v, _| *v < min_var);
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 6fdd8f96d6eb97a7c1dcd0a91ee6d63cc246ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 20/60] fix: combining random re-indexing managers keeps the
 mapping a permutation

---
 src/instances/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 0876e78..0b6bcd0 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -409,7 +409,6 @@ impl ManageVars for RandReindVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From 4086b14e741c1ae186f27495e2fb4035a86fd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 21/60] fix: Lit::new accepts the highest variable index

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From 58f635a728db1a2dd1dd3f38d933382365eb2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 22/60] fix: variable and literal arithmetic is checked in
 release builds too

---
 src/types/mod.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..57ea3cf 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -257,8 +257,12 @@ impl std::ops::Add<u32> for Var {
     type Output = Var;
 
     fn add(self, rhs: u32) -> Self::Output {
-        let idx = self.idx.0 + rhs;
-        debug_assert!(idx <= Var::MAX_IDX, "variable index overflow");
+        let idx = self
+            .idx
+            .0
+            .checked_add(rhs)
+            .filter(|idx| *idx <= Var::MAX_IDX)
+            .expect("variable index overflow");
         Var {
             idx: LimitedU32(idx),
         }
@@ -267,8 +271,7 @@ impl std::ops::Add<u32> for Var {
 
 impl std::ops::AddAssign<u32> for Var {
     fn add_assign(&mut self, rhs: u32) {
-        debug_assert!(self.idx.0 + rhs <= Var::MAX_IDX, "variable index overflow");
-        self.idx.0 += rhs;
+        *self = *self + rhs;
     }
 }
 
@@ -277,15 +280,20 @@ impl std::ops::Sub<u32> for Var {
     type Output = Var;
 
     fn sub(self, rhs: u32) -> Self::Output {
+        let idx = self
+            .idx
+            .0
+            .checked_sub(rhs)
+            .expect("variable index underflow");
         Var {
-            idx: LimitedU32(self.idx.0 - rhs),
+            idx: LimitedU32(idx),
         }
     }
 }
 
 impl std::ops::SubAssign<u32> for Var {
     fn sub_assign(&mut self, rhs: u32) {
-        self.idx.0 -= rhs;
+        *self = *self - rhs;
     }
 }
 
@@ -598,15 +606,17 @@ impl std::ops::Add<u32> for Lit {
     type Output = Lit;
 
     fn add(self, rhs: u32) -> Self::Output {
-        Lit {
-            lidx: self.lidx + 2 * rhs,
-        }
+        let lidx = rhs
+            .checked_mul(2)
+            .and_then(|rhs| self.lidx.checked_add(rhs))
+            .expect("variable index overflow");
+        Lit { lidx }
     }
 }
 
 impl std::ops::AddAssign<u32> for Lit {
     fn add_assign(&mut self, rhs: u32) {
-        self.lidx += 2 * rhs;
+        *self = *self + rhs;
     }
 }
 
@@ -615,15 +625,17 @@ impl std::ops::Sub<u32> for Lit {
     type Output = Lit;
 
     fn sub(self, rhs: u32) -> Self::Output {
-        Lit {
-            lidx: self.lidx - 2 * rhs,
-        }
+        let lidx = rhs
+            .checked_mul(2)
+            .and_then(|rhs| self.lidx.checked_sub(rhs))
+            .expect("variable index underflow");
+        Lit { lidx }
     }
 }
 
 impl std::ops::SubAssign<u32> for Lit {
     fn sub_assign(&mut self, rhs: u32) {
-        self.lidx -= 2 * rhs;
+        *self = *self - rhs;
     }
 }
 
-- 
2.43.0


From 363540b02c2568db5695272b986cff2313e735ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 23/60] fix: at-most-one encodings count the clauses of every
 call

---
 src/encodings/am1/bimander.rs   | 2 +-
 src/encodings/am1/bitwise.rs    | 2 +-
 src/encodings/am1/commander.rs  | 2 +-
 src/encodings/am1/ladder.rs     | 2 +-
 src/encodings/am1/pairwise.rs   | 2 +-
 src/encodings/am1/twoproduct.rs | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encodings/am1/bimander.rs b/src/encodings/am1/bimander.rs
index a42de05..31e7ac1 100644
--- a/src/encodings/am1/bimander.rs
+++ b/src/encodings/am1/bimander.rs
@@ -73,7 +73,7 @@ where
             sub.encode(collector, var_manager)?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/bitwise.rs b/src/encodings/am1/bitwise.rs
index 5c4a1d5..9992ef9 100644
--- a/src/encodings/am1/bitwise.rs
+++ b/src/encodings/am1/bitwise.rs
@@ -61,7 +61,7 @@ impl Encode for Bitwise {
             (0..self.in_lits.len()).flat_map(|idx| (0..p as usize).map(move |k| clause(idx, k))),
         )?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += p;
         Ok(())
     }
diff --git a/src/encodings/am1/commander.rs b/src/encodings/am1/commander.rs
index b451054..c2e99e6 100644
--- a/src/encodings/am1/commander.rs
+++ b/src/encodings/am1/commander.rs
@@ -73,7 +73,7 @@ where
         let mut sub = Sub::from(commanders);
         sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/ladder.rs b/src/encodings/am1/ladder.rs
index 21dacc8..bc3e011 100644
--- a/src/encodings/am1/ladder.rs
+++ b/src/encodings/am1/ladder.rs
@@ -70,7 +70,7 @@ impl Encode for Ladder {
             collector.extend_clauses(crate::encodings::atomics::lit_impl_cube(lit, cube))?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += u32::try_from(self.in_lits.len())
             .expect("cannot handle more than `u32::MAX` variables")
             - 1;
diff --git a/src/encodings/am1/pairwise.rs b/src/encodings/am1/pairwise.rs
index e247835..28496c1 100644
--- a/src/encodings/am1/pairwise.rs
+++ b/src/encodings/am1/pairwise.rs
@@ -45,7 +45,7 @@ impl Encode for Pairwise {
             (first + 1..self.in_lits.len()).map(move |second| !lits[first] | !lits[second])
         });
         collector.extend_clauses(clause_iter)?;
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         Ok(())
     }
 }
diff --git a/src/encodings/am1/twoproduct.rs b/src/encodings/am1/twoproduct.rs
index e393866..121c0de 100644
--- a/src/encodings/am1/twoproduct.rs
+++ b/src/encodings/am1/twoproduct.rs
@@ -81,7 +81,7 @@ where
         let mut col_sub = Sub::from(aux_cols);
         col_sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
-- 
2.43.0


From 88265ae3d2e722263f355a8b70387e0e230df6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 24/60] fix: reserved variables count as variables of the
 encoding

---
 src/encodings/card/totalizer/mod.rs | 2 ++
 src/encodings/pb/adder.rs           | 2 ++
 src/encodings/pb/dpw/mod.rs         | 2 ++
 src/encodings/pb/gte/mod.rs         | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..4329742 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -175,7 +175,9 @@ impl super::EncodeIncremental for Totalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree();
         if let Some(root) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(NodeCon::full(root), var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..1b4eae3 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -412,6 +412,7 @@ impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_structure();
 
+        let n_vars_before = var_manager.n_used();
         if let Some(structure) = &self.structure {
             for &o in &structure.outputs {
                 if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
@@ -419,6 +420,7 @@ impl super::EncodeIncremental for BinaryAdder {
                 }
             }
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..1a67da2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -271,6 +271,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
+        let n_vars_before = var_manager.n_used();
         if self.structure.is_none() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -284,6 +285,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             self.db
                 .reserve_vars(NodeCon::full(structure.root()), var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..725749f 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -231,7 +231,9 @@ impl super::EncodeIncremental for GeneralizedTotalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree(usize::MAX);
         if let Some(con) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(con, var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
-- 
2.43.0


From 54c288bc9ab6e8c31d436d20eb3005a9401f1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 25/60] fix: reserving variables of an adder does not index
 past its nodes

---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 1b4eae3..7bb4893 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -863,7 +863,7 @@ where
 
 /// Reserves the variables for the last node in `nodes` recursively
 fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
+    let (nodes, node) = nodes.split_at_mut(nodes.len() - 1);
 
     let node = &mut node[0];
     node.reserve(var_manager);
-- 
2.43.0


From 8d078989d93132bed618cfe558fa6386316e00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 26/60] fix: repeated literals and soft clauses keep the sum of
 their weights

---
 src/encodings/pb/adder.rs      |  2 +-
 src/encodings/pb/dpw/mod.rs    |  2 +-
 src/encodings/pb/gte/mod.rs    |  2 +-
 src/encodings/pb/mod.rs        | 13 +++++++++++++
 src/encodings/pb/simulators.rs |  8 ++++----
 src/instances/multiopt.rs      |  2 +-
 src/instances/opt.rs           |  2 +-
 7 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 7bb4893..cf37551 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -447,7 +447,7 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
+        let lits = super::collect_weighted(iter);
         Self::from(lits)
     }
 }
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 1a67da2..9397201 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -437,7 +437,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
+        let lits = super::collect_weighted(iter);
         Self::from(lits)
     }
 }
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 725749f..0ee62e6 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -370,7 +370,7 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
+        let lits = super::collect_weighted(iter);
         Self::from(lits)
     }
 }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..141e08f 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -496,6 +497,18 @@ where
     }
 }
 
+/// Collects weighted literals, summing up the weights of a literal that appears multiple times
+fn collect_weighted<I>(lits: I) -> RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut collected = RsHashMap::default();
+    for (lit, weight) in lits {
+        *collected.entry(lit).or_insert(0) += weight;
+    }
+    collected
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..255b06c 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -82,7 +82,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted(iter);
         Self::from(lits)
     }
 }
@@ -92,7 +92,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weighted(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -551,7 +551,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted(iter);
         Self::from(lits)
     }
 }
@@ -562,7 +562,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 4152ac9..08b51ab 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -473,7 +473,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 8b638ae..f0f90b4 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1703,7 +1703,7 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 9cf506c894c02bcf0250705eeb82a96208e1cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 27/60] fix: converting an objective to soft clauses sums up
 the weights of equal clauses

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index f0f90b4..7448adb 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -628,7 +628,7 @@ impl Objective {
             } => {
                 soft_clauses.reserve(soft_lits.len());
                 for (l, w) in soft_lits {
-                    soft_clauses.insert(crate::clause![!l], w);
+                    *soft_clauses.entry(crate::clause![!l]).or_default() += w;
                 }
                 let soft_clauses: Vec<(Clause, usize)> = Vec::from_iter(soft_clauses);
                 (soft_clauses, offset)
-- 
2.43.0


From af8aea5c1aba572f0ae868373c35eed54004d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 28/60] fix: normalizing a constant objective keeps its offset

---
 src/instances/opt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 7448adb..7234db4 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -946,7 +946,12 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        soft_lits: vec![],
+                        soft_clauses: vec![],
+                        unit_weight: None,
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
-- 
2.43.0


From 9d1a6e360b05f665ceaf615dff6aa7fb7fec20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 29/60] fix: writing DIMACS lines ends comments and names the
 format in the header

---
 src/instances/fio/dimacs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..058e6f8 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,8 +876,8 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -937,7 +937,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
-- 
2.43.0


From ff24fb37ae6a6c53612502f82bc0b812ec5af43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 30/60] fix: writing lines flushes the writer before reporting
 success

---
 src/instances/fio/dimacs.rs | 9 ++++++---
 src/instances/fio/opb.rs    | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 058e6f8..d201279 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -879,7 +879,8 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
         CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
         CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
-    })
+    })?;
+    writer.flush()
 }
 
 #[cfg(feature = "optimization")]
@@ -946,7 +947,8 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
             write!(writer, "{w} ")?;
             write_clause(&mut writer, &cl)
         }
-    })
+    })?;
+    writer.flush()
 }
 
 #[cfg(feature = "multiopt")]
@@ -1034,7 +1036,8 @@ pub fn write_mcnf<W: std::io::Write, Iter: Iterator<Item = McnfLine>>(
             write!(writer, "o {} {} ", oidx + 1, w)?;
             write_clause(&mut writer, &cl)
         }
-    })
+    })?;
+    writer.flush()
 }
 
 fn write_clause<W, C>(writer: &mut W, clause: &C) -> Result<(), std::io::Error>
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..fa5fd12 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -472,7 +472,7 @@ where
             FileLine::Pb(pb) => write_pb(&mut writer, &pb, opts)?,
         }
     }
-    Ok(())
+    writer.flush()
 }
 
 /// Writes an OPB file from an iterator over [`FileLine`]s
@@ -496,7 +496,7 @@ where
             FileLine::Objective(obj) => write_objective(&mut writer, (obj, 0), opts)?,
         }
     }
-    Ok(())
+    writer.flush()
 }
 
 /// Writes a [`SatInstance`] to an OPB file
-- 
2.43.0


From 547c860754f3d42855435216e4e2aa4d216d0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 31/60] fix: mo2ilp flushes its output before reporting success

---
 tools/src/bin/mo2ilp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..d8ec026 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -253,7 +253,7 @@ fn write_instance<W: std::io::Write>(
         writeln!(writer, "{}", (0..vm.n_used()).map(|_| 1).format(" "))?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 fn write_objective<W: std::io::Write>(
-- 
2.43.0


From 2b51d987a371b1748377aaa7fc81ead122cc21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 32/60] fix: reading failures while draining the output of an
 external solver are reported

---
 src/solvers/external.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/solvers/external.rs b/src/solvers/external.rs
index ef53711..d49848e 100644
--- a/src/solvers/external.rs
+++ b/src/solvers/external.rs
@@ -1,6 +1,5 @@
 //! # Solver Interface for External Executables
 
-use std::io::BufRead;
 
 use crate::instances::fio;
 use crate::instances::fio::SolverOutput;
@@ -389,7 +388,7 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
                             // the above function returns early on detecting UNSAT
                             // this processes the remaining output so that the pipe buffer does not
                             // get full and block the solver
-                            for _ in stdout.lines() {}
+                            std::io::copy(&mut stdout, &mut std::io::sink())?;
                             Ok(output)
                         });
                     // main thread writes input to stdin
@@ -426,7 +425,7 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
             // the above function returns early on detecting UNSAT
             // this processes the remaining output so that the pipe buffer does not
             // get full and block the solver
-            for _ in stdout.lines() {}
+            std::io::copy(&mut stdout, &mut std::io::sink())?;
             check_exit_code!(child.wait()?);
             output
         }
-- 
2.43.0


From dc4d76755c5c9cdccff6a9fc5bf79de1ef4ae526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 33/60] fix: reading a clustering instance reports read
 failures and malformed lines

---
 tools/src/encodings/cnf/clustering.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..6db99ff 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,12 +139,15 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(e) => return Some(Err(e.into())),
+                };
+                let line = full_line.trim();
+                if line.is_empty() || line.starts_with('%') {
                     return None;
                 }
-                let tup = winnow::Parser::<_, _, ContextError>::parse(
+                let tup = match winnow::Parser::<_, _, ContextError>::parse(
                     &mut winnow::seq! {
                         ident(),
                         _: multispace1::<_, ContextError>,
@@ -154,8 +157,11 @@ impl Encoding {
                     },
                     line,
                 )
-                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                .map_err(|e| ParsingError::from_parse(&e, line, 0, line_num+1))
+                {
+                    Ok(tup) => tup,
+                    Err(e) => return Some(Err(e.into())),
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
-- 
2.43.0


From 4f70b45d1513124ed0e3285ece508c898cba53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 34/60] fix: a strict less-than OPB constraint excludes its
 bound

---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index fa5fd12..7c455e2 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -388,7 +388,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From 55ce8d05df89420d04919f2f5ec956515cb5a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 35/60] fix: the offset of a maximization objective is negated
 with the objective

---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 08b51ab..6a7a073 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -516,7 +516,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 7234db4..7361338 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1628,7 +1628,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
-- 
2.43.0


From 18398e04904c0585537ad2aa5f1bf936035854d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 36/60] fix: write the offset of an objective to the proof

---
 pigeons/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..d926d96 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -902,7 +902,11 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        match self.obj.offset() {
+            0 => Ok(()),
+            offset => write!(f, " {offset}"),
+        }
     }
 }
 
-- 
2.43.0


From d3dc55c0fb12b164e5f79cba99868cdf592fbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 37/60] fix: count the ids of the subproof of an objective
 update

---
 pigeons/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..b5617f9 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,6 +508,12 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
+        if let ObjectiveUpdate::New(_, subproof, _) = update {
+            for goal in subproof {
+                // negated proof goal + 1 for each derivation
+                self.next_id += 1 + goal.n_derivations();
+            }
+        }
         writeln!(self.writer, "obju {update}")
     }
 
-- 
2.43.0


From 1303573176f4bd8c20b4b29e358333927bc4fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 38/60] fix: the binary adder does not enforce bounds over
 literals it has not encoded

---
 src/encodings/pb/adder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index cf37551..3702566 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -193,6 +193,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -309,6 +312,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-- 
2.43.0


From 32b7b2c9ec24456bc3a286932170d9ac82aadca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 39/60] fix: encoding a binary adder anew forgets the
 previously encoded comparator outputs

---
 src/encodings/pb/adder.rs | 59 +++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 3702566..ea13eb4 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -65,6 +65,28 @@ struct Structure {
 }
 
 impl BinaryAdder {
+    /// Resets the encoding status of all nodes, and of the upper and/or lower bounds of the
+    /// comparator
+    fn reset_encoded(&mut self, ubs: bool, lbs: bool) {
+        for node in &mut self.nodes {
+            let (Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. }) = node;
+            for out in [sum, carry].into_iter().flatten() {
+                out.enc_if = false;
+                out.enc_only_if = false;
+            }
+        }
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.iter_mut().flatten() {
+                if ubs {
+                    out.enc_if = false;
+                }
+                if lbs {
+                    out.enc_only_if = false;
+                }
+            }
+        }
+    }
+
     fn extend_structure(&mut self) {
         if self.lit_buffer.is_empty() {
             return;
@@ -169,23 +191,7 @@ impl super::BoundUpper for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(true, false);
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -285,23 +291,7 @@ impl super::BoundLower for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(false, true);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -406,6 +396,7 @@ impl super::BoundBoth for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.reset_encoded(true, true);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
-- 
2.43.0


From 5328fc1a8ef3948afb393e33edcb452dab236a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:09 +0000
Subject: [PATCH 40/60] fix: the binary adder marks outputs as encoded only
 once their clauses are in

---
 src/encodings/pb/adder.rs | 214 ++++++++++++++------------------------
 1 file changed, 77 insertions(+), 137 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index ea13eb4..62d3ce0 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -255,22 +255,13 @@ impl super::BoundUpperIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val] = Some(Output {
-                        bit,
-                        enc_if: true,
-                        enc_only_if: false,
-                    });
-                    bit
-                };
-                comparator_if(val, output, &outputs, collector)?;
+                let output = Output::get_or_new(&mut structure.comparator[val], var_manager);
+                if output.enc_if {
+                    continue;
+                }
+                comparator_if(val, output.bit, &outputs, collector)?;
+                // only marked as encoded once all clauses are in
+                output.enc_if = true;
             }
         }
 
@@ -360,22 +351,13 @@ impl super::BoundLowerIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_only_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val - 1] = Some(Output {
-                        bit,
-                        enc_if: false,
-                        enc_only_if: true,
-                    });
-                    bit
-                };
-                comparator_only_if(val - 1, output, &outputs, collector)?;
+                let output = Output::get_or_new(&mut structure.comparator[val - 1], var_manager);
+                if output.enc_if {
+                    continue;
+                }
+                comparator_only_if(val - 1, output.bit, &outputs, collector)?;
+                // only marked as encoded once all clauses are in
+                output.enc_only_if = true;
             }
         }
 
@@ -539,6 +521,20 @@ struct Output {
     enc_only_if: bool,
 }
 
+impl Output {
+    /// Gets the output, or a not yet encoded new one
+    fn get_or_new<'out>(
+        output: &'out mut Option<Output>,
+        var_manager: &mut dyn ManageVars,
+    ) -> &'out mut Output {
+        output.get_or_insert_with(|| Output {
+            bit: var_manager.new_lit(),
+            enc_if: false,
+            enc_only_if: false,
+        })
+    }
+}
+
 #[inline]
 fn get_bit_if<Col>(
     con: Connection,
@@ -599,21 +595,11 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = Output::get_or_new(sum, var_manager);
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -624,24 +610,16 @@ where
             collector.add_clause(a | !b | c | sum)?;
             collector.add_clause(a | b | !c | sum)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_if = true;
             Ok(sum)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = Output::get_or_new(sum, var_manager);
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -649,6 +627,8 @@ where
             collector.add_clause(!a | b | sum)?;
             collector.add_clause(a | !b | sum)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_if = true;
             Ok(sum)
         }
     }
@@ -668,21 +648,11 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = Output::get_or_new(sum, var_manager);
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
@@ -693,24 +663,16 @@ where
             collector.add_clause(!a | b | !c | !sum)?;
             collector.add_clause(!a | !b | c | !sum)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_only_if = true;
             Ok(sum)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = Output::get_or_new(sum, var_manager);
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
@@ -718,6 +680,8 @@ where
             collector.add_clause(a | b | !sum)?;
             collector.add_clause(!a | !b | !sum)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_only_if = true;
             Ok(sum)
         }
     }
@@ -737,21 +701,11 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = Output::get_or_new(carry, var_manager);
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -761,30 +715,24 @@ where
             collector.add_clause(!a | !c | carry)?;
             collector.add_clause(!a | !b | carry)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_if = true;
             Ok(carry)
         }
         Node::Half { a, b, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = Output::get_or_new(carry, var_manager);
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(!a | !b | carry)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_if = true;
             Ok(carry)
         }
     }
@@ -804,21 +752,11 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_only_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_only_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = Output::get_or_new(carry, var_manager);
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -828,6 +766,8 @@ where
             collector.add_clause(a | c | !carry)?;
             collector.add_clause(a | b | !carry)?;
 
+            // only marked as encoded once all clauses are in
+            out.enc_only_if = true;
             Ok(carry)
         }
         Node::Half { a, b, carry, .. } => {
-- 
2.43.0


From cf9ea8049507b40f6465c683707a67feb0b4f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:10 +0000
Subject: [PATCH 41/60] fix: encoding both bounds of a totalizer anew forgets
 what was encoded before

---
 src/encodings/card/totalizer/mod.rs        | 1 +
 src/encodings/card/totalizer/referenced.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 4329742..e6f1cc2 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -360,6 +360,7 @@ impl super::BoundBoth for Totalizer {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..8f42d38 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,7 +191,7 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -232,7 +232,7 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -385,6 +385,7 @@ impl crate::encodings::card::BoundBoth for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
@@ -402,6 +403,9 @@ impl crate::encodings::card::BoundBoth for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db
+            .borrow_mut()
+            .reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
-- 
2.43.0


From 5c971a271f16c31df1d0a85c59d96c8a8b0c7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:10 +0000
Subject: [PATCH 42/60] fix: lower bounds of totalizers with an offset and of
 referenced totalizers

---
 src/encodings/card/totalizer/mod.rs        | 4 ++--
 src/encodings/card/totalizer/referenced.rs | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index e6f1cc2..7e01afc 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -280,10 +280,10 @@ impl super::BoundLower for Totalizer {
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
-        if lb <= self.offset {
+        if lb == 0 {
             return Ok(vec![]);
         }
-        if lb > self.n_lits() + self.offset {
+        if lb > self.n_lits() - self.offset {
             return Err(EnforceError::Unsat);
         }
         if !self.lit_buffer.is_empty() {
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8f42d38..7f1679f 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -196,6 +196,9 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
@@ -237,6 +240,9 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
-- 
2.43.0


From fd8ec07f6f314e9a6948da97a7bcc9079f4c206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 43/60] fix: a reserved output of the dynamic polynomial
 watchdog does not enforce a bound

---
 src/encodings/pb/dpw/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 9397201..bf579d7 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -838,8 +838,17 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
-        return Err(EnforceError::NotEncoded);
+    // an output that is merely reserved does not enforce anything
+    let olit = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => *lit,
+        totdb::Node::Unit(node) => match node.lits[oidx] {
+            totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } if semantics.has_if() => lit,
+            _ => return Err(EnforceError::NotEncoded),
+        },
+        totdb::Node::General(_) | totdb::Node::Dummy => unreachable!(),
     };
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-- 
2.43.0


From 8be1e28e8e19a8d9a1276d79bd77bc2df3cf6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 44/60] fix: no panic when enforcing a bound on a dynamic
 polynomial watchdog without inputs

---
 src/encodings/pb/dpw/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index bf579d7..4e1a82d 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -325,8 +325,10 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             if self.in_lits.len() > 1 {
                 return Err(EnforceError::NotEncoded);
             }
-            debug_assert_eq!(self.in_lits.len(), 1);
-            let (l, w) = self.in_lits.iter().next().unwrap();
+            let Some((l, w)) = self.in_lits.iter().next() else {
+                // without any inputs, every upper bound holds
+                return Ok(vec![]);
+            };
             Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
                 vec![]
             } else {
-- 
2.43.0


From 6cc4fabef9dfc3bc6b3dda664c898ef6e734484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 45/60] fix: totalizer outputs are marked as encoded only once
 their clauses are in

---
 src/encodings/totdb/cert.rs | 6 +++---
 src/encodings/totdb/mod.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..96aadc5 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -1005,9 +1005,6 @@ impl super::Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         let n_left_leaves = pre.lcon.len_limit.map_or(
             if pre.lcon.offset() == 0 {
                 self[pre.lcon.id].n_leaves()
@@ -1122,6 +1119,9 @@ impl super::Db {
             collector.add_cert_clause(clause, id)?;
         }
 
+        // Mark positive literal as encoded (only once all clauses are in)
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..7a5464a 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -446,9 +446,6 @@ impl Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         // Get lit slices of children
         let l_tmp_olit;
         let llits = get_lit_slice!(self, pre.lcon.id, l_tmp_olit);
@@ -493,6 +490,9 @@ impl Db {
         };
         collector.extend_clauses(pre.left_only_if.clone().map(only_if_clause))?;
 
+        // Mark positive literal as encoded (only once all clauses are in)
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
-- 
2.43.0


From 046bccc6ea40f309f0246f61ad8239200536309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:56 +0000
Subject: [PATCH 46/60] fix: passing through a dummy totalizer node encodes the
 requested direction

---
 src/encodings/totdb/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index 7a5464a..aae33de 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -526,7 +526,12 @@ impl Db {
                     var_manager,
                 )?;
                 let olit = self.get_olit(id, idx, var_manager);
-                collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                if semantics.has_if() {
+                    collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                }
+                if semantics.has_only_if() {
+                    collector.add_clause(crate::encodings::atomics::lit_impl_lit(olit, ilit))?;
+                }
                 // Mark positive literal as encoded
                 self[id].mut_unit().lits[idx].add_semantics(semantics);
                 return Ok(olit);
-- 
2.43.0


From e399fd4faf041d579d1552bee82ef6e3073442ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 47/60] fix: encoding both bounds of a totalizer anew with
 proof logging forgets what was encoded before

---
 src/encodings/card/totalizer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 7e01afc..83572ba 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -642,6 +642,7 @@ impl super::cert::BoundBoth for Totalizer {
         use super::cert::BoundLowerIncremental;
         use super::cert::BoundUpperIncremental;
 
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
         self.encode_lb_change_cert(range, collector, var_manager, proof)?;
         Ok(())
-- 
2.43.0


From e9fa056850cf6c4617f89c8ae60368e7bfa5b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:56 +0000
Subject: [PATCH 48/60] fix: do not reuse an unsatisfiable verdict of CaDiCaL
 that depended on a temporary clause

---
 cadical/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index e567baa..66189f9 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -251,6 +251,17 @@ impl CaDiCaL<'_, '_> {
         Ok(core)
     }
 
+    /// Whether the last answer was unsatisfiable without depending on assumptions or on the
+    /// temporary clause, which are both gone by now
+    fn is_unconditionally_unsat(&self) -> bool {
+        match &self.state {
+            InternalSolverState::Unsat(core) => {
+                core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0
+            }
+            _ => false,
+        }
+    }
+
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
@@ -475,10 +486,8 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
-                return Ok(SolverResult::Unsat);
-            }
+        if self.is_unconditionally_unsat() {
+            return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
@@ -715,10 +724,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
-                return Ok(SolverResult::Unsat);
-            }
+        if self.is_unconditionally_unsat() {
+            return Ok(SolverResult::Unsat);
         }
         let start = rustsat::utils::Timer::now();
         // The previous answer is gone as soon as the backend starts working, even if it fails
-- 
2.43.0


From 5b9e852aa422ad9d02d3f03c5826efbb688a9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 49/60] fix: encoding both bounds over a range without lower
 end includes bound zero

---
 src/encodings/card/mod.rs | 2 +-
 src/encodings/pb/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..bf6a152 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 141e08f..8681a60 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -549,7 +549,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
-- 
2.43.0


From ca87a932bcb4940e775724e25c33c11494f65a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 50/60] fix: inverted encodings do not underflow on empty
 ranges of bounds

---
 src/encodings/card/simulators.rs | 10 ++++------
 src/encodings/pb/simulators.rs   | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..9b1ee60 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,12 +53,10 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
-        let min = self.n_lits() - (range.end - 1);
-        let max = if self.n_lits() >= range.start {
-            self.n_lits() - range.start + 1
-        } else {
-            0
-        };
+        // `b` maps to `self.n_lits() - b`; both ends are at most `self.n_lits() + 1` if the range is not
+        // empty
+        let min = (self.n_lits() + 1).saturating_sub(range.end);
+        let max = (self.n_lits() + 1).saturating_sub(range.start);
         min..max
     }
 }
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 255b06c..9a66310 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,12 +53,10 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
-        let min = self.weight_sum() - (range.end - 1);
-        let max = if self.weight_sum() >= range.start {
-            self.weight_sum() - range.start + 1
-        } else {
-            0
-        };
+        // `b` maps to `self.weight_sum() - b`; both ends are at most `self.weight_sum() + 1` if the range is not
+        // empty
+        let min = (self.weight_sum() + 1).saturating_sub(range.end);
+        let max = (self.weight_sum() + 1).saturating_sub(range.start);
         min..max
     }
 }
-- 
2.43.0


From 0b1753647f9f3a567ee304114bd6aea5d62ec292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 51/60] fix: inverted certified pseudo-Boolean encodings encode
 the requested lower bounds

---
 src/encodings/pb/simulators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 9a66310..f6ac8d3 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -258,7 +258,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -429,7 +429,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
-- 
2.43.0


From 21e92ebaa00cff69091094da9faaa35bb41ef406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 52/60] fix: encoding an equality whose bound is no multiple of
 its coefficients does not panic

---
 src/encodings/pb/cert.rs | 27 ++++++++++++++++++++-------
 src/encodings/pb/mod.rs  |  9 +++++++--
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..6fc495b 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -6,7 +6,9 @@ use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
+use crate::types::Var;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
 /// ub`
@@ -383,13 +385,24 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        let card = crate::utils::unreachable_err!(constr.into_card_constr());
-        return card::cert::default_encode_cardinality_constraint(
-            (card, id),
-            collector,
-            var_manager,
-            proof,
-        );
+        let weight = constr.iter().next().map_or(1, |&(_, weight)| weight);
+        return match constr.into_card_constr() {
+            Ok(card) => card::cert::default_encode_cardinality_constraint(
+                (card, id),
+                collector,
+                var_manager,
+                proof,
+            ),
+            // equality where the bound is not a multiple of the coefficients
+            Err(PbToCardError::Unsat) => {
+                let ge_id = pigeons::OperationSequence::<Var>::from(id) / weight;
+                let le_id = pigeons::OperationSequence::<Var>::from(id + 1) / weight;
+                let empty_id = proof.operations(&(ge_id + le_id))?;
+                collector.add_cert_clause(crate::clause![], empty_id)?;
+                Ok(())
+            }
+            Err(PbToCardError::NotACard | PbToCardError::Tautology) => unreachable!(),
+        };
     }
     match PBE::encode_constr_cert((constr, id), collector, var_manager, proof) {
         Ok(()) => Ok(()),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 8681a60..93b4b79 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -39,6 +39,7 @@ use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbEqConstr;
 use crate::types::constraints::PbLbConstr;
+use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -487,8 +488,12 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
-        return card::default_encode_cardinality_constraint(card, collector, var_manager);
+        return match constr.into_card_constr() {
+            Ok(card) => card::default_encode_cardinality_constraint(card, collector, var_manager),
+            // equality where the bound is not a multiple of the coefficients
+            Err(PbToCardError::Unsat) => collector.add_clause(Clause::new()),
+            Err(PbToCardError::NotACard | PbToCardError::Tautology) => unreachable!(),
+        };
     }
     match PBE::encode_constr(constr, collector, var_manager) {
         Ok(()) => Ok(()),
-- 
2.43.0


From 881b463a8664820f912cebdf3d61bf7015d9d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 53/60] fix: evaluating cardinality and pseudo-Boolean
 constraints under partial assignments

---
 src/types/constraints.rs | 67 ++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..a1fb466 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -887,13 +887,20 @@ impl CardConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
-        match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+        let (fulfilled, violated) = match self {
+            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.end <= *b, range.start > *b),
+            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b, range.end < *b),
+            CardConstraint::Eq(CardEqConstr { b, .. }) => (
+                range.start == *b && range.end == *b,
+                range.start > *b || range.end < *b,
+            ),
+        };
+        if fulfilled {
+            TernaryVal::True
+        } else if violated {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
@@ -1622,33 +1629,27 @@ impl PbConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
+        // values that do not fit an `isize` are above every bound
+        let above = |sum: usize, b: isize| isize::try_from(sum).map_or(true, |sum| sum > b);
+        let below = |sum: usize, b: isize| isize::try_from(sum).is_ok_and(|sum| sum < b);
+        let (fulfilled, violated) = match self {
+            PbConstraint::Ub(PbUbConstr { b, .. }) => {
+                (!above(range.end, *b), above(range.start, *b))
             }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+            PbConstraint::Lb(PbLbConstr { b, .. }) => {
+                (!below(range.start, *b), below(range.end, *b))
+            }
+            PbConstraint::Eq(PbEqConstr { b, .. }) => (
+                !below(range.start, *b) && !above(range.end, *b),
+                above(range.start, *b) || below(range.end, *b),
+            ),
+        };
+        if fulfilled {
+            TernaryVal::True
+        } else if violated {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
-- 
2.43.0


From 340bd7775ffe047251198c004c64d7ebbb0a2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 54/60] fix: extending a pseudo-Boolean constraint with a
 negative bound panics as documented

---
 src/types/constraints.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index a1fb466..260c264 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1817,7 +1817,7 @@ impl PbUbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("cannot extend a constraint with a negative bound"),
         }
     }
 
@@ -1949,7 +1949,7 @@ impl PbLbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("cannot extend a constraint with a negative bound"),
         }
     }
 
@@ -2078,7 +2078,7 @@ impl PbEqConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("cannot extend a constraint with a negative bound"),
         }
     }
 
-- 
2.43.0


From 898800e8f503205067dee56f080b22e6a23cc697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 55/60] fix: certified simulated encodings report trivial
 constraints instead of extending them

---
 src/encodings/pb/simulators.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index f6ac8d3..e3d8384 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -1018,6 +1018,12 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
@@ -1082,6 +1088,12 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_lb_constr_cert((constr, id), collector, var_manager, proof)
     }
-- 
2.43.0


From 286b8e3258b4de8801933ce18559df8fa4c58fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 56/60] fix: inverting cardinality bounds beyond the number of
 literals does not underflow

---
 src/types/constraints.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 260c264..7c5fe5a 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1024,11 +1024,9 @@ impl CardUbConstr {
         self.lits.iter_mut().for_each(|l| {
             *l = !*l;
         });
-        let length = self.lits.len();
-        CardLbConstr {
-            lits: self.lits,
-            b: length - self.b,
-        }
+        // an upper bound that exceeds the number of literals is a tautology, as is a lower bound of zero
+        let b = self.lits.len().saturating_sub(self.b);
+        CardLbConstr { lits: self.lits, b }
     }
 
     /// Checks if the constraint is always satisfied
@@ -1081,16 +1079,21 @@ impl CardLbConstr {
     }
 
     /// Converts the lower bound constraint into an equivalent upper bound constraint
+    ///
+    /// # Panics
+    ///
+    /// If the constraint is unsatisfiable, since no upper bound constraint over the same literals is
     #[must_use]
     pub fn invert(mut self) -> CardUbConstr {
         self.lits.iter_mut().for_each(|l| {
             *l = !*l;
         });
-        let length = self.lits.len();
-        CardUbConstr {
-            lits: self.lits,
-            b: length - self.b,
-        }
+        let b = self
+            .lits
+            .len()
+            .checked_sub(self.b)
+            .expect("cannot invert an unsatisfiable constraint");
+        CardUbConstr { lits: self.lits, b }
     }
 
     /// Checks if the constraint is always satisfied
-- 
2.43.0


From 202e7fee247f7b378e5ac77ab6b7e2c909e1db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 57/60] fix: reification of tautological upper bounds does not
 constrain the literals

---
 src/encodings/atomics.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..810e6c4 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -132,9 +132,12 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * lits.len() - bound - 1;
+            // any bound larger than the number of literals is equally tautological
+            let bound = std::cmp::min(*bound, lits.len());
+            let weight = std::cmp::max(lits.len(), bound + 1);
+            let bound = weight + lits.len() - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
-            lits.push((!lit, lits.len()));
+            lits.push((!lit, weight));
             PbConstraint::new_ub_unsigned(
                 lits,
                 isize::try_from(bound).expect("cannot handle bounds larger than `isize::MAX`"),
@@ -209,9 +212,12 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * ws - bound - 1;
+            // any bound larger than the sum of weights is equally tautological
+            let bound = std::cmp::min(*bound, ws);
+            let weight = std::cmp::max(ws, bound + 1);
+            let bound = weight + ws - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|(lit, w)| (!*lit, *w)).collect();
-            lits.push((!lit, pb.weight_sum()));
+            lits.push((!lit, weight.unsigned_abs()));
             PbConstraint::new_ub_unsigned(lits, bound)
         }
         PbConstraint::Lb(c) => {
-- 
2.43.0


From cd1f1287b0662f66eca6cffb04c4a7c6f0283956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:07 +0000
Subject: [PATCH 58/60] fix: normalizing an unweighted objective detects
 duplicate literals before touching the offset

---
 src/instances/opt.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 7361338..97d1836 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1017,6 +1017,11 @@ impl Objective {
                 }
 
                 soft_lits.sort_unstable();
+                if soft_lits.windows(2).any(|pair| pair[0] == pair[1]) {
+                    // duplicate literal: objective is actually weighted
+                    self.unweighted_2_weighted();
+                    return self.normalize();
+                }
                 let mut next = 0;
                 let mut end = 0;
                 while next + 1 < soft_lits.len() {
@@ -1027,11 +1032,6 @@ impl Objective {
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
-- 
2.43.0


From 8d4593de50d74f836bbfe1895e8ae2c50d9bf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:07 +0000
Subject: [PATCH 59/60] fix: weights of repeated soft literals and clauses in
 unweighted objectives are accumulated

---
 src/instances/opt.rs | 55 ++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 97d1836..20bddbc 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -38,6 +38,13 @@ enum IntObj {
 )]
 pub struct Objective(IntObj);
 
+/// Removes all occurrences of a soft literal or clause and returns how many there were
+fn remove_all<T: PartialEq>(softs: &mut Vec<T>, soft: &T) -> usize {
+    let n_before = softs.len();
+    softs.retain(|other| other != soft);
+    n_before - softs.len()
+}
+
 impl From<IntObj> for Objective {
     fn from(obj: IntObj) -> Self {
         Self(obj)
@@ -400,18 +407,15 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    match remove_all(soft_lits, &l) {
+                        0 => None,
+                        n => Some(n * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        let n_old = remove_all(soft_lits, &l);
                         soft_lits.push(l);
-                        None
+                        (n_old > 0).then_some(n_old * w)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -500,18 +504,15 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    match remove_all(soft_clauses, &cl) {
+                        0 => None,
+                        n => Some(n * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        let n_old = remove_all(soft_clauses, &cl);
                         soft_clauses.push(cl);
-                        None
+                        (n_old > 0).then_some(n_old * w)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -572,13 +573,10 @@ impl Objective {
                 unit_weight,
                 soft_lits,
                 ..
-            } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
-                }
-            }
+            } => match soft_lits.iter().filter(|l2| *l2 == &l).count() {
+                0 => None,
+                n => Some(n * crate::utils::unreachable_none!(*unit_weight)),
+            },
         }
     }
 
@@ -591,13 +589,10 @@ impl Objective {
                 unit_weight,
                 soft_clauses,
                 ..
-            } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
-                }
-            }
+            } => match soft_clauses.iter().filter(|cl2| *cl2 == cl).count() {
+                0 => None,
+                n => Some(n * crate::utils::unreachable_none!(*unit_weight)),
+            },
         }
     }
 
-- 
2.43.0


From 8b867b6fd8e62dffac2dbc719d4cffe5ae0f333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:06 +0000
Subject: [PATCH 60/60] fix: keep reading DIMACS files after a malformed line

The buffer still held the malformed line, so that the next line was appended to
it (or a debug assertion failed).
---
 src/instances/fio/dimacs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index d201279..713ed1f 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -75,7 +75,8 @@ impl<Variant, R> Parser<Variant, R> {
     where
         R: std::io::BufRead,
     {
-        debug_assert!(self.buffer.is_empty());
+        // if parsing the last line failed, it is still in the buffer
+        self.buffer.clear();
         loop {
             let read = self.reader.read_line(&mut self.buffer)?;
             if read == 0 {
@@ -127,7 +128,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<CnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some((n_vars, n_clauses)) = self.variant.header_data {
             return Ok(CnfHeaderData {
                 n_vars,
@@ -361,7 +361,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<WcnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some(header_data) = self.variant.header_data {
             return Ok(match header_data {
                 WcnfInternalHeaderData::Pre22 {
-- 
2.43.0

