From 2ba1a2a6a39b47efa3e0d505bf7d9ae423acbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:48 +0000
Subject: [PATCH 01/27] fix: start every elaboration with empty element lists

The nonlinear/independent/dependent/storage element lists were appended to
on every elaboration, so a second analysis on the same Engine stamped every
such element twice.
---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..7417f68 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -469,6 +469,12 @@ impl Engine {
         self.c_vsrcs = ckt.count_voltage_sources();
         println!("*INFO* There are {} voltage sources in the design", self.c_vsrcs);
 
+        // forget about the elements of any previously elaborated circuit
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         trace!("Building Voltage Node Matrix and Current Vector");
 
         // Modified Nodal Analysis (MNA) Matrix
-- 
2.43.0


From afa39dbd990de8da8d92069279f2c94b343e8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:05 +0000
Subject: [PATCH 02/27] fix: a non-finite solution is always reported as
 divergent

convergence_check() let a later Ok(false) overwrite Err(Divergent), so the
solvers kept iterating on NaN/infinite values; a NaN difference also counted
as within the limit.
---
 src/engine.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7417f68..8c9d96f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -968,8 +968,7 @@ impl Engine {
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
                 println!("*ERROR* math gone bad - infinites in convergence check {}", i);
-                res = Err(ConvergenceError::Divergent);
-                continue;
+                return Err(ConvergenceError::Divergent);
             }
             let limit: f64 = if i < self.c_nodes {
                 x.abs() * cfg.RELTOL + cfg.VNTOL
@@ -979,7 +978,8 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            // a NaN difference must not count as converged
+            if this.is_nan() || this > limit {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From 676aab517a1ddfe0e32ee22edde08904f674302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:22 +0000
Subject: [PATCH 03/27] fix: do not advance simulation time over a failed
 timestep

A failed timestep still added t_delta to the time (clamped to TSTOP) before
leaving the loop, so a failed run could report that it ended at TSTOP.
---
 src/engine.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8c9d96f..9488766 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -311,6 +311,12 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -336,12 +342,6 @@ impl Engine {
                 is_final_timestep = true;
 
             } // solver
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From ae5d5192d6bcd3eddb9d9cf7386e4d37d377b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:38 +0000
Subject: [PATCH 04/27] fix: label transient points with the time they were
 solved at

t_delta was doubled for the next step before it was added to the time, so
rows were labelled with a time other than the one the sources were evaluated
at, the last point was solved beyond TSTOP but labelled TSTOP, and landing
exactly on TSTOP simulated an extra step.
---
 src/engine.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 9488766..81cd3da 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -235,6 +235,9 @@ impl Engine {
             let mut converged = false;
             let mut error = false;
 
+            // the timepoint to solve at, which is never beyond the end
+            let mut t_next = (t_now + t_delta).min(cfg.TSTOP);
+
             // solver iteration count
             let mut c_itl: usize = 0;
             let mut unknowns_solve : Vec<f64> = vec![0.0; c_mna];
@@ -254,13 +257,13 @@ impl Engine {
                 let mut m = self.base_matrix.clone();
 
                 // stamp independent sources
-                self.independent_source_stamp(&mut m, t_now + t_delta);
+                self.independent_source_stamp(&mut m, t_next);
 
                 // Stamp voltage-dependent sources
                 self.v_dependent_source_stamp(&mut m);
 
                 // stamp elements that store energy
-                self.storage_stamp(&mut m, &unknowns_prev, t_delta);
+                self.storage_stamp(&mut m, &unknowns_prev, t_next - t_now);
 
                 // stamp companion models of nonlinear devices
                 self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
@@ -286,7 +289,8 @@ impl Engine {
                         } else {
                             // adjust timestep if we can
                             if c_itl >= cfg.ITL4 {
-                                t_delta *= cfg.FT;
+                                t_delta = (t_next - t_now) * cfg.FT;
+                                t_next = t_now + t_delta;
                                 // check if we're ok to continue iterating
                                 if t_delta < t_delta_min {
                                     println!("*ERROR* Internal timestep too small");
@@ -336,12 +340,8 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
+            t_now = t_next;
+            is_final_timestep = t_now >= cfg.TSTOP;
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From 43b748a3b3e4ceb10ce80180e1b132ad4d8c1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:54 +0000
Subject: [PATCH 05/27] fix: start transient storage history from the DC
 operating point

The companion models of the capacitors saw 0V at the first timestep instead
of the DC operating point that is used as initial value everywhere else.
---
 src/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 81cd3da..57ed8d3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,8 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        // the energy storage elements start out from the DC operating point
+        let mut unknowns_prev : Vec<f64> = self.dc_op.clone();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From 1c5314356b850c778b617c334e3fbb4f509a9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:14 +0000
Subject: [PATCH 06/27] fix: default RMIN allows the timestep to be reduced

RMIN is a factor on TSTEP for the smallest timestep. At 1e03 that minimum was
above the largest timestep (RMAX*TSTEP), so the first reduction always failed
with 'Internal timestep too small'. Use the documented default of 1e-9.
---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..77f3cea 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-9,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From efce21d2232735d76bf49b90315a8c3edd691b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 07/27] fix: do not start a transient analysis from a failed DC
 operating point

---
 src/engine.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 57ed8d3..707d499 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -61,6 +61,9 @@ pub struct Engine {
     // DC operating point
     dc_op: Vec<f64>,
 
+    // Did the last DC operating point solve converge?
+    dc_converged: bool,
+
 }
 
 impl Engine {
@@ -76,6 +79,7 @@ impl Engine {
             v_dependent_sources: vec![],
             storage_elements: vec![],
             dc_op: vec![],
+            dc_converged: false,
         }
     }
 
@@ -186,6 +190,15 @@ impl Engine {
 
         trace!(" [TRANSIENT] : DC : {:?}", &unknowns);
 
+        if !self.dc_converged {
+            println!("*ERROR* no DC operating point to start the transient analysis from");
+            return analysis::Statistics {
+                kind: analysis::Kind::Transient,
+                end: 0.0,
+                iterations: dc_op_stats.iterations,
+            };
+        }
+
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
         // the energy storage elements start out from the DC operating point
@@ -435,6 +448,7 @@ impl Engine {
         };
 
         self.dc_op = unknowns.clone();
+        self.dc_converged = converged;
         stats
     }
 
-- 
2.43.0


From 4b95c8d44989ae4c649ac39b2793e3425f994e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 08/27] fix: everything after a semicolon is a comment

---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..a14e87c 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let card = line.split(';').next().unwrap_or("");
+            let bits :Vec<&str> = card.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From b23f199bb815753f576ec58aa157fbfada43ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 09/27] fix: a card that can't be understood is an error in the
 deck

---
 src/spice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index a14e87c..95ff6fa 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -217,6 +217,9 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* can't extract current source: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -237,36 +240,42 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -401,6 +410,7 @@ impl Reader {
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
         if bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
+            self.there_are_errors = true;
             return;
         }
 
@@ -442,6 +452,7 @@ impl Reader {
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
             println!("*ERROR* not enough parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -480,6 +491,7 @@ impl Reader {
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
             println!("*ERROR* not enough parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
-- 
2.43.0


From a47f18884ce4b5365e6a1bec6f88d0c07c3317c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 10/27] fix: check node names on .subckt and X cards

---
 src/spice.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 95ff6fa..3b6586c 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -313,8 +313,14 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            let nid = self.extract_node(nn);
                             num_ports += 1;
+
+                            // ports are bound by position when expanding
+                            if nid != num_ports {
+                                println!("*ERROR* ground or duplicate port '{}'", nn);
+                                self.there_are_errors = true;
+                            }
                         }
                         self.ckts[self.c].num_ports = num_ports;
 
@@ -626,7 +632,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From 6b7744e99d457ed25b9584911fcaa317af56793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 11/27] fix: a .subckt without a .ends is an error in the deck

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 3b6586c..1a5ac40 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -375,6 +375,11 @@ impl Reader {
             //println!("{}", line);
         }
 
+        if in_subckt {
+            println!("*ERROR* .subckt without a .ends");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 6e7e81b14daf21a70b0124d2ab6fca436a489192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 12/27] fix: a malformed number is not a value instead of a
 crash

---
 src/bracket_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..0b46ea4 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -148,7 +148,7 @@ pub fn extract_value(text: &str) -> Option<f64> {
     let mut text_iter = text.chars();
 
     fn eval( txt :&str, mult: f64) -> Option<f64> {
-        Some( txt.parse::<f64>().unwrap() * mult )
+        txt.parse::<f64>().ok().map(|val| val * mult)
     }
 
     'things: loop {
-- 
2.43.0


From 2c903ae1761cfdf6c66d090d04bb2b1557a591bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 13/27] fix: an unterminated bracket expression is reported
 instead of a crash

---
 src/bracket_expression.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 0b46ea4..f331861 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -62,34 +62,25 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
         return None
     }
 
-    while expr_str[i].is_whitespace() {
+    while i < expr_str.len() && expr_str[i].is_whitespace() {
         i += 1;
-        if i >expr_str.len() {
-            return None;
-        }
     }
 
     trace!("looking for identifier");
     let mut ident_chars: Vec<char> = vec![];
-    while expr_str[i].is_ascii_alphanumeric() {
+    while i < expr_str.len() && expr_str[i].is_ascii_alphanumeric() {
         ident_chars.push(expr_str[i]);
         i += 1;
-        if i > expr_str.len() {
-            return None;
-        }
     }
 
     let ident: String = ident_chars.into_iter().collect();
 
     trace!("looking for '}}'");
-    while expr_str[i].is_whitespace() {
+    while i < expr_str.len() && expr_str[i].is_whitespace() {
         i += 1;
-        if i > expr_str.len() {
-            return None;
-        }
     }
 
-    if expr_str[i] == '}' {
+    if i < expr_str.len() && expr_str[i] == '}' {
     } else {
         println!("*ERROR* - expected '}}'");
         return None
-- 
2.43.0


From d1a3d6b8d0946d5006e466cc96019f051a37f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 14/27] fix: size the matrix by the highest node id, with no
 limit on nodes

---
 src/circuit.rs | 124 ++++++++++---------------------------------------
 1 file changed, 25 insertions(+), 99 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..a86c13f 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -146,126 +146,52 @@ impl Circuit {
         // number of nodes in the circuit - there is always at least ground
         let mut c_nodes: usize = 1;
 
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
-
+        // node ids index the matrix, so the highest one sets the size
         for el in &self.elements {
                 match *el {
                     Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*a + 1);
+                        c_nodes = c_nodes.max(*b + 1);
                     }
                     Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*a + 1);
+                        c_nodes = c_nodes.max(*b + 1);
                     }
                     Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
                     }
                     Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
+                        c_nodes = c_nodes.max(*cp + 1);
+                        c_nodes = c_nodes.max(*cn + 1);
                     }
                     Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
+                        c_nodes = c_nodes.max(*p + 1);
+                        c_nodes = c_nodes.max(*n + 1);
+                        c_nodes = c_nodes.max(*cp + 1);
+                        c_nodes = c_nodes.max(*cn + 1);
                     }
                 }
         }
-- 
2.43.0


From 0f06eafd690614d7902aec2de558db6d1c4df87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 15/27] fix: the displayed name of an aliased node doesn't
 depend on hashing

---
 src/circuit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index a86c13f..a2fa004 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -336,7 +336,10 @@ impl Circuit {
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
     pub fn build_node_id_lut(&mut self) {
-        for (name, id) in &self.nodes {
+        // a node can have many aliases: use the one nearest the toplevel
+        let mut names: Vec<(&String, &NodeId)> = self.nodes.iter().collect();
+        names.sort_by_key(|(name, _)| (name.matches('.').count(), *name));
+        for (name, id) in names.into_iter().rev() {
             self.node_id_lut.insert(*id, String::from(name));
         }
     }
-- 
2.43.0


From 817b66cf5a4e7896e06a69f0702dd0d50b78d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 16/27] fix: don't carry on when waveform data can't be written

---
 src/wavewriter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..4c60938 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -41,7 +41,7 @@ impl WaveWriter<'_> {
             Err(why) => {
                 println!("*ERROR* Can't open waveform file {}: {}",
                          display, why );
-                None
+                return None;
             },
             Ok(file) => {
                 println!("*INFO* Dumping into file {}", display);
@@ -76,8 +76,8 @@ impl WaveWriter<'_> {
         units += "\n";
 
         if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
+            file.write_all(names.as_bytes()).expect("Can't write waveform data");
+            file.write_all(units.as_bytes()).expect("Can't write waveform data");
         }
     }
 
@@ -90,7 +90,7 @@ impl WaveWriter<'_> {
                 line += &bit;
             }
             line += "\n";
-            let _ = file.write_all(line.as_bytes());
+            file.write_all(line.as_bytes()).expect("Can't write waveform data");
         }
 
     }
-- 
2.43.0


From 53fa7ccfd58bc6aa67258b9fb29b13991e23b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 17/27] fix: exit with an error status when there is nothing
 simulated

---
 bin/tiny-spice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/tiny-spice.rs b/bin/tiny-spice.rs
index 0b4284a..04969c3 100644
--- a/bin/tiny-spice.rs
+++ b/bin/tiny-spice.rs
@@ -26,7 +26,7 @@ fn main() {
     let errors_exist = reader.read(spice_file);
     if errors_exist {
         println!("*FATAL* Errors in SPICE Deck so not doing simulations");
-        return;
+        std::process::exit(1);
     }
 
     let ckt = reader.get_expanded_circuit();
@@ -39,6 +39,7 @@ fn main() {
         println!("\n*INFO* Done");
     } else {
         println!("\n*ERROR* Bad, bad bad... '{}'", &args[1]);
+        std::process::exit(1);
     }
 
 }
-- 
2.43.0


From 0757e9c53221efc98ce98feece9dda31ca13df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 18/27] fix: an instance with the wrong number of connections
 is fatal

---
 src/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..07722fb 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -306,8 +306,9 @@ fn expand_subckt(
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
     if ckts[subckt_id].num_ports != inst.conns.len() {
-        print!("*ERROR* Instantiation and subcircuit definitions ");
-        println!("have different port sizes");
+        println!("*FATAL* Instantiation '{}' and subcircuit definition '{}' have different port sizes",
+            inst.name, inst.subckt);
+        panic!();
     }
 
 
-- 
2.43.0


From c6a4e3593e99ab5cd70f1521a8166f3801a21f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 19/27] fix: an override that can't be resolved doesn't fall
 back to the default

---
 src/expander.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 07722fb..279a3af 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -163,9 +163,8 @@ fn expand_instances(
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From 088bacf628ded5377928620aaeaf6a1ddd198365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 20/27] fix: a subcircuit that instantiates itself is reported

---
 src/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index 279a3af..cbcb9dc 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -301,6 +301,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // a hierarchy deeper than the number of definitions is never-ending
+    if hier.len() >= ckts.len() {
+        println!("*FATAL* Subcircuit {} instantiates itself", inst.subckt);
+        panic!();
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
-- 
2.43.0


From fe77c5641eafb865d60a263fe04f65e68640ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 21/27] fix: independent sources inside subcircuits are part of
 the circuit

---
 src/expander.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index cbcb9dc..726b7e4 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -117,6 +117,13 @@ fn expand_instances(
     //              ...
     //   X1.X2.xbb.paramM
 
+    // The independent sources of the toplevel are already in the clone
+    if ckt_id != 0 {
+        for el in &ckts[ckt_id].elements {
+            expand_source(ckts, ckt, ckt_id, el, &hier);
+        }
+    }
+
     for inst in &ckts[ckt_id].instances {
 
         trace!("> inst: '{}' . '{}'", hier.join("."), inst.name);
@@ -483,6 +490,51 @@ fn expand_primitive(
 
 
 
+/// Expand an independent source of a subcircuit
+/// (not recursive)
+fn expand_source(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    host_ckt_id: usize,
+    el: &Element,
+    hier: &[String], // the scope the source is instantiated in
+) {
+    match el {
+        Element::I(src) => {
+            let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+            let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+            ckt.add_i(p, n, src.value);
+        },
+        Element::V(src) => {
+            let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+            let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+            ckt.add_v(p, n, src.value);
+        },
+        Element::Isin(src) => {
+            let mut src = src.clone();
+            src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+            src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+            ckt.add_i_sin(src);
+        },
+        Element::Vsin(src) => {
+            let mut src = src.clone();
+            src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+            src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+            ckt.add_v_sin(src);
+        },
+        Element::Vpwl(src) => {
+            let mut src = src.clone();
+            src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+            src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+            ckt.add_v_pwl(src);
+        },
+        _ => {
+            panic!("*FATAL* Unrecognised subcircuit element '{}'", el);
+        }
+    }
+}
+
+
 /// Find the index of the subcircuit called `name`.
 ///
 /// `N` is small, so just search the circuit list one by one until
-- 
2.43.0


From 2d1fe24870521c038b895629a8c65da415523de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 22/27] fix: a PWL source is defined at the ends of its pattern

---
 src/element/vpwl.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..2ea834a 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -27,17 +27,19 @@ impl VoltageSourcePwl {
         let t_period = self.pat[idx_last].0;
         //println!("Pattern: {:?} :: Period {}", self.pat, t_period);
 
-        // If we're not repeating, and we're off the end of the pattern
+        // the pattern hasn't started yet
+        if t < self.t_delay {
+            return 0.0;
+        }
+
+        // If we're not repeating, and we've reached the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0 || t_period <= 0.0) && (t >= (self.t_delay + t_period)) {
             return self.pat[idx_last].1;
         }
 
         // where in the cycle are we?
         let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
-            return 0.0;
-        }
 
         // find out which points we're between...
         let mut t1 = 0.0;
@@ -58,11 +60,13 @@ impl VoltageSourcePwl {
 
         //dbg!(t1,v1, t2,v2);
 
-        // ... and interpolate between them
-        let mut gradient = (v2-v1) / (t2-t1);
-        if gradient.is_nan() {
-            gradient = 0.0;
+        // right at the start of the pattern
+        if t2 <= t1 {
+            return v2;
         }
+
+        // ... and interpolate between them
+        let gradient = (v2-v1) / (t2-t1);
         gradient * (t_cycle - t1) + v1
 
     }
-- 
2.43.0


From 86d77b23c1d298638cf204f73094b6900ef67efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 23/27] fix: an inconsistent last equation is not solved with
 0.0

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 707d499..b268ca6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -640,7 +640,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if v[i_last][c_mna] == 0.0 && v[i_last][i_last] == 0.0 {
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 6ed711d2c9d2766cb3aadc2b6c94dd9482263b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 24/27] fix: devices with the same name keep their own values

---
 src/circuit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index a2fa004..089a861 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -346,9 +346,9 @@ impl Circuit {
 
     /// Find a parameter value
     ///
-    /// `N` is small..
+    /// `N` is small.. The latest definition is the one in force.
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
-- 
2.43.0


From f167089778c6956e2764f6b66f04b448fe4972d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 25/27] fix: a voltage source across one node doesn't tie that
 node to ground

---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index b268ca6..52e30f1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -747,13 +747,13 @@ impl Engine {
         let n_not_grounded = (vsrc.n != 0);
 
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From a46384254ed4faff1f7992b2ae0a0cf1ae37283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 26/27] fix: say so when an option is not recognised

---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index 1a5ac40..b78d48d 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -436,6 +436,7 @@ impl Reader {
                 self.cfg.RMAX = extract_value(bits[3]).unwrap();
             },
             _ => {
+                println!("*WARN* Ignoring unrecognised option '{}'", bits[1]);
             }
         }
     }
-- 
2.43.0


From 1800bf20ddfd60fe42fd475e6724ee289421176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 27/27] fix: waveforms of a deck with an absolute path go below
 waves/, too

---
 src/spice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index b78d48d..d01d784 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -166,14 +166,14 @@ impl Reader {
                 if bits[0] == "op" {
                     self.cfg.kind = Some(Kind::DcOperatingPoint);
                     let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                        .join(self.cfg.ckt_name.trim_start_matches('/'))
                         .join("dc.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                 } else if bits[0] == "tran" {
                     self.cfg.kind = Some(Kind::Transient);
                     let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                        .join(self.cfg.ckt_name.trim_start_matches('/'))
                         .join("tran.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
-- 
2.43.0

