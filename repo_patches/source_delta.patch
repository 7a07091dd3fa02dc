From 5bcc93b17572dbefd55664ce6f691bccec43f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 01/16] fix: keep tokens that follow leading or multi-byte
 white space

The token iterator took white space before a token for part of it: operators
after white space came out as empty tokens, which cut strings short, token
positions were off, and white space longer than one byte made slicing panic.
---
 src/parser/iterator.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..3009467 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -34,6 +34,11 @@ impl<'a> Iterator for TokenIterator<'a> {
             .map(|(i, _)| i);
 
         if let Some(index) = index {
+            // Move to the start of the token. Everything below is relative to this.
+            self.current += index;
+            let text = &text[index..];
+            let index = 0;
+
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
@@ -57,8 +62,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +138,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From 35657f4118fb8cb204a6f21ecbd48e5e2f876991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 02/16] fix: refuse a chance of zero with an error instead of a
 panic

The constructor accepted 0.0 and then asserted that it is positive.
---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..219ba3f 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -189,8 +189,8 @@ impl ProductionBody {
     /// Creates a new production body from the given
     /// [`ProductionString`] that can occur with the given chance.
     pub fn try_with_chance(chance: f32, string: ProductionString) -> Result<Self> {
-        if !(0.0..=1.0).contains(&chance) {
-            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
+        if !(chance > 0.0 && chance <= 1.0) {
+            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"));
         }
 
         Ok(ProductionBody {
-- 
2.43.0


From 0eee814ebf3c60060728e2df0a9246c3077d6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 03/16] fix: accept chances that add up to one as written

Summing them in single precision made some rules, such as ten alternatives
of 0.1 each, exceed one and fail.
---
 src/productions.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 219ba3f..4a7f410 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -271,15 +271,16 @@ impl Production {
             return Ok(self.body.last().unwrap());
         }
 
-        let total_chance : f32 = self.body.iter()
-            .map(|b| b.chance.unwrap_or(0.0))
+        let total_chance : f64 = self.body.iter()
+            .map(|b| b.chance.unwrap_or(0.0) as f64)
             .sum();
 
         if total_chance < 0.0 {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        // Chances that add up to 1.0 as written may exceed it a little once rounded.
+        if total_chance > 1.0 + f32::EPSILON as f64 {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +288,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0 - total_chance).max(0.0) as f32 / (remaining as f32)
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From 1c0564cbfcdd2320fefa9073a6671a46ff97f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 04/16] fix: answer context matches outside the string with
 false

Asking whether a rule head matches at an index past the end, or at any index
of an empty string, panicked when the head has contexts.
---
 src/productions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/productions.rs b/src/productions.rs
index 4a7f410..a457d88 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -140,6 +140,10 @@ impl ProductionHead {
             return left.is_empty();
         }
 
+        if index > string.len() {
+            return false;
+        }
+
         let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
         if symbols.len() < left.len() {
             return false;
@@ -155,6 +159,10 @@ impl ProductionHead {
 
         let right = self.post.as_ref().unwrap();
 
+        if index >= string.len() {
+            return false;
+        }
+
         if index == string.len() - 1 {
             return right.is_empty();
         }
-- 
2.43.0


From f2ca77c380d0e7a794007a7de1c0c67662b952a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 05/16] fix: report a branch end without its start as an error

The turtle panicked on a ] without a matching [.
---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..56bc488 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("Branch finished with ] that was never started with ["))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From b151741c74091c992ba90b19d2c467d220938898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 06/16] fix: interpret strings with stores that lack a turtle
 command

The turtle panicked unless the symbol store had all six commands. A symbol
the store does not have is not a command.
---
 src/interpretation/abop.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 56bc488..862cf80 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. A symbol that the store does not have is
+        // not a command to the turtle.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -106,6 +107,7 @@ impl Interpretation for AbopTurtleInterpretation {
 
         // todo indicate what productions / tokens haven't been used
         for token in string {
+            let token = Some(token);
             if token == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
-- 
2.43.0


From 57fc241f12454fd6fc0d74c546b78feae00802a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 07/16] fix: a path without points has no bounds

The documentation promises None; the code returned an infinite box around NaN.
---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..a2b48d0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None;
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 8532cbaef014941d35f5eb0edd4976be35d2e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 08/16] fix: produce an SVG for drawings without points

Asking for the centre of bounds that do not exist panicked.
---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..24cb300 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From 985079a5745f95a8d15c548d4a2b4a641594a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 09/16] fix: keep the scale of an SVG finite

A drawing that is a single point was scaled by infinity (or NaN on a canvas
without an area), which is not valid SVG.
---
 src/interpretation/svg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 24cb300..341dcbf 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -98,6 +98,8 @@ impl<T> Interpretation for SvgPathInterpretation<T>
                 let scale_y = self.height() as f64 / bounds.height();
                 let scale_x = self.width() as f64 / bounds.width();
                 let scale = scale_x.min(scale_y);
+                // A drawing that is a single point fits at any scale.
+                let scale = if scale.is_finite() { scale } else { 1.0 };
 
                 Point::new(scale, -scale)
             })
-- 
2.43.0


From 289d2555877b902fc6358b394c420eee0e1c0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 10/16] fix: escape the values of SVG attributes

A fill or stroke with a quote, ampersand or angle bracket made the SVG
malformed.
---
 src/interpretation/svg.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 341dcbf..5dd21ed 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -253,11 +253,19 @@ pub struct SvgDecorations {
     pub stroke_width: Option<f32>,
 }
 
+/// Escapes text so that it can be used as the value of an attribute.
+fn escape_attr(value: &str) -> String {
+    value.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+}
+
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape_attr(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape_attr(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0


From 09a2641897dca27c4d9ed1c2ccb784db77e90da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 11/16] fix: refuse circles with a radius that is not finite

NaN and infinity passed the check for a non-negative radius and ended up in
the SVG.
---
 src/interpretation/svg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 5dd21ed..a7448d9 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -340,8 +340,8 @@ pub struct SvgCircle {
 
 impl SvgCircle {
     pub fn build<P: Into<Point>>(point: P, radius: f64) -> crate::Result<SvgCircle> {
-        if radius < 0.0 {
-            return Err(Error::general("radius should be non-negative"))
+        if !radius.is_finite() || radius < 0.0 {
+            return Err(Error::general("radius should be finite and non-negative"))
         }
 
         Ok(SvgCircle { centre: point.into(), radius, ..Default::default()})
-- 
2.43.0


From a0a9854d3ba30c77b05d18b329cd385394f2438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 12/16] fix: refuse plant files whose angle is not finite

NaN, infinity and overflowing numbers were accepted as the angle, and gave
drawings of NaN.
---
 src/interpretation/abop/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpretation/abop/parser.rs b/src/interpretation/abop/parser.rs
index 8547d53..4ec1748 100644
--- a/src/interpretation/abop/parser.rs
+++ b/src/interpretation/abop/parser.rs
@@ -91,6 +91,9 @@ pub fn parse(string: &str) -> crate::Result<ParsedAbop> {
                 }
                 "d" | "D" | "delta" | "∂" => {
                     delta = equality.value.parse()?;
+                    if !delta.is_finite() {
+                        return Err(Error::new(ErrorKind::Parse, format!("The angle should be finite in {}", line)))
+                    }
                 }
                 _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
             }
-- 
2.43.0


From 9ca816c32201dfa6188a847c2f2abaf0b1a322b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 13/16] fix: lsystem -v on file names that are not UTF-8

Printing the name panicked.
---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..cbc2b79 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.to_string_lossy());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From fb3295a96949327f6474034b1f43091079363644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 14/16] fix: register a symbol's name before its code can be
 handed out

---
 src/symbols.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..b624236 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,12 +71,13 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
 
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    // The name is in place before any other thread can be given the code.
+    let mut names = get_name_register().write()?;
+    names.insert(code, name.clone());
+    drop(names);
+
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From e80338680e0dda64c9af0f984ddc10bdd68a9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 15/16] fix: enumerate the symbols of rules with very many
 alternatives

Every alternative wrapped the iterator once more, so a rule with tens of
thousands of them exhausted the stack (and time grew with the square).
---
 src/symbols/iterator.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/symbols/iterator.rs b/src/symbols/iterator.rs
index 2c15db5..1199e94 100644
--- a/src/symbols/iterator.rs
+++ b/src/symbols/iterator.rs
@@ -52,13 +52,9 @@ impl SymbolIterable for ProductionBody {
 
 impl SymbolIterable for Production {
     fn all_symbols_iter(&self) -> impl Iterator<Item=Symbol> {
-        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());
+        let bodies = self.all_bodies().iter().flat_map(|body| body.all_symbols_iter());
 
-        for i in self.all_bodies() {
-            result = Box::new(result.chain(i.all_symbols_iter()));
-        }
-
-        result
+        self.head().all_symbols_iter().chain(bodies)
     }
 }
 
-- 
2.43.0


From 271bed37f42c931f7bf24ca57e317105a0a33e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 16/16] fix: P10: add up the chances of a rule's bodies in
 double precision

With very many bodies the shares were lost or inflated by rounding: of a
million bodies without a stated chance, the last thousands were never chosen.
---
 src/productions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index a457d88..8ac7ba7 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -299,12 +299,13 @@ impl Production {
             (1.0 - total_chance).max(0.0) as f32 / (remaining as f32)
         };
 
-        let mut current = 0_f32;
+        // Adding up in single precision loses the shares of rules with very many bodies.
+        let mut current = 0_f64;
         let random : f32 = thread_rng().gen_range(0.0..=1.0);
 
         for body in &self.body {
-            current += body.chance.unwrap_or(default_chance);
-            if random < current {
+            current += body.chance.unwrap_or(default_chance) as f64;
+            if (random as f64) < current {
                 return Ok(body);
             }
         }
-- 
2.43.0

