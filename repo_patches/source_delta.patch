From 487ead0cb9e37ccea61a43bb9405e2c2dab7d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 01/18] fix: report a remainder by zero as a division by zero
 instead of panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From a4f404ec4242a0ab888bd37070f2f6fd96513ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 02/18] fix: report zero to a negative power as a division by
 zero instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From de8a99911bb7fb25a16e5b6b04d3d0a1d8105001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 03/18] fix: reject --convert-to-radix 1, which panicked when
 output was formatted

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From e0143c6f30eaae200a388bcf0c4344b2085a3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 04/18] fix: compute roots of numbers between -1 and 1 instead
 of panicking

---
 src/operations.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..28cc5d8 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,8 @@
 use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed,
+    Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -96,7 +97,16 @@ pub fn exponentiate(
 
     // Step 2: Convert `b^(n/d)` to `(b^n)^(1/d)` and compute `r = b^n` so we are left with
     // `r^(1/d)`.
-    let radicand = base.pow(exp_num);
+    let mut radicand = base.pow(exp_num);
+
+    // Step 2.1: The binary search below only yields integers, and Newton's Method cannot start
+    // from `0`. If that is what we would get because `r` is between `-1` and `1`, compute
+    // `1/((1/r)^(1/d))` instead.
+    let invert_result =
+        !exp_denom.is_one() && !radicand.is_zero() && radicand.abs() < BigRational::one();
+    if invert_result {
+        radicand = radicand.inv();
+    }
 
     // Step 3: Newton's Method
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
@@ -174,7 +184,11 @@ pub fn exponentiate(
         let guess_ratio = BigRational::from(guess);
         // Return early if it's an exact integer.
         if error.is_zero() {
-            return Ok(guess_ratio);
+            return Ok(if invert_result {
+                guess_ratio.inv()
+            } else {
+                guess_ratio
+            });
         }
 
         guess_ratio
@@ -190,7 +204,7 @@ pub fn exponentiate(
         }
     }
 
-    Ok(x)
+    Ok(if invert_result { x.inv() } else { x })
 }
 
 #[cfg(test)]
-- 
2.43.0


From b3f13509131e7d86320e594acc1106bb0827ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 05/18] fix: do not overflow when precision plus extra
 precision exceeds 254

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 28cc5d8..cbc5ab7 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -77,7 +77,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u32,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..12286aa 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 35fdb9dfcd42dd886b4098ee82b9261d00fb6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 06/18] fix: count the precision of roots in output digits when
 the output radix is larger

---
 src/syntax_tree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 12286aa..94cae03 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -29,6 +29,12 @@ use std::{
     mem,
 };
 
+/// The radix in which the digits of precision of inexact results are counted. Output digits are
+/// digits of the output radix, which may be larger than those of the input radix.
+fn precision_radix(args: &Args) -> u8 {
+    max(args.radix, args.convert_to_radix.unwrap_or(args.radix))
+}
+
 trait OperationNode {
     fn execute(
         self: Box<Self>,
@@ -113,7 +119,7 @@ impl OperationNode for UnaryNode {
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
                 );
-                exponentiate(operand, one_half, total_precision, args.radix)
+                exponentiate(operand, one_half, total_precision, precision_radix(args))
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
             UnaryOperatorToken::Negate => Ok(-operand),
@@ -165,7 +171,7 @@ impl OperationNode for BinaryNode {
             }
             BinaryOperatorToken::Exponent => {
                 let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);
-                exponentiate(operand_1, operand_2, total_precision, args.radix)
+                exponentiate(operand_1, operand_2, total_precision, precision_radix(args))
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
         }
-- 
2.43.0


From 97fc481ad3ce43a2f715bdc1c7cda38401184a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 07/18] fix: make roots of higher degree finish by rounding
 between Newton iterations

---
 src/operations.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index cbc5ab7..54395c5 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -132,8 +132,13 @@ pub fn exponentiate(
     // error from making our last guaranteed digit wrong.
     let precision = BigUint::from(precision + 1);
     let radix = BigInt::from(radix);
+    let error_denom: BigInt = radix.pow(precision);
     // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
+    let max_error = BigRational::new(one_signed.clone(), error_denom.clone());
+    // Without rounding, each iteration of Newton's method multiplies the size of the denominator
+    // by the degree, which takes forever for all but the smallest degrees. We keep twice the
+    // digits that we need, so this doesn't affect the accuracy of the result.
+    let rounding_denom = BigRational::from(&error_denom * &error_denom);
     let f_magnitude = |x: &BigInt| -> BigRational {
         (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
     };
@@ -191,13 +196,19 @@ pub fn exponentiate(
             });
         }
 
-        guess_ratio
+        // Starting closer to zero than the root would make the first iteration overshoot it by far
+        // if the degree is large.
+        if guess_ratio.clone().pow(&degree).abs() < radicand.abs() {
+            guess_ratio + radicand.signum()
+        } else {
+            guess_ratio
+        }
     };
 
     // Step 3.4: Newton's method
     loop {
         let prev_x = x.clone();
-        x = next_x(x);
+        x = (next_x(x) * &rounding_denom).round() / &rounding_denom;
         let error = (&x - prev_x).abs();
         if error <= max_error {
             break;
-- 
2.43.0


From 9e828afd05870050aa57aff660c19d80874a33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 08/18] fix: apply the output radix, commas and upper settings
 to fractional output

---
 src/main.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..6ab4d1f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,6 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
+use num::{bigint::BigInt, rational::BigRational};
 use operations::make_decimal_string;
 use saved_data::SavedData;
 use std::{
@@ -570,13 +571,22 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
     if args.fractional {
-        Ok(result.to_string())
-    } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
+        let integer_to_string = |integer: &BigInt| -> String {
+            let value = BigRational::from(integer.clone());
+            make_decimal_string(&value, output_radix, 0, args.commas, args.upper)
         };
+        let mut output = integer_to_string(result.numer());
+        if !result.is_integer() {
+            output.push('/');
+            output.push_str(&integer_to_string(result.denom()));
+        }
+        Ok(output)
+    } else {
         Ok(make_decimal_string(
             &result,
             output_radix,
-- 
2.43.0


From 8b55ee232e793dfba9f377baac9d78ccb6a95834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 09/18] fix: report a window of two columns as too narrow
 instead of dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6ab4d1f..157ada6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -176,7 +176,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From 26e450af80bd8b706af3a68857b69b372976a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 10/18] fix: scroll the alternate screen when it is full
 instead of overwriting its last row

---
 src/main.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 157ada6..61a1830 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@ use crossterm::{
     terminal::{
         self, Clear,
         ClearType::{CurrentLine, FromCursorDown},
-        EnterAlternateScreen, LeaveAlternateScreen,
+        EnterAlternateScreen, LeaveAlternateScreen, ScrollUp,
     },
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
@@ -163,8 +163,9 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
-        let mut cols = usize::from(terminal::size()?.0);
+        let mut input_start = cursor::position()?;
+        let (initial_cols, mut rows) = terminal::size()?;
+        let mut cols = usize::from(initial_cols);
         let mut input_complete = false;
 
         'get_input_line: loop {
@@ -180,6 +181,17 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
+                if args.alternate_screen {
+                    // If the input doesn't fit below the row that it starts on, make room for it.
+                    let last_text_row = current_input.len().saturating_sub(1) / available_cols;
+                    let last_row = u16::try_from(max(last_text_row, cursor_pos / available_cols))?;
+                    let overflow = (input_start.1 + last_row + 1).saturating_sub(rows);
+                    let scroll_distance = min(overflow, input_start.1);
+                    if scroll_distance > 0 {
+                        queue!(stdout, ScrollUp(scroll_distance))?;
+                        input_start.1 -= scroll_distance;
+                    }
+                }
                 let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
@@ -204,7 +216,7 @@ fn interactive_calc(
                 let mut current_index = end_index;
                 while current_index < current_input.len() {
                     end_index = min(current_index + available_cols, current_input.len());
-                    if args.alternate_screen {
+                    if args.alternate_screen && !input_complete {
                         queue!(stdout, MoveToNextLine(1))?;
                     } else {
                         // MoveToNextLine doesn't seem to always work properly if we aren't in the
@@ -219,13 +231,8 @@ fn interactive_calc(
                     current_index = end_index;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // MoveToNextLine doesn't scroll when we are on the last row of the screen.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
@@ -467,8 +474,9 @@ fn interactive_calc(
                         // find a way to actually get these events.
                         return Err(InternalCalculatorError::new("Paste unimplemented!").into());
                     }
-                    Event::Resize(width, _) => {
+                    Event::Resize(width, height) => {
                         cols = usize::from(width);
+                        rows = height;
                         break 'get_event;
                     }
                     _ => {}
@@ -496,14 +504,8 @@ fn interactive_calc(
         // It appears that on macOS, outputting a newline advances the cursor down, but not back to
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
-            queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            // MoveToNextLine doesn't scroll when we are on the last row of the screen.
+            queue!(stdout, Print(line), Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0


From 96625e32408874a9acf11559720864c97750d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 11/18] fix: keep stored variables that the current input uses
 when it evicts their previous use

---
 src/main.rs       |  8 +++++++-
 src/saved_data.rs | 18 +++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 61a1830..22bf7ad 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -486,7 +486,7 @@ fn interactive_calc(
 
         let input = inputs.current_line().to_string();
 
-        let output = match calculate(
+        let mut output = match calculate(
             &input,
             args,
             &tokenizer,
@@ -501,6 +501,12 @@ fn interactive_calc(
             Err(CalculatorFailure::RuntimeError(e)) => format!("Runtime Error: {}", e),
         };
 
+        if let Some(db) = maybe_db.as_mut() {
+            if let Err(e) = db.enforce_history_size() {
+                output = format!("Runtime Error: {}", e);
+            }
+        }
+
         // It appears that on macOS, outputting a newline advances the cursor down, but not back to
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..0a6bc88 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -237,11 +237,12 @@ impl SavedData {
 
     /// Adds the given input to the front of the input history list and updates metadata to maintain
     /// the internal mechanisms of the list.
-    /// If this causes the history to exceed `MAX_HISTORY_SIZE`, items will be evicted from the
-    /// history until the expected maximum size is reached.
+    /// This may cause the history to exceed its maximum size. `enforce_history_size` should be called
+    /// once the input has been processed. It shouldn't be called earlier, because the variables that
+    /// the input uses would be removed if their previous use is evicted before this one is recorded.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let transaction = self.connection.transaction()?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
@@ -292,13 +293,20 @@ impl SavedData {
             }
         }
 
-        SavedData::enforce_history_size_with_transaction(&mut transaction)?;
-
         transaction.commit()?;
 
         Ok(added_input_id)
     }
 
+    /// Evicts items from the back of the input history until the maximum history size is no longer
+    /// exceeded. Variables that were last used by an evicted input are removed with it.
+    pub fn enforce_history_size(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        let mut transaction = self.connection.transaction()?;
+        SavedData::enforce_history_size_with_transaction(&mut transaction)?;
+        transaction.commit()?;
+        Ok(())
+    }
+
     fn enforce_history_size_with_transaction(
         transaction: &mut Transaction,
     ) -> Result<(), Box<dyn std::error::Error>> {
-- 
2.43.0


From 85f113791217a9631b58f23aefe0c0ee0c6fb3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 12/18] fix: keep the cursor inside the scroll window when the
 window is five columns wide

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 22bf7ad..bc32103 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -257,7 +257,7 @@ fn interactive_calc(
                         scroll_offset = 0;
                     } else {
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From 89dcc3c7550cedb705461015e9c6f19719fe6df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 13/18] fix: do not end the session when the saved history
 cannot be read

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bc32103..d3227c7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -401,8 +401,12 @@ fn interactive_calc(
                             break 'get_event;
                         }
                         KeyCode::Up => {
-                            if !inputs.try_to_go_to_earlier_line(maybe_db.as_mut())? {
-                                continue 'get_event;
+                            match inputs.try_to_go_to_earlier_line(maybe_db.as_mut()) {
+                                Ok(true) => {}
+                                Ok(false) => continue 'get_event,
+                                // The saved history can't be read at the moment. That is no reason
+                                // to end the session; it may well work the next time.
+                                Err(_) => continue 'get_event,
                             }
                             cursor_pos = inputs.current_line().len();
                             scroll_offset = 0;
-- 
2.43.0


From 0ac00d6708363204ea264b0551b3b75225ff75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 14/18] fix: wait for another session's write to finish instead
 of failing

A transaction that reads first and writes later cannot wait for a lock once
another connection is writing: SQLite answers it "database is locked" at
once. Begin these transactions as writers so that the busy timeout applies.
---
 src/saved_data.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 0a6bc88..8e7c92f 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -136,7 +136,7 @@ impl SavedData {
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-        let transaction = connection.transaction()?;
+        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -242,7 +242,9 @@ impl SavedData {
     /// the input uses would be removed if their previous use is evicted before this one is recorded.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let transaction = self.connection.transaction()?;
+        let transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
@@ -301,7 +303,9 @@ impl SavedData {
     /// Evicts items from the back of the input history until the maximum history size is no longer
     /// exceeded. Variables that were last used by an evicted input are removed with it.
     pub fn enforce_history_size(&mut self) -> Result<(), Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         SavedData::enforce_history_size_with_transaction(&mut transaction)?;
         transaction.commit()?;
         Ok(())
-- 
2.43.0


From 1cd8e48644b14a6d45c4fd8669db37d8564d6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:17 +0000
Subject: [PATCH 15/18] fix: a data directory given as a relative path that
 begins with "file:" was taken for a URI

---
 src/saved_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 8e7c92f..7c1dad7 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -132,7 +132,9 @@ impl SavedData {
                 return Err(e.into());
             }
         }
-        let db_path = data_dir_path.join(HISTORY_DB_NAME);
+        // SQLite takes a path that begins with "file:" for a URI. Relative paths must not begin so;
+        // absolute ones are left as they are by this.
+        let db_path = Path::new(".").join(data_dir_path).join(HISTORY_DB_NAME);
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-- 
2.43.0


From a3e51f61a575eaff2d8ad6408641d941eeaa5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:42 +0000
Subject: [PATCH 16/18] fix: a word that is no number was called an invalid
 variable name when given to a setting

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 1d84b70..06a1d04 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -375,7 +375,7 @@ impl Tokenizer {
             Err(positioned_error) => {
                 let message = match positioned_error.value {
                     ParseError::InvalidVariable(s) | ParseError::InvalidNumber(s) => {
-                        ParseError::InvalidVariable(s).to_string()
+                        ParseError::InvalidNumber(s).to_string()
                     }
                     ParseError::NonAscii => ParseError::NonAscii.to_string(),
                 };
-- 
2.43.0


From 2d4e755868b32f69b32aa913fdd08f3a372169c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:42 +0000
Subject: [PATCH 17/18] fix: /reloadvar with several variables answered in
 random order

---
 src/commands.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/commands.rs b/src/commands.rs
index aa4634b..b482042 100644
--- a/src/commands.rs
+++ b/src/commands.rs
@@ -263,11 +263,10 @@ impl Command for ReloadVarCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let variable_tokens: HashSet<Positioned<String>> = data
-            .tokenizer
-            .tokenize_variable_list(&arguments.value)?
-            .into_iter()
-            .collect();
+        let mut variable_tokens = data.tokenizer.tokenize_variable_list(&arguments.value)?;
+        // Handle each variable once, in the order in which they were given.
+        let mut seen: HashSet<String> = HashSet::new();
+        variable_tokens.retain(|token| seen.insert(token.value.clone()));
 
         let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;
         let vars = data
-- 
2.43.0


From 456d0a39c09b6ce0a481bd1056e7188c934b058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:22 +0000
Subject: [PATCH 18/18] fix: keep iterating roots until their error, not only
 their last change, is small enough

An iteration of Newton's method changes the result by as little as its error divided by the
degree, so that roots of higher degrees could be off by several units of the last internal
digit, for example 1111^(1/111) in radix 2 with no digits after the point.
---
 src/operations.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 54395c5..5f2c16e 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -133,12 +133,13 @@ pub fn exponentiate(
     let precision = BigUint::from(precision + 1);
     let radix = BigInt::from(radix);
     let error_denom: BigInt = radix.pow(precision);
-    // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), error_denom.clone());
+    // The largest amount we are okay with being wrong by. We only see how much each iteration of
+    // Newton's method changes `x`, which is as little as the error divided by the degree.
+    let max_error = BigRational::new(one_signed.clone(), error_denom.clone()) / &degree_ratio;
     // Without rounding, each iteration of Newton's method multiplies the size of the denominator
     // by the degree, which takes forever for all but the smallest degrees. We keep twice the
     // digits that we need, so this doesn't affect the accuracy of the result.
-    let rounding_denom = BigRational::from(&error_denom * &error_denom);
+    let rounding_denom = BigRational::from(&error_denom * &error_denom) * &degree_ratio;
     let f_magnitude = |x: &BigInt| -> BigRational {
         (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
     };
-- 
2.43.0

