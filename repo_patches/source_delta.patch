From 8715347dfa099c213302f3cce8c01ab5a11a33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 01/16] Add verification hook: library with the program's main,
 behind cfg(bcalc_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..345f8c7
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,10 @@
+// Verification hook. Without `--cfg bcalc_verif` this library is empty. With it, it contains the
+// whole program and exports its `main` function, so that it can be run from a test harness.
+#![allow(unexpected_cfgs, dead_code)]
+#![cfg(bcalc_verif)]
+
+include!("main.rs");
+
+pub fn verif_main() -> Result<(), Box<dyn std::error::Error>> {
+    main()
+}
-- 
2.43.0


From edb6c9c69f6334bda2d77d40d2abac30f40da774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 02/16] fix: report division by zero for % instead of panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 5f1f284f5f0756c7b6a61317f634190226def0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 03/16] fix: report division by zero for negative powers of
 zero instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From 59d25a3ba897ad53e495e11e769defe30f84cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 04/16] fix: precision and extra precision may add up to more
 than 255

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..ac10822 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u16,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..2c3d7be 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 03b298c70ac9d6551a04f7ad2a685aeec23396a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 05/16] fix: --convert-to-radix does not accept radix 1

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From b5aed392a2537d472114da69def89b5ac6fd7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 06/16] fix: roots of numbers between -1 and 1 panic, roots of
 high degree never finish

---
 src/operations.rs | 134 ++++++++++++++++++++--------------------------
 1 file changed, 58 insertions(+), 76 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index ac10822..cc05e66 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,8 @@
 use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed,
+    ToPrimitive, Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -98,99 +99,80 @@ pub fn exponentiate(
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
 
-    // Step 3: Newton's Method
-    // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
-    // So `r^(1/d) = x`, or `r = x^d`.
-    // Newton's method concerns finding when a function reaches 0. So we will make our function
-    // `f(x) = x^d - r`.
-    // Newton's method can be summarized as iterations of `x_n+1 = x_n - f(x_n)/f'(x_n)`.
-    // (Using `x` for `x_n` below, for brevity)
-    // `x_n+1 = x - (x^d - r)/(d * x^(d - 1))`
-    // `x_n+1 = x + (r - x^d)/(d * x^(d - 1))`
-    // `x_n+1 = (r - x^d + (x * d * x^(d - 1)))/(d * x^(d - 1))`
-    // `x_n+1 = (r - x^d + d*x^d)/(d * x^(d - 1))
-    // `x_n+1 = (r + (d - 1)*x^d)/(d * x^(d - 1))
-
-    // Step 3.1: Rename, convert, and pre-calculate a few things.
     let degree = exp_denom;
-    let one = BigUint::from(1u8);
-    let one_signed = BigInt::from(1);
-    let degree_ratio: BigRational = BigRational::from(BigInt::from(degree.clone()));
-    let degree_dec: BigUint = &degree - &one;
-    let degree_dec_ratio: BigRational = BigRational::from(BigInt::from(degree_dec.clone()));
-    // We are actually going to add one additional digit of precision. This prevents a rounding
-    // error from making our last guaranteed digit wrong.
-    let precision = BigUint::from(precision + 1);
-    let radix = BigInt::from(radix);
-    // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
-    let f_magnitude = |x: &BigInt| -> BigRational {
-        (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
-    };
-    let next_x = |x: BigRational| -> BigRational {
-        (&radicand + &degree_dec_ratio * x.clone().pow(&degree))
-            / (&degree_ratio * x.pow(&degree_dec))
-    };
 
     // We are already done.
-    if degree == one {
+    if degree.is_one() || radicand.is_zero() {
         return Ok(radicand);
     }
 
-    // Step 3.2: Input validation. This function currently cannot output complex numbers.
+    // Step 3: Input validation. This function currently cannot output complex numbers.
     if radicand.is_negative() && degree.is_even() {
         return Err(ImaginaryResult);
     }
 
-    // Step 3.3: Use a binary search to find a good starting point for Newton's method. Otherwise
-    // it takes forever.
-    let mut x = {
-        let (mut lower_bound, mut upper_bound) = if radicand.is_negative() {
-            (radicand.to_integer(), BigInt::from(0))
-        } else {
-            (BigInt::from(0), radicand.to_integer())
-        };
-
-        let mut span = &upper_bound - &lower_bound;
-        while span > BigInt::ZERO {
-            let lower_guess: BigInt = (&upper_bound - &lower_bound) / 2 + &lower_bound;
-            let upper_guess: BigInt = &lower_guess + 1;
-
-            let lower_guess_error = f_magnitude(&lower_guess);
-            let upper_guess_error = f_magnitude(&upper_guess);
+    // Step 4: Compute the root.
+    // We are actually going to add one additional digit of precision. This prevents a rounding
+    // error from making our last guaranteed digit wrong.
+    let scale = BigInt::from(radix).pow(precision + 1);
+    let root = positive_root(radicand.abs(), &degree, &scale);
 
-            if lower_guess_error < upper_guess_error {
-                upper_bound = lower_guess;
-            } else {
-                lower_bound = upper_guess;
-            }
+    Ok(if radicand.is_negative() { -root } else { root })
+}
 
-            span = &upper_bound - &lower_bound;
+/// Computes `radicand^(1/degree)`, rounded to a multiple of `1/scale`. The radicand must be
+/// positive.
+fn positive_root(radicand: BigRational, degree: &BigUint, scale: &BigInt) -> BigRational {
+    let one = BigRational::one();
+    // If necessary, convert `r^(1/d)` to `1/((1/r)^(1/d))` so that neither the radicand nor the
+    // root are less than 1.
+    if radicand < one {
+        let inverted_root = positive_root(radicand.inv(), degree, &(scale * 8));
+        return (inverted_root.inv() * scale).round() / scale;
+    }
+
+    // `r` is in the range `[2^b, 2^(b+1))`, so `r^(1/d)` is in the range `[2^(b/d), 2^(b/d + 1))`.
+    let radicand_bits = radicand.to_integer().bits() - 1;
+    let root_bits = degree.to_u64().map_or(0, |d| radicand_bits / d);
+
+    // Binary search for the root. Since it isn't worth it to compute exact powers, use fixed point
+    // numbers that have enough fractional bits for the error in the powers not to matter.
+    let fraction_bits = scale.bits() + root_bits + 8;
+    let fixed_radicand = (radicand * (BigInt::one() << fraction_bits)).to_integer();
+    let mut lower_bound = BigInt::one() << (fraction_bits + root_bits);
+    let mut span = lower_bound.clone();
+    while span.bits() > root_bits + 1 {
+        span >>= 1;
+        let guess = &lower_bound + &span;
+        if !fixed_power_exceeds(&guess, degree, fraction_bits, &fixed_radicand) {
+            lower_bound = guess;
         }
+    }
 
-        let guess = upper_bound;
+    let root = BigRational::new(lower_bound, BigInt::one() << fraction_bits);
+    (root * scale).round() / scale
+}
 
-        let error = f_magnitude(&guess);
-        let guess_ratio = BigRational::from(guess);
-        // Return early if it's an exact integer.
-        if error.is_zero() {
-            return Ok(guess_ratio);
+/// Determines whether `base^exponent` is more than `limit`. Both `base`, which must not be less
+/// than 1, and `limit` are fixed point numbers with the number of fractional bits specified.
+fn fixed_power_exceeds(
+    base: &BigInt,
+    exponent: &BigUint,
+    fraction_bits: u64,
+    limit: &BigInt,
+) -> bool {
+    let mut power = BigInt::one() << fraction_bits;
+    for bit in (0..exponent.bits()).rev() {
+        power = (&power * &power) >> fraction_bits;
+        if exponent.bit(bit) {
+            power = (&power * base) >> fraction_bits;
         }
-
-        guess_ratio
-    };
-
-    // Step 3.4: Newton's method
-    loop {
-        let prev_x = x.clone();
-        x = next_x(x);
-        let error = (&x - prev_x).abs();
-        if error <= max_error {
-            break;
+        // The power never gets any smaller, so it's fine to stop before it gets really big.
+        if power > *limit {
+            return true;
         }
     }
-
-    Ok(x)
+    false
 }
 
 #[cfg(test)]
-- 
2.43.0


From 880c86e876a125c529c8cef79d106781a4397727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 07/16] fix: fractional output uses the output radix, commas
 and upper case

---
 src/main.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..fc05d26 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,6 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
+use num::rational::BigRational;
 use operations::make_decimal_string;
 use saved_data::SavedData;
 use std::{
@@ -570,19 +571,20 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
-    if args.fractional {
-        Ok(result.to_string())
-    } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
-        Ok(make_decimal_string(
-            &result,
-            output_radix,
-            args.precision,
-            args.commas,
-            args.upper,
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
+    let to_output_string = |value: &BigRational| {
+        make_decimal_string(value, output_radix, args.precision, args.commas, args.upper)
+    };
+    if args.fractional && !result.is_integer() {
+        Ok(format!(
+            "{}/{}",
+            to_output_string(&result.numer().clone().into()),
+            to_output_string(&result.denom().clone().into())
         ))
+    } else {
+        Ok(to_output_string(&result))
     }
 }
-- 
2.43.0


From 5e61f24659aa167cef34dbdc9a509dbb9ae6a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 08/16] fix: a window as wide as the wrapping indentation
 causes a division by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fc05d26..dad4702 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -176,7 +176,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From d1176cfe32c97034563aaaa0231e688a9e935362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 09/16] fix: the cursor is outside of the scroll window if
 there is room for only one character

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index dad4702..5c74988 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -250,7 +250,7 @@ fn interactive_calc(
                         scroll_offset = 0;
                     } else {
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From d2312bba9b4dd99135dcd4c2bbd48308e3efcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 10/16] fix: at the bottom of the alternate screen, scroll
 rather than overwriting results

---
 src/main.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5c74988..c81bb7d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@ use crossterm::{
     terminal::{
         self, Clear,
         ClearType::{CurrentLine, FromCursorDown},
-        EnterAlternateScreen, LeaveAlternateScreen,
+        EnterAlternateScreen, LeaveAlternateScreen, ScrollUp,
     },
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
@@ -163,8 +163,10 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
-        let mut cols = usize::from(terminal::size()?.0);
+        let mut input_start = cursor::position()?;
+        let (cols, rows) = terminal::size()?;
+        let mut cols = usize::from(cols);
+        let mut rows = usize::from(rows);
         let mut input_complete = false;
 
         'get_input_line: loop {
@@ -180,6 +182,16 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
+                if args.alternate_screen {
+                    // Make sure that there is enough room below the start of the input.
+                    let input_end =
+                        usize::from(input_start.1) + current_input.len() / available_cols;
+                    let overflow_rows = u16::try_from((input_end + 1).saturating_sub(rows))?;
+                    if overflow_rows > 0 {
+                        queue!(stdout, ScrollUp(overflow_rows))?;
+                        input_start.1 = input_start.1.saturating_sub(overflow_rows);
+                    }
+                }
                 let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
@@ -219,13 +231,8 @@ fn interactive_calc(
                     current_index = end_index;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // MoveToNextLine doesn't scroll if we are already on the last line.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
@@ -467,8 +474,9 @@ fn interactive_calc(
                         // find a way to actually get these events.
                         return Err(InternalCalculatorError::new("Paste unimplemented!").into());
                     }
-                    Event::Resize(width, _) => {
+                    Event::Resize(width, height) => {
                         cols = usize::from(width);
+                        rows = usize::from(height);
                         break 'get_event;
                     }
                     _ => {}
@@ -496,14 +504,7 @@ fn interactive_calc(
         // It appears that on macOS, outputting a newline advances the cursor down, but not back to
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
-            queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            queue!(stdout, Print(line), Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0


From aeeb27ace99d4e16ddff0c864cad6ea04c316e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 11/16] fix: a power failure may undo a change whose result was
 already shown

---
 src/saved_data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..f734717 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -135,6 +135,9 @@ impl SavedData {
         let db_path = data_dir_path.join(HISTORY_DB_NAME);
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
+        // By default, the removal of the rollback journal isn't synced to the disk. If the power then
+        // fails, the journal may come back and undo a change whose result we already displayed.
+        connection.execute("PRAGMA synchronous = EXTRA;", ())?;
 
         let transaction = connection.transaction()?;
 
-- 
2.43.0


From 6563c43e8df765281fcf0aa40c9333a6e7911736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 12/16] fix: sessions fail with 'database is locked' instead of
 waiting for each other

---
 src/saved_data.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index f734717..9d632ff 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -139,7 +139,9 @@ impl SavedData {
         // fails, the journal may come back and undo a change whose result we already displayed.
         connection.execute("PRAGMA synchronous = EXTRA;", ())?;
 
-        let transaction = connection.transaction()?;
+        // A transaction that reads before it writes must be immediate. Otherwise, it fails rather than
+        // waiting if another session starts writing in between.
+        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -244,7 +246,9 @@ impl SavedData {
     /// history until the expected maximum size is reached.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
@@ -515,7 +519,9 @@ impl SavedData {
             .into());
         }
 
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         transaction.execute(
             "INSERT OR REPLACE INTO meta_int (key, value) VALUES (:key, :value)",
             named_params! {
-- 
2.43.0


From 14647a798ae3bd63695c02dca939550fda9b98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 13/16] fix: a line fails if another session evicts it while it
 uses a variable

---
 src/saved_data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 9d632ff..be8788f 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -397,6 +397,7 @@ impl SavedData {
     }
 
     /// Sets or updates the variable in the variable history.
+    /// If another session already evicted the input that sets it, this has no effect.
     pub fn set_variable(
         &mut self,
         var: &Variable,
@@ -404,7 +405,8 @@ impl SavedData {
     ) -> Result<(), Box<dyn std::error::Error>> {
         self.connection.execute(
             "INSERT INTO variable_history (name, numer, denom, last_used_by)
-                    VALUES (:name, :numer, :denom, :last_used_by)",
+                    SELECT :name, :numer, :denom, :last_used_by
+                    WHERE EXISTS (SELECT 1 FROM input_history WHERE id=:last_used_by)",
             named_params! {
                 ":name": var.name,
                 ":numer": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX),
@@ -416,13 +418,16 @@ impl SavedData {
     }
 
     /// Updates the `last_used_by` field of the variable specified.
+    /// If another session already evicted the input that uses it, this has no effect.
     pub fn touch_variable(
         &mut self,
         name: &str,
         last_used_by_id: i64,
     ) -> Result<(), Box<dyn std::error::Error>> {
         self.connection.execute(
-            "UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name",
+            "UPDATE variable_history SET last_used_by=:last_used_by
+                    WHERE name=:name
+                    AND EXISTS (SELECT 1 FROM input_history WHERE id=:last_used_by)",
             named_params! {
                 ":last_used_by": last_used_by_id,
                 ":name": name,
-- 
2.43.0


From b8e256f3257974db9821b9bc24c49086dc1bbc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 14/16] fix: a failure to enter the alternate screen may leave
 the terminal in it

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index c81bb7d..c52e53b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -122,6 +122,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
             terminal::enable_raw_mode()?;
             if args.alternate_screen {
                 if let Err(e) = execute!(stdout, EnterAlternateScreen) {
+                    // What could not be written is still buffered, so it may be written later.
+                    let _ = execute!(stdout, LeaveAlternateScreen);
                     let _ = terminal::disable_raw_mode();
                     return Err(e.into());
                 }
-- 
2.43.0


From aded14f45aa9a96badba8c25dc47c67d0067e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 15/16] fix: storage in a directory whose relative name begins
 with file:

---
 src/saved_data.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index be8788f..f94dec2 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -126,7 +126,11 @@ impl SavedData {
             Err(env::VarError::NotPresent) => return Ok(None),
             Err(e) => return Err(e.into()),
         };
-        let data_dir_path = Path::new(&data_dir_path_str).join(DATA_DIR_NAME);
+        // A relative path must not begin with the directory's name, since SQLite takes a name that
+        // begins with `file:` for a URI.
+        let data_dir_path = Path::new(".")
+            .join(&data_dir_path_str)
+            .join(DATA_DIR_NAME);
         if let Err(e) = create_dir(data_dir_path.clone()) {
             if e.kind() != io::ErrorKind::AlreadyExists {
                 return Err(e.into());
-- 
2.43.0


From ce6f51050d1fd6cab0740f847e6b07a7c0aeee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:10 +0000
Subject: [PATCH 16/16] fix: fractional powers whose exponent has a large
 numerator (7.5^12.34567) never finished

---
 src/operations.rs | 151 +++++++++++++++++++++++++++++++---------------
 1 file changed, 101 insertions(+), 50 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index cc05e66..52a1559 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,6 +4,7 @@ use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed,
     ToPrimitive, Zero,
 };
+use std::cmp::Ordering;
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
 /// output as well.
@@ -95,56 +96,62 @@ pub fn exponentiate(
         ),
     };
 
-    // Step 2: Convert `b^(n/d)` to `(b^n)^(1/d)` and compute `r = b^n` so we are left with
-    // `r^(1/d)`.
-    let radicand = base.pow(exp_num);
-
     let degree = exp_denom;
 
     // We are already done.
-    if degree.is_one() || radicand.is_zero() {
-        return Ok(radicand);
+    if degree.is_one() || base.is_zero() {
+        return Ok(base.pow(exp_num));
     }
 
-    // Step 3: Input validation. This function currently cannot output complex numbers.
-    if radicand.is_negative() && degree.is_even() {
+    // Step 2: Input validation. This function currently cannot output complex numbers.
+    let radicand_is_negative = base.is_negative() && exp_num.is_odd();
+    if radicand_is_negative && degree.is_even() {
         return Err(ImaginaryResult);
     }
 
-    // Step 4: Compute the root.
+    // Step 3: Convert `b^(n/d)` to `(b^n)^(1/d)` and compute the root.
     // We are actually going to add one additional digit of precision. This prevents a rounding
     // error from making our last guaranteed digit wrong.
     let scale = BigInt::from(radix).pow(precision + 1);
-    let root = positive_root(radicand.abs(), &degree, &scale);
+    let root = positive_root_of_power(base.abs(), &exp_num, &degree, &scale);
 
-    Ok(if radicand.is_negative() { -root } else { root })
+    Ok(if radicand_is_negative { -root } else { root })
 }
 
-/// Computes `radicand^(1/degree)`, rounded to a multiple of `1/scale`. The radicand must be
-/// positive.
-fn positive_root(radicand: BigRational, degree: &BigUint, scale: &BigInt) -> BigRational {
-    let one = BigRational::one();
-    // If necessary, convert `r^(1/d)` to `1/((1/r)^(1/d))` so that neither the radicand nor the
-    // root are less than 1.
-    if radicand < one {
-        let inverted_root = positive_root(radicand.inv(), degree, &(scale * 8));
+/// Computes `base^(power/degree)`, rounded to a multiple of `1/scale`. The base must be positive.
+/// `base^power` may be huge even if the result isn't, so it is never computed exactly.
+fn positive_root_of_power(
+    base: BigRational,
+    power: &BigUint,
+    degree: &BigUint,
+    scale: &BigInt,
+) -> BigRational {
+    // If necessary, convert `b^(n/d)` to `1/((1/b)^(n/d))` so that neither the base nor the root
+    // are less than 1.
+    if base < BigRational::one() {
+        let inverted_root = positive_root_of_power(base.inv(), power, degree, &(scale * 8));
         return (inverted_root.inv() * scale).round() / scale;
     }
 
-    // `r` is in the range `[2^b, 2^(b+1))`, so `r^(1/d)` is in the range `[2^(b/d), 2^(b/d + 1))`.
-    let radicand_bits = radicand.to_integer().bits() - 1;
-    let root_bits = degree.to_u64().map_or(0, |d| radicand_bits / d);
-
-    // Binary search for the root. Since it isn't worth it to compute exact powers, use fixed point
-    // numbers that have enough fractional bits for the error in the powers not to matter.
-    let fraction_bits = scale.bits() + root_bits + 8;
-    let fixed_radicand = (radicand * (BigInt::one() << fraction_bits)).to_integer();
-    let mut lower_bound = BigInt::one() << (fraction_bits + root_bits);
-    let mut span = lower_bound.clone();
-    while span.bits() > root_bits + 1 {
-        span >>= 1;
-        let guess = &lower_bound + &span;
-        if !fixed_power_exceeds(&guess, degree, fraction_bits, &fixed_radicand) {
+    // `b^n` is less than `2^m`, so `b^(n/d)` is less than `2^(m/d + 1)`.
+    let magnitude = Approximation::from_rational(&base, power.bits() + 64)
+        .pow(power)
+        .magnitude()
+        + 1;
+    let root_bits: BigInt = magnitude / BigInt::from(degree.clone()) + 1;
+    let root_bits = root_bits.to_u64().unwrap_or(u64::MAX);
+
+    // Binary search for the root, which is a fixed point number here. The approximations have
+    // enough bits for their errors not to matter.
+    let fraction_bits = scale.bits() + 4;
+    let bits = root_bits + fraction_bits + power.bits() + degree.bits() + 8;
+    let radicand = Approximation::from_rational(&base, bits).pow(power);
+    let mut lower_bound = BigInt::one() << fraction_bits;
+    for bit in (0..root_bits + fraction_bits).rev() {
+        let guess = &lower_bound + (BigInt::one() << bit);
+        if Approximation::new(guess.clone(), -BigInt::from(fraction_bits), bits).pow(degree)
+            <= radicand
+        {
             lower_bound = guess;
         }
     }
@@ -153,26 +160,70 @@ fn positive_root(radicand: BigRational, degree: &BigUint, scale: &BigInt) -> Big
     (root * scale).round() / scale
 }
 
-/// Determines whether `base^exponent` is more than `limit`. Both `base`, which must not be less
-/// than 1, and `limit` are fixed point numbers with the number of fractional bits specified.
-fn fixed_power_exceeds(
-    base: &BigInt,
-    exponent: &BigUint,
-    fraction_bits: u64,
-    limit: &BigInt,
-) -> bool {
-    let mut power = BigInt::one() << fraction_bits;
-    for bit in (0..exponent.bits()).rev() {
-        power = (&power * &power) >> fraction_bits;
-        if exponent.bit(bit) {
-            power = (&power * base) >> fraction_bits;
+/// A positive number, `mantissa * 2^exponent`. If more than `bits` bits would be needed for the
+/// mantissa, the number is rounded down.
+struct Approximation {
+    mantissa: BigInt,
+    exponent: BigInt,
+    bits: u64,
+}
+
+impl Approximation {
+    fn new(mantissa: BigInt, exponent: BigInt, bits: u64) -> Approximation {
+        let excess_bits = mantissa.bits().saturating_sub(bits);
+        Approximation {
+            mantissa: mantissa >> excess_bits,
+            exponent: exponent + excess_bits,
+            bits,
         }
-        // The power never gets any smaller, so it's fine to stop before it gets really big.
-        if power > *limit {
-            return true;
+    }
+
+    fn from_rational(value: &BigRational, bits: u64) -> Approximation {
+        let fraction_bits = bits + value.denom().bits();
+        let mantissa = (value.numer() << fraction_bits) / value.denom();
+        Approximation::new(mantissa, -BigInt::from(fraction_bits), bits)
+    }
+
+    fn mul(&self, other: &Approximation) -> Approximation {
+        Approximation::new(
+            &self.mantissa * &other.mantissa,
+            &self.exponent + &other.exponent,
+            self.bits,
+        )
+    }
+
+    fn pow(&self, exponent: &BigUint) -> Approximation {
+        let mut result = Approximation::new(BigInt::one(), BigInt::zero(), self.bits);
+        for bit in (0..exponent.bits()).rev() {
+            result = result.mul(&result);
+            if exponent.bit(bit) {
+                result = result.mul(self);
+            }
         }
+        result
+    }
+
+    /// The lowest `m` such that the number is less than `2^m`.
+    fn magnitude(&self) -> BigInt {
+        &self.exponent + self.mantissa.bits()
+    }
+}
+
+impl PartialEq for Approximation {
+    fn eq(&self, other: &Approximation) -> bool {
+        self.partial_cmp(other) == Some(Ordering::Equal)
+    }
+}
+
+impl PartialOrd for Approximation {
+    fn partial_cmp(&self, other: &Approximation) -> Option<Ordering> {
+        Some(self.magnitude().cmp(&other.magnitude()).then_with(|| {
+            // Since the numbers are equally big, it's enough to align the mantissas.
+            let (self_bits, other_bits) = (self.mantissa.bits(), other.mantissa.bits());
+            (&self.mantissa << other_bits.saturating_sub(self_bits))
+                .cmp(&(&other.mantissa << self_bits.saturating_sub(other_bits)))
+        }))
     }
-    false
 }
 
 #[cfg(test)]
-- 
2.43.0

