From d796cbf268f13319c4114de39ba38b07ebaec067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 01/34] fix: bid market-order matching subtracted the traded
 quantity from the level twice

---
 trading-engine/src/orderbook/half_book.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..a412f12 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,6 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 1d89e0ae90cf1137b4007fe136d8d9865f0b9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 02/34] fix: clearing a level left its total quantity behind

---
 trading-engine/src/orderbook/level.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/orderbook/level.rs b/trading-engine/src/orderbook/level.rs
index 0661932..470bf81 100644
--- a/trading-engine/src/orderbook/level.rs
+++ b/trading-engine/src/orderbook/level.rs
@@ -116,6 +116,7 @@ impl Level {
     #[inline]
     pub fn clear(&mut self) {
         self.orders.clear();
+        self.total_quantity = 0;
     }
 
     /// Returns (all_traded_id, remaining quantity, total quantity remained in the level)
-- 
2.43.0


From ad4c88e13b1be692085d612c1ab48f7cec0dc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 03/34] fix: changing an order's quantity to zero left the
 order id in the index

---
 trading-engine/src/orderbook/half_book.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index a412f12..eae3c50 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -521,6 +521,9 @@ impl HalfBook {
         new_quantity: BookQuantity,
     ) -> Option<()> {        
         if let Some(price) = self.cache.get(&order_id) {
+            if new_quantity == 0 { // nothing is left of the order
+                return self.cancel_order(order_id);
+            }
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
                     self.total_quantity -= original_qty;
-- 
2.43.0


From 0965942012c7dc18421393a4158b38ae1ffca33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 04/34] fix: removing quantity never ended on a resting order
 of zero quantity

---
 trading-engine/src/orderbook/half_book.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index eae3c50..52d1c69 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -379,7 +379,7 @@ impl HalfBook {
         let mut remaining = order.quantity;
         if let Some(level) = self.levels.get_mut(&order_price) {
             while remaining > 0 {
-                let order_qty = {
+                let consumed = {
                     if let Some((order_id, order_qty)) = level.orders.back_mut() {
                         let qty = *order_qty;
                         if qty <= remaining {
@@ -387,19 +387,19 @@ impl HalfBook {
                             self.total_quantity -= qty;
                             level.total_quantity -= qty;
                             self.cache.remove(order_id);
-                            qty
+                            true
                         } else {
                             *order_qty -= remaining;
                             level.total_quantity -= remaining;
                             self.total_quantity -= remaining;
                             remaining = 0;
-                            0
+                            false
                         }
                     } else {
                         break
                     }
                 };
-                if order_qty > 0 {
+                if consumed {
                     level.orders.pop_back();
                 }
             }
-- 
2.43.0


From 3f97239fc812a0646ed437fc5e6a882f1f0908ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 05/34] fix: dividend deduction after a bump or a date roll
 uses only the dividends still ahead

bump_date_interval rebuilt the deduction from every dividend including the
ones already past; a roll beyond the last ex-date indexed out of bounds; and
a dividend whose ex-date equals the evaluation date-time was deducted both
from the market price and from the forward.
---
 .../src/parameters/discrete_ratio_dividend.rs | 151 ++++++------------
 1 file changed, 50 insertions(+), 101 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..e211270 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -80,47 +80,13 @@ impl DiscreteRatioDividend {
             //let time = time_calculator.get_time_difference(&marking_offsetdatetime, date);
             //ex_dividend_times[i] = time;
         }
-        // drop data of ex-dividend date and dividend amount before the evaluation-date
-        let eval_dt = evaluation_date.to_owned().borrow().get_date_clone();
-        let mut ex_dividend_dates_for_interpolator = ex_dividend_dates.clone();
-        let mut div_yields_vec = dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = date_integers.to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
-        }
-
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        let deduction_interpolator = if incremental_deduction_ratio.is_empty() {
-            DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?)
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let interp = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            DividendInterpolator::Stepwise(interp)
-        };
+        let eval_dt = evaluation_date.borrow().get_date_clone();
+        let deduction_interpolator = Self::make_deduction_interpolator(
+            &eval_dt,
+            &ex_dividend_dates,
+            &date_integers,
+            &dividend_yields,
+        )?;
 
         let res = DiscreteRatioDividend {
             evaluation_date: evaluation_date.clone(),
@@ -216,77 +182,60 @@ impl DiscreteRatioDividend {
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
         // update self.dividend_yields and remake a incremental_deduction_ratio
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
         // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
+        let eval_dt = self.evaluation_date.borrow().get_date_clone();
+        self.deduction_interpolator = Self::make_deduction_interpolator(
+            &eval_dt,
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+        )?;
         Ok(())
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
         let eval_dt: OffsetDateTime = date.get_date_clone();
+        self.deduction_interpolator = Self::make_deduction_interpolator(
+            &eval_dt,
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+        )?;
+        Ok(())
+    }
 
-        let mut ex_dividend_dates_for_interpolator = self.ex_dividend_dates.clone();
-        let mut div_yields_vec = self.dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
+    /// accumulated deduction ratio over the dividends strictly after eval_dt
+    /// (the ones up to eval_dt are already reflected in the market price)
+    fn make_deduction_interpolator(
+        eval_dt: &OffsetDateTime,
+        ex_dividend_dates: &[OffsetDateTime],
+        date_integers: &Array1<Integer>,
+        dividend_yields: &Array1<Real>,
+    ) -> Result<DividendInterpolator> {
+        let mut remaining_date_integers: Vec<Integer> = Vec::new();
+        let mut deduction_ratios: Vec<Real> = Vec::new();
+        let mut deduction_ratio: Real = 1.0;
+        for (i, ex_date) in ex_dividend_dates.iter().enumerate() {
+            if *ex_date > *eval_dt {
+                deduction_ratio *= 1.0 - dividend_yields[i];
+                remaining_date_integers.push(date_integers[i]);
+                deduction_ratios.push(deduction_ratio);
             }
         }
 
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        if incremental_deduction_ratio.is_empty() {
-            self.deduction_interpolator =
-                DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?);
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let deduction_interpolator = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            self.deduction_interpolator = DividendInterpolator::Stepwise(deduction_interpolator);
+        if deduction_ratios.is_empty() {
+            return Ok(DividendInterpolator::Constant(
+                ConstantInterpolator1D::new(1.0)?,
+            ));
         }
-        Ok(())
+        let interp = StepwiseInterpolator1D::new(
+            Array1::from_vec(remaining_date_integers),
+            Array1::from_vec(deduction_ratios),
+            true,
+            Some(1.0),
+            Some(deduction_ratio),
+        )?;
+        Ok(DividendInterpolator::Stepwise(interp))
     }
 }
 
-- 
2.43.0


From d4079507b1cdebf88f7a0b1e036130536aa442ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 06/34] fix: forward rate over an empty interval divided by
 zero

---
 quantlib/src/parameters/zero_curve.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..3acccc8 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,19 +334,14 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
-                let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
+                // the rate over an (almost) empty interval is the one over a short interval after t1
+                let t2 = if (t2 - t1).abs() > 1e-6 {
+                    t2
                 } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
+                    t2 + 1e-5
                 };
+                let tau = t2 - t1;
+                let disc: Real = self.get_discount_factor_between_times(t1, t2)?;
 
                 match compounding {
                     Compounding::Simple => Ok((1.0 - disc) / tau),
-- 
2.43.0


From b397c4cba448128221175dc755ecaa317e080135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 07/34] fix: vega matrix put back a bump on tenors it had not
 bumped

---
 quantlib/src/pricing_engines/engine.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..06b6494 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1431,11 +1431,6 @@ impl Engine {
                     _ => Some(calc_times[i - 1]),
                 };
                 let bump_tenor_end = Some(calc_times[i]);
-                if let Some(start) = bump_tenor_start {
-                    if longest_mat_time < start {
-                        continue;
-                    }
-                }
                 for j in 0..spot_moneyness.len() {
                     let bump_moneyness_start = match j {
                         0 => None,
@@ -1463,6 +1458,11 @@ impl Engine {
                             bump_val,
                         )?;
                     }
+                    if let Some(start) = bump_tenor_start {
+                        if longest_mat_time < start {
+                            continue;
+                        }
+                    }
 
                     current_npvs_up = self.get_npvs().with_context(|| {
                         anyhow!(
-- 
2.43.0


From 64c31b885c02985517fab8587daf0c56cb58df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 08/34] fix: vega matrix recorded another underlying's matrix
 for instruments outside it

---
 quantlib/src/pricing_engines/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 06b6494..069226f 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1373,7 +1373,7 @@ impl Engine {
         let mut npv: Real;
         let mut npv_up: Real;
         // inst code (String) -> Array2<Real>
-        let mut single_vega_matrix: HashMap<String, Array2<Real>> = HashMap::new();
+        let mut single_vega_matrix: HashMap<String, Array2<Real>>;
         let exclude_type = vec!["Cash", "Stock", "Futures"];
         let exclude_type_clone = exclude_type.clone();
 
@@ -1396,6 +1396,7 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            single_vega_matrix = HashMap::new();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From b87bd870265ad4e0f9c42c88236a8a75415c6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 09/34] fix: expected cash flows of two legs paid on one date
 overwrote each other

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From 0b5c7ce4409421eccc5399e226536fafb6fe2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 10/34] fix: vectorized stepwise interpolation ignored the
 extrapolation values

---
 .../src/math/interpolators/stepwise_interpolatior.rs     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..2aa99c5 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,14 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound {
+                    self.left_extrapolation_value.unwrap_or(self.value[0])
+                } else if x[i] > right_bound {
+                    self.right_extrapolation_value
+                        .unwrap_or(self.value[self.value.len() - 1])
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From 62d7eb55dc2aca877e4825d6aa69e7e3531b3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 11/34] fix: bilinear interpolation accepted a table with
 unsorted times

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..314ff11 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -127,12 +127,12 @@ impl BilinearInterpolator {
             )?;
             x_interpolator.push(x_interpolator_i);
         }
-        Ok(BilinearInterpolator {
+        BilinearInterpolator::new(
             t_domain,
             x_interpolator,
             t_domain_allow_extrapolation,
             t_domain_extrapolation_type,
-        })
+        )
     }
 
     pub fn interpolate(&self, t: Real, x: Real) -> Result<Real> {
-- 
2.43.0


From f20c4d8e9093729af4ee5474963638a64ca2cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 12/34] fix: list the floating leg currency of swaps in
 get_all_currencies

---
 quantlib/src/instrument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..2f1325f 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot" => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From 7acc7fe8c7ffcd4eba2be3a688a26f2feb8a9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 13/34] fix: slice a number's digits up to their own end, not
 to their count

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..1153ff4 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -359,7 +359,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 860d58c4b152cbd8169549027db04d3e9a2539b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 14/34] fix: unchecked reads skip a field's sign and unused
 characters

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 1153ff4..cd50874 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -409,21 +409,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From 795155fa3362c09e628ea2e4de9eb6a9aa9eaa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 15/34] fix: parse_under32 of exactly 16 digits shifted by the
 whole width

---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index cd50874..5e4131b 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -287,6 +287,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 {
+        return parse_under16(u, 16);
+    }
     let (upper, lower) = u.split_at(16);
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
-- 
2.43.0


From 011f6cbd7cb286a0daeca4980f1a8caf0e0c32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 16/34] fix: read the trade price of IFMSRPD0036 with its sign
 and decimal point

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From e7da5e1353c0befc1575082369238df51a82d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 17/34] fix: refuse a short or non-text payload instead of
 panicking on its message

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From c062b689966acc466747d4c41b6e9033320cc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 18/34] fix: set the number of levels in use when decoding into
 a buffer

---
 trading-engine/src/data/krx/derivative_quote.rs | 2 ++
 trading-engine/src/data/krx/derivative_trade.rs | 2 ++
 trading-engine/src/data/krx/stock_quote.rs      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..14373de 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -205,6 +205,7 @@ impl IFMSRPD0034 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -452,6 +453,7 @@ impl IFMSRPD0035 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         
         let order_counter = get_krx_base_order_counter();
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..14be581 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -277,6 +277,7 @@ impl IFMSRPD0037 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let timestamp_converter = get_krx_timestamp_converter();
         let order_counter = get_krx_base_order_counter();
@@ -616,6 +617,7 @@ impl IFMSRPD0038 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..978e234 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -217,6 +217,7 @@ impl IFMSRPD0002 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -454,6 +455,7 @@ impl IFMSRPD0003 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
-- 
2.43.0


From e23484efc831ef1c21193e83d012097834618052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 19/34] fix: keep the converters of IFMSRPD0038 with the buffer
 they were read by

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 14be581..87f577b 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -622,6 +622,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From e1063a7b787dcf0bb632c2f3c1b1eff8f0929695 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 20/34] fix: Good Friday follows the Easter table its flag asks
 for

The first table holds the Western Easter Mondays and the second the
Orthodox ones; is_good_friday read them the other way round, so the New
York calendars kept the Orthodox Good Friday as a holiday and traded on
the Western one.
---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From 66ea2c4c2e6557a2c814e43f4b29b043254aad9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 21/34] fix: a Saturday Veterans Day settles on the Friday
 before

The settlement calendar documents Veterans Day as moved to Friday if on
Saturday but used the rule without that move.
---
 quantlib/src/time/calendars/unitedstates.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/time/calendars/unitedstates.rs b/quantlib/src/time/calendars/unitedstates.rs
index c75adc6..b73c8f6 100644
--- a/quantlib/src/time/calendars/unitedstates.rs
+++ b/quantlib/src/time/calendars/unitedstates.rs
@@ -58,6 +58,18 @@ impl UnitedStatesType {
         (8..=14).contains(&d) && w == Weekday::Monday && m == Month::October && y >= 1971
     }
 
+    fn is_veterans_day(&self, date: &OffsetDateTime) -> bool {
+        let (y, m, d, w, _) = self.unpack(date);
+
+        // the day itself, moved to Monday if on Sunday or to Friday if on Saturday
+        if y <= 1970 || y >= 1978 {
+            (d == 11 || (d == 12 && w == Weekday::Monday) || (d == 10 && w == Weekday::Friday))
+                && m == Month::November
+        } else {
+            self.is_veterans_day_no_saturday(date)
+        }
+    }
+
     fn is_veterans_day_no_saturday(&self, date: &OffsetDateTime) -> bool {
         let (y, m, d, w, _) = self.unpack(date);
 
@@ -135,7 +147,7 @@ impl Holidays for UnitedStatesType {
                 || ((d == 4 || (d == 5 && w == Weekday::Monday) || (d == 3 && w == Weekday::Friday)) && m == Month::July)// Independence Day (Monday if Sunday or Friday if Saturday)
                 || self.is_labor_day(date)// Labor Day (first Monday in September)
                 || self.is_columbus_day(date)// Columbus Day (second Monday in October)
-                || self.is_veterans_day_no_saturday(date)// Veteran's Day (Monday if Sunday or Friday if Saturday)
+                || self.is_veterans_day(date)// Veteran's Day (Monday if Sunday or Friday if Saturday)
                 || ((22..=28).contains(&d) && w == Weekday::Thursday && m == Month::November)// Thanksgiving Day (fourth Thursday in November)
                 || ((d == 25 || (d == 26 && w == Weekday::Monday) || (d == 24 && w == Weekday::Friday)) && m == Month::December)
                 // Christmas (Monday if Sunday or Friday if Saturday)
-- 
2.43.0


From f1c6a541300de2540e9492bb3d5516d2c7768068 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 22/34] fix: the street convention no longer drops a month
 between two month ends

From one 31st to another the 30/360 count subtracted 30 days: January
31st to March 31st came out as one month.  Both ends count as the 30th.
---
 quantlib/src/time/calendar_trait.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..d50a7bf 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -232,17 +232,18 @@ pub trait CalendarTrait {
             DayCountConvention::StreetConvention => {
                 let (year_from, month_from, day_from, _, _) = self.unpack_date(start_date);
                 let (year_upto, month_upto, day_upto, _, _) = self.unpack_date(end_date);
+                // a start on the 31st counts as the 30th, and so does an end on
+                // the 31st when the period starts at such a month end
+                let day_from = day_from.min(30);
+                let day_upto = if day_upto == 31 && day_from == 30 {
+                    30
+                } else {
+                    day_upto
+                };
                 let mut days = 0;
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
-                }
                 days as Time / 360.0
             }
             DayCountConvention::Dummy => {
-- 
2.43.0


From 4309a5cfd851d503dbb4efb7bd4d2b37af390946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:53 +0000
Subject: [PATCH 23/34] fix: keep the time of day reached so far when a
 period's years or months are applied

add_period(x, "1h1M") lost the hour (and "25h1M" kept the day but not the
hour), because the year and month parts rebuilt the result with the time of
day of the original date.
---
 quantlib/src/utils/string_arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..80ca9e2 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From a0f83956c03c45f4d98970db10e897bc6f0b449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:53 +0000
Subject: [PATCH 24/34] fix: subtract periods of more than twelve months beyond
 the year before correctly

sub_period(2021-01-31, "18M") gave 2020-07-31 instead of 2019-07-31, since the
year was computed with a division that truncates toward zero. Schedules
generated backward over more than a year or two step with such periods.
---
 quantlib/src/utils/string_arithmetic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 80ca9e2..4cc3f7c 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -194,8 +194,8 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
             "M" => {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
-                let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_month = from_i32_to_month((month_i32 - value as i32).rem_euclid(12));
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From e187ba863c8b70082f0d1c28a9430f0857f0c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:06 +0000
Subject: [PATCH 25/34] fix: the only period of a schedule ends and pays at
 maturity

A schedule with a single period (maturity within one coupon period of the
effective date) ended at the next regular date, beyond the maturity, because
the first period was never treated as the last one.
---
 quantlib/src/instruments/schedule.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..d58c413 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -166,13 +166,18 @@ pub fn build_schedule(
     for i in 0..schedule_length {
         if i == 0 {
             calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
+            calc_end_date = match schedule_length {
+                1 => *maturity, // the first period is also the last one
+                _ => calc_start_date_vec[i + 1],
+            };
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            payment_date = match schedule_length {
+                1 => *maturity,
+                _ => calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?,
+            };
         } else if i == schedule_length - 1 {
             calc_start_date = calc_start_date_vec[i];
             calc_end_date = *maturity;
-- 
2.43.0


From 93f9417e906634754de66d0f7c8f7160b7252c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:09 +0000
Subject: [PATCH 26/34] fix: floating coupons of a swap stay on its initial
 payment once that is in the past

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From 27771eaeacc5c667b1ff45b4d7440ea90b4832f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:09 +0000
Subject: [PATCH 27/34] fix: an interest rate swap built from conventions needs
 one currency

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..1947a47 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From 6188a9b5f82fefe88adc624d1fda80bac9ba1e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:09 +0000
Subject: [PATCH 28/34] fix: a bond built from conventions needs exactly one of
 fixed rate and rate index

---
 quantlib/src/instruments/bond.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 525127d..3c1d3c1 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -193,7 +193,7 @@ impl Bond {
             )
         })?;
 
-        Ok(Bond {
+        Bond::new(
             issuer_type,
             credit_rating,
             issuer_name,
@@ -220,13 +220,12 @@ impl Bond {
             daycounter,
             busi_convention,
             payment_frequency,
-            fixing_gap_days,
             payment_gap_days,
-
+            fixing_gap_days,
             //
             name,
             code,
-        })
+        )
     }
 
     pub fn set_pricing_date(&mut self, pricing_date: OffsetDateTime) {
-- 
2.43.0


From 75fc90c1156135e6996c7f744c8d4e5d4ec71043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:09 +0000
Subject: [PATCH 29/34] fix: the code of cash is its code, not its name

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From 9a6a6cec9fd890c3f85be5180d687710b07dbf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:37 +0000
Subject: [PATCH 30/34] fix: DataSpinQueue::default holds a default value
 instead of a null pointer

---
 trading-engine/src/spinqueue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..c61d9b2 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -64,7 +64,7 @@ where T: Clone + Debug + Default
 {
     fn default() -> Self {
         DataSpinQueue {
-            data_buffer: AtomicPtr::default(),
+            data_buffer: AtomicPtr::new(Box::into_raw(Box::default())),
             worker_status: WorkerStatus::new(0),
             full_status: 0,
             //workers: Vec::new(),
-- 
2.43.0


From d22a08ced655ef022578100357ae829f0ccb732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:37 +0000
Subject: [PATCH 31/34] fix: the default WorkerId carries the bit of worker 0,
 so that it cannot end the work of the others

---
 trading-engine/src/spinqueue.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index c61d9b2..e053cc0 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -11,13 +11,23 @@ pub type IdType = u16;
 pub type WorkerStatus = AtomicU16;
 const ID_BOUND: IdType = 15;
 
-#[derive(Debug, Clone, Default, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct WorkerId {
     pub id: IdType, // 0 to 63
     pub id_bit: IdType, // 1 << id
     pub id_bit_neg: IdType, // !id_bit
 }
 
+impl Default for WorkerId {
+    fn default() -> Self {
+        WorkerId {
+            id: 0,
+            id_bit: 1,
+            id_bit_neg: !1,
+        }
+    }
+}
+
 impl WorkerId {
     pub fn new(id: IdType) -> Result<Self> {
         if id > ID_BOUND {
-- 
2.43.0


From e5eb9d39f71a1cad899e017a0c1fc6f412bab949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 32/34] fix: weighted averages and sums remember when they were
 updated, so that each update decays by the time since the last

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 9c89b8ed8bb71e56a60ca2034df7b004b22d7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:53 +0000
Subject: [PATCH 33/34] fix: tickers are UTF-8 and identifiers read back are
 checked like new ones, which as_str relies on without checking

---
 trading-engine/src/types/id/isin_code.rs | 15 +++++++++++++++
 trading-engine/src/types/id/ticker.rs    | 16 ++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/trading-engine/src/types/id/isin_code.rs b/trading-engine/src/types/id/isin_code.rs
index 60c9794..5ef8878 100644
--- a/trading-engine/src/types/id/isin_code.rs
+++ b/trading-engine/src/types/id/isin_code.rs
@@ -4,10 +4,25 @@ use serde::{Deserialize, Serialize};
 use std::hash::Hash;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[serde(try_from = "RawIsinCode")]
 pub struct IsinCode {
     isin: [u8; 12],
 }
 
+/// what is read back is checked as in IsinCode::new
+#[derive(Deserialize)]
+struct RawIsinCode {
+    isin: [u8; 12],
+}
+
+impl TryFrom<RawIsinCode> for IsinCode {
+    type Error = anyhow::Error;
+
+    fn try_from(raw: RawIsinCode) -> Result<Self> {
+        IsinCode::new(&raw.isin)
+    }
+}
+
 impl Default for IsinCode {
     fn default() -> Self {
         IsinCode { isin: [0u8; 12] }
diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..5a29b85 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -14,10 +14,25 @@ use std::hash::{Hash, Hasher};
 /// In the end, the Ticker will dwell on only in data area. Ultimately, we will use ID struct that is basically a pointer to
 /// { (Symbol, Venue) }, where Symbol is an Enum type of IsinCode and Ticker.
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "RawTicker")]
 pub struct Ticker {
     ticker: [u8; 32],
 }
 
+/// what is read back is checked as in Ticker::new
+#[derive(Deserialize)]
+struct RawTicker {
+    ticker: [u8; 32],
+}
+
+impl TryFrom<RawTicker> for Ticker {
+    type Error = anyhow::Error;
+
+    fn try_from(raw: RawTicker) -> Result<Self> {
+        Ticker::new(&raw.ticker)
+    }
+}
+
 impl Default for Ticker {
     fn default() -> Self {
         Ticker { ticker: [0u8; 32] }
@@ -30,6 +45,7 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        from_utf8(bytes)?; // as_str relies on it
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0


From e4cbee4cae827aa4baedab51712a87cc2a56a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:32 +0000
Subject: [PATCH 34/34] fix: read currency pairs back from the text they are
 written as

---
 quantlib/src/currency.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..c2e6dd4 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +173,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +189,28 @@ impl Serialize for FxCode {
     }
 }
 
+/// reads what Serialize writes
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let s = String::deserialize(deserializer)?;
+        let (name1, name2) = s
+            .split_once('_')
+            .ok_or_else(|| D::Error::custom(format!("not an FxCode: {}", s)))?;
+        let currency1 = Currency::from(name1);
+        let currency2 = Currency::from(name2);
+        if currency1.as_str() != name1 || currency2.as_str() != name2 {
+            return Err(D::Error::custom(format!("not an FxCode: {}", s)));
+        }
+        Ok(FxCode {
+            currency1,
+            currency2,
+        })
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0

