From 17ddf603c11dd580329eb25e855af1711a4a5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 01/10] fix: ignore buy order whose size is rounded down to
 zero

With insufficient cash and size_granularity, the acquirable size could be rounded down to zero, but the order
was still filled with zero size and charged the fixed fees.
---
 rust/src/portfolio.rs    | 2 +-
 vectorbt/portfolio/nb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index f65e8bc..750b11e 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -884,7 +884,7 @@ fn buy(
         }
     }
 
-    if is_close(adj_size, 0.0) {
+    if is_close(final_size, 0.0) {
         return Ok((
             exec_state,
             order_not_filled(ORDER_STATUS_IGNORED, ORDER_STATUS_INFO_SIZE_ZERO),
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..dbc1962 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -176,7 +176,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From 028c91a937df40fcb700178b66af20ec42322847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 02/10] fix: long-only order selling more than 100% doesn't
 open a short position

---
 rust/src/portfolio.rs    | 4 ++++
 vectorbt/portfolio/nb.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 750b11e..6f7a35d 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1012,6 +1012,10 @@ fn sell(
 
     if !percent_val.is_nan() {
         size_limit = percent_val * size_limit;
+        if direction == DIRECTION_LONG_ONLY {
+            // Cannot sell more than there is in the position
+            size_limit = size_limit.min(exec_state.position);
+        }
     }
 
     if size_limit > max_size {
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index dbc1962..722a370 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -275,6 +275,9 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            # Cannot sell more than there is in the position
+            size_limit = min(size_limit, exec_state.position)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From 713262b05314bf5303388db5002feb49c99878a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 03/10] fix: zero percentage order is ignored instead of making
 cash NaN

Zero times infinity gave a NaN size, which was then filled and left NaN in cash and position.
---
 rust/src/portfolio.rs    | 4 +++-
 vectorbt/portfolio/nb.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 6f7a35d..e06c471 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1296,7 +1296,9 @@ fn execute_order(
     let mut percent = f64::NAN;
     if order_size_type == SIZE_TYPE_PERCENT {
         percent = order_size.abs();
-        order_size = order_size.signum() * f64::INFINITY;
+        if order_size != 0.0 {
+            order_size = order_size.signum() * f64::INFINITY;
+        }
     }
 
     let (new_exec_state, order_result) = if order_size > 0.0 {
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 722a370..e4e62f2 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -465,7 +465,8 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     if order_size_type == SizeType.Percent:
         # Percentage of resources
         percent = abs(order_size)
-        order_size = np.sign(order_size) * np.inf
+        if order_size != 0:
+            order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
 
     if order_size > 0:
-- 
2.43.0


From 1e01c8e7b8af67abb6029f32366820e00c5b7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 04/10] fix: covering with locked cash neither spends locked
 cash nor divides by zero

When free cash only just sufficed to cover a short position, the limit was the whole (shared) cash including what
other short positions locked; when the price was at or below twice the entry price, the number of shares that can
be covered was not bounded by the position, or the division failed.
---
 rust/src/portfolio.rs    | 16 +++++++++-------
 vectorbt/portfolio/nb.py | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index e06c471..ae548a5 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -783,15 +783,17 @@ fn buy(
         } else {
             let cover_req_cash = exec_state.position.abs() * adj_price * (1.0 + fees) + fixed_fees;
             let cover_free_cash = add(exec_state.free_cash + 2.0 * exec_state.debt, -cover_req_cash);
-            if cover_free_cash > 0.0 {
+            if cover_free_cash >= 0.0 {
                 exec_state.free_cash + 2.0 * exec_state.debt
-            } else if cover_free_cash < 0.0 {
-                let avg_entry_price = exec_state.debt / exec_state.position.abs();
-                let max_short_size =
-                    (exec_state.free_cash - fixed_fees) / (adj_price * (1.0 + fees) - 2.0 * avg_entry_price);
-                max_short_size * adj_price * (1.0 + fees) + fixed_fees
             } else {
-                exec_state.cash
+                let avg_entry_price = exec_state.debt / exec_state.position.abs();
+                let unit_free_cash = adj_price * (1.0 + fees) - 2.0 * avg_entry_price;
+                if unit_free_cash > 0.0 {
+                    let max_short_size = (exec_state.free_cash - fixed_fees) / unit_free_cash;
+                    max_short_size * adj_price * (1.0 + fees) + fixed_fees
+                } else {
+                    cover_req_cash
+                }
             }
         }
     } else {
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index e4e62f2..735eb69 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -98,17 +98,19 @@ def buy_nb(
             # How much free cash remains after closing out the short position?
             cover_req_cash = abs(exec_state.position) * adj_price * (1 + fees) + fixed_fees
             cover_free_cash = add_nb(exec_state.free_cash + 2 * exec_state.debt, -cover_req_cash)
-            if cover_free_cash > 0:
-                # Enough cash to close out the short position and open a long one
+            if cover_free_cash >= 0:
+                # Enough cash to close out the short position and, if there is some left, open a long one
                 cash_limit = exec_state.free_cash + 2 * exec_state.debt
-            elif cover_free_cash < 0:
+            else:
                 # Not enough cash to close out the short position
                 avg_entry_price = exec_state.debt / abs(exec_state.position)
-                max_short_size = (exec_state.free_cash - fixed_fees) / (adj_price * (1 + fees) - 2 * avg_entry_price)
-                cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
-            else:
-                # Exact amount of cash to close out the short position
-                cash_limit = exec_state.cash
+                unit_free_cash = adj_price * (1 + fees) - 2 * avg_entry_price
+                if unit_free_cash > 0:
+                    max_short_size = (exec_state.free_cash - fixed_fees) / unit_free_cash
+                    cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                else:
+                    # Covering takes no free cash apart from fixed fees, but there is none to open a long position
+                    cash_limit = cover_req_cash
     else:
         cash_limit = exec_state.cash
     cash_limit = min(cash_limit, exec_state.cash)
-- 
2.43.0


From 2f44202f5c3d1b237e62f30155cf30fa61d1f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 05/10] fix: value in simulation order follows each column when
 the call sequence changes between rows

The asset value of the column that was at the same position of the previous row's call sequence was replaced,
instead of the previous asset value of the same column, so the value counted a column twice or not at all.
---
 rust/src/portfolio.rs    | 19 +++++++++----------
 vectorbt/portfolio/nb.py | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index ae548a5..8a1e9b6 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -5048,29 +5048,28 @@ pub fn value_in_sim_order_py<'py>(
             let group_len = gl_cow[group] as usize;
             let to_col = from_col + group_len;
             let mut asset_value_now = 0.0f64;
-            let mut since_last_nan = group_len;
+            let mut nan_count: usize = 0;
             for j in 0..(nrows * group_len) {
                 let i = j / group_len;
                 let col = from_col + cs_cow[i * ncols + from_col + j % group_len] as usize;
-                if j >= group_len {
-                    let last_j = j - group_len;
-                    let last_i = last_j / group_len;
-                    let last_col = from_col + cs_cow[last_i * ncols + from_col + last_j % group_len] as usize;
-                    if !av_cow[last_i * ncols + last_col].is_nan() {
-                        asset_value_now -= av_cow[last_i * ncols + last_col];
+                if i > 0 {
+                    // Call sequence may differ between rows, hence replace the last value of the same column
+                    if av_cow[(i - 1) * ncols + col].is_nan() {
+                        nan_count -= 1;
+                    } else {
+                        asset_value_now -= av_cow[(i - 1) * ncols + col];
                     }
                 }
                 if av_cow[i * ncols + col].is_nan() {
-                    since_last_nan = 0;
+                    nan_count += 1;
                 } else {
                     asset_value_now += av_cow[i * ncols + col];
                 }
-                if since_last_nan < group_len {
+                if nan_count > 0 {
                     out[i * ncols + col] = f64::NAN;
                 } else {
                     out[i * ncols + col] = c_cow[i * ncols + col] + asset_value_now;
                 }
-                since_last_nan += 1;
             }
             from_col = to_col;
         }
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 735eb69..e27c180 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6827,25 +6827,24 @@ def value_in_sim_order_nb(
         group_len = to_col - from_col
         asset_value_now = 0.0
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
             col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            if i > 0:
+                # Call sequence may differ between rows, hence replace the last value of the same column
+                if np.isnan(asset_value[i - 1, col]):
+                    nan_count -= 1
+                else:
+                    asset_value_now -= asset_value[i - 1, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From dcd3015a7740f80e2ed32a65fe1a033cfe17acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 06/10] fix: generate_ohlc_stop_exits writes stop price and
 type of a single column

With out_dict given and a single column, the output arrays were read-only
views of the broadcast frames and the generator failed on the first hit.
---
 vectorbt/signals/accessors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..7a530a6 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1072,8 +1072,9 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        # The arrays are written by the generator: arrays of broadcast objects may be read-only
+        stop_price_out = np.require(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64, requirements="CW")
+        stop_type_out = np.require(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64, requirements="CW")
 
         # Perform generation
         if chain:
-- 
2.43.0


From 3dc688fee8022af81cfd2c38271949b5a88227a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 07/10] fix: store the active drawdown when the last value is
 missing

---
 rust/src/generic.rs    | 16 ++++++++++++++--
 vectorbt/generic/nb.py |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/rust/src/generic.rs b/rust/src/generic.rs
index d79823b..c7a76a4 100644
--- a/rust/src/generic.rs
+++ b/rust/src/generic.rs
@@ -1936,8 +1936,14 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
             let mut valley_idx = -1i64;
             let mut peak_val = unsafe { *src.get_unchecked(col) };
             let mut valley_val = peak_val;
+            let mut last_val = f64::NAN;
             for i in 0..nrows {
-                let cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
+                let mut cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
+                if !cur_val.is_nan() {
+                    last_val = cur_val;
+                } else if i == nrows - 1 {
+                    cur_val = last_val;
+                }
                 if !cur_val.is_nan() {
                     if peak_val.is_nan() || cur_val >= peak_val {
                         if !drawdown_started {
@@ -2000,8 +2006,14 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
         let mut valley_val = col_view[0];
         let mut store_record = false;
         let mut status = -1i64;
+        let mut last_val = f64::NAN;
         for i in 0..nrows {
-            let cur_val = col_view[i];
+            let mut cur_val = col_view[i];
+            if !cur_val.is_nan() {
+                last_val = cur_val;
+            } else if i == nrows - 1 {
+                cur_val = last_val;
+            }
             if !cur_val.is_nan() {
                 if peak_val.is_nan() || cur_val >= peak_val {
                     if !drawdown_started {
diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..bea112b 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1856,9 +1856,15 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_val = ts[0, col]
         store_record = False
         status = -1
+        last_val = np.nan
 
         for i in range(ts.shape[0]):
             cur_val = ts[i, col]
+            if not np.isnan(cur_val):
+                last_val = cur_val
+            elif i == ts.shape[0] - 1:
+                # A drawdown running at the end must be stored even if the last value is missing
+                cur_val = last_val
 
             if not np.isnan(cur_val):
                 if np.isnan(peak_val) or cur_val >= peak_val:
-- 
2.43.0


From a16a39ea3366567af90404ec35ec93946bb4c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 08/10] fix: daily/annual returns over gaps in the index

resample_total_return sized its result by the number of periods but indexed it
by the non-empty ones, so any empty period raised a shape error.
---
 vectorbt/returns/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..aeb54b6 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -306,7 +306,7 @@ class ReturnsAccessor(GenericAccessor):
         engine = engine if engine is not None else self.engine
         returns_2d = self.to_2d_array()
         resampled = self.obj.resample(freq, **kwargs)
-        out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
+        out = np.full((len(resampled.indices), returns_2d.shape[1]), np.nan)
         for i, idxs in enumerate(resampled.indices.values()):
             out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
         out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
-- 
2.43.0


From a01926ec5711e5e490396caa0ae9144d72eef714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:01 +0000
Subject: [PATCH 09/10] fix: selecting three or more groups keeps each group's
 columns together

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..4d73dcd 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens[:-1])] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From e81bc9bbacb2d870edac13ed61790b5b860164d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:13 +0000
Subject: [PATCH 10/10] fix: describe() of a mapped array honours group_by and
 several values on one bar

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..6185108 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -979,7 +979,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True, group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0

