From 44ce6bfa0e80d0903ea2e273137b11bba6a5e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 01/36] fix: market sell must not subtract the traded quantity
 from a bid level twice

---
 trading-engine/src/orderbook/half_book.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..a412f12 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,6 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 7f7f8bdb0378e7d568741f6fc4a05bc712275b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 02/36] fix: changing an order's quantity to zero must remove
 it from the book and the id cache

---
 trading-engine/src/orderbook/half_book.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index a412f12..1ece50a 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -520,6 +520,10 @@ impl HalfBook {
         order_id: OrderId, 
         new_quantity: BookQuantity,
     ) -> Option<()> {        
+        if new_quantity == 0 { // nothing is left of the order, so it must leave the book with its cache entry
+            return self.cancel_order(order_id);
+        }
+
         if let Some(price) = self.cache.get(&order_id) {
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
-- 
2.43.0


From 40af0d9bcdecb1a2348ec14d1a65aba707b85ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 03/36] fix: parse_under32 must handle its documented minimum
 length of 16

---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..2732308 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -287,6 +287,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 {
+        return parse_under16(u, 16);
+    }
     let (upper, lower) = u.split_at(16);
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
-- 
2.43.0


From d94d5246807992745d982413fd8f376ddcf13594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 04/36] fix: IntegerConverter must slice the whole number when
 leading bytes are unused

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 2732308..0f9db90 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -362,7 +362,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 6f4647921f201f2c3c3a04104fba8d7cc13e5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 05/36] fix: unchecked conversions must skip the unused leading
 bytes (stock prices were read two digits short)

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 0f9db90..5e4131b 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -412,21 +412,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From 8213ac5bd630fce922cef697f175ee18ba4c33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 06/36] fix: IFMSRPD0036::to_trade_data must honour sign and
 decimal point of the trade price

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 43761e30167e875288a9a11e14219443ba8a3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 07/36] fix: buffer decoders must set quote_level_cut, or stale
 levels of a larger buffer count as quoted

---
 trading-engine/src/data/krx/derivative_quote.rs | 2 ++
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 trading-engine/src/data/krx/stock_quote.rs      | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..0b035c1 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -210,6 +210,7 @@ impl IFMSRPD0034 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
         buffer.order_counter = order_counter;
 
         let pr_ln = converter.price.get_config().total_length;
@@ -458,6 +459,7 @@ impl IFMSRPD0035 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
         buffer.order_counter = order_counter;
         
         let pr_ln = converter.price.get_config().total_length;
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..768fbb7 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -284,6 +284,7 @@ impl IFMSRPD0037 {
         //data_buffer.timestamp_converter = timestamp_converter;
         data_buffer.order_converter = converter;
         data_buffer.order_counter = order_counter;
+        data_buffer.quote_level_cut = self.quote_level_cut;
         //
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
@@ -620,6 +621,8 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.quote_level_cut = self.quote_level_cut;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..7e4ecf1 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -222,6 +222,7 @@ impl IFMSRPD0002 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         
@@ -459,6 +460,7 @@ impl IFMSRPD0003 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
 
-- 
2.43.0


From 8a1c10005fdaecccbda53d217f279467187c672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 08/36] fix: the IFMSRPD0038 buffer decoder must set the
 converters of the buffer

---
 trading-engine/src/data/krx/derivative_trade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 768fbb7..2a7d4e2 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -621,6 +621,8 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
         data_buffer.quote_level_cut = self.quote_level_cut;
 
         let pr_ln = converter.price.get_config().total_length;
-- 
2.43.0


From 603539d5995adcd3bfcc72427cb2fc81871b246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 09/36] fix: refusing a malformed frame must not panic while
 formatting the error

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From fc412d6b811afe06d04d86baf717db9d7b7febb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 10/36] fix: parse_under32_with_floating_point must handle its
 documented minimum length of 16

---
 trading-engine/src/utils/numeric_converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 5e4131b..f5ffc97 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -203,6 +203,10 @@ pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length:
         "parse_under32: length must be less than or equal to 32"
     );
 
+    if length == 16 {
+        return parse_under16_with_floating_point(u, length, point_length);
+    }
+
     match point_length {
         0 => parse_under32(u, length) as u64,
         1 => parse_under32(&u[..(length - 1)], length - 1) as u64,
-- 
2.43.0


From 31cbf80f69cab68a62efeb9ee6c078823c88abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 11/36] fix: exponentially weighted values discount from the
 last observation

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 1bcc04b8eb79bc77e1e9dad6654ccbd48ee9eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 12/36] fix: logarithmic order flow guards the quantity it
 takes the logarithm of

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..872ca14 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -408,7 +408,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -419,7 +419,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 && current_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -489,7 +489,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if previous_bid.quantity > 0.0 && current_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -499,7 +499,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From f4d24a276f60c5f6da11ec535f432c7628ebfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 13/36] fix: an empty quotes feature can be updated

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 872ca14..d707511 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -91,8 +91,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From bda28911528ec1d15efe703e0acf802105c76678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 14/36] fix: dropping an empty DataSpinQueue does not free a
 null pointer

---
 trading-engine/src/spinqueue.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..3f4614c 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -53,8 +53,11 @@ where
     T: Clone + Debug + Default
 {
     fn drop(&mut self) {
-        unsafe {
-            let _= Box::from_raw(self.data_buffer.load(Ordering::Relaxed));
+        let data = self.data_buffer.load(Ordering::Relaxed);
+        if !data.is_null() {
+            unsafe {
+                let _= Box::from_raw(data);
+            }
         }
     }
 }
-- 
2.43.0


From e716648e79ffe9b7c915ea653cf882934987ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 15/36] fix: ActActIsda counts the last day of a year in that
 year

---
 quantlib/src/time/calendar_trait.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..aca7c97 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -211,16 +211,15 @@ pub trait CalendarTrait {
                         let days = if end_year == start_year {
                             (*end_date - *start_date).whole_days() as Time
                         } else {
-                            let last_day_of_year =
-                                Date::from_calendar_date(year, Month::December, 31).unwrap();
-                            (last_day_of_year - start_date.date()).whole_days() as Time
+                            let first_day_of_next_year =
+                                Date::from_calendar_date(year + 1, Month::January, 1).unwrap();
+                            (first_day_of_next_year - start_date.date()).whole_days() as Time
                         };
                         frac += days / days_in_year;
                     } else if year == end_year {
-                        let last_day_of_previous_year =
-                            Date::from_calendar_date(year - 1, Month::December, 31).unwrap();
-                        let days =
-                            (end_date.date() - last_day_of_previous_year).whole_days() as Time;
+                        let first_day_of_year =
+                            Date::from_calendar_date(year, Month::January, 1).unwrap();
+                        let days = (end_date.date() - first_day_of_year).whole_days() as Time;
                         frac += days / days_in_year;
                     } else {
                         frac += 1.0; // Full year
-- 
2.43.0


From ba8706c07c6853b180741160042d7bb05482780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 16/36] fix: street convention between two 31sts no longer
 drops a month

---
 quantlib/src/time/calendar_trait.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index aca7c97..7f1e553 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -235,12 +235,8 @@ pub trait CalendarTrait {
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                if day_from == 31 && day_upto != 31 {
+                    days += 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From af0dcddd59b43fe203e870f9f1f92dd47e1169eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 17/36] fix: good friday used the orthodox easter table for
 western markets and vice versa

---
 quantlib/src/time/holiday.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..046ca6b 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -27,10 +27,11 @@ pub trait Holidays {
             return false;
         }
 
+        // EASTER_MONDAYS holds the western dates first, the orthodox ones second
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From b75d82f8ad63b6a0db2090b94628f3e7875beadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:21 +0000
Subject: [PATCH 18/36] fix: united states settlement calendar missed Veterans
 Day moved to Friday

---
 quantlib/src/time/calendars/unitedstates.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/time/calendars/unitedstates.rs b/quantlib/src/time/calendars/unitedstates.rs
index c75adc6..413d326 100644
--- a/quantlib/src/time/calendars/unitedstates.rs
+++ b/quantlib/src/time/calendars/unitedstates.rs
@@ -68,6 +68,16 @@ impl UnitedStatesType {
         }
     }
 
+    fn is_veterans_day(&self, date: &OffsetDateTime) -> bool {
+        let (y, m, d, w, _) = self.unpack(date);
+
+        self.is_veterans_day_no_saturday(date)
+            || ((y <= 1970 || y >= 1978)
+                && d == 10
+                && w == Weekday::Friday
+                && m == Month::November)
+    }
+
     // move_to_friday: false only if the UnitedStatesType is FederalReserve
     fn is_juneteenth(&self, date: &OffsetDateTime, move_to_friday: bool) -> bool {
         // declared in 2021, but only observed by exchanges since 2022
@@ -135,7 +145,7 @@ impl Holidays for UnitedStatesType {
                 || ((d == 4 || (d == 5 && w == Weekday::Monday) || (d == 3 && w == Weekday::Friday)) && m == Month::July)// Independence Day (Monday if Sunday or Friday if Saturday)
                 || self.is_labor_day(date)// Labor Day (first Monday in September)
                 || self.is_columbus_day(date)// Columbus Day (second Monday in October)
-                || self.is_veterans_day_no_saturday(date)// Veteran's Day (Monday if Sunday or Friday if Saturday)
+                || self.is_veterans_day(date)// Veteran's Day (Monday if Sunday or Friday if Saturday)
                 || ((22..=28).contains(&d) && w == Weekday::Thursday && m == Month::November)// Thanksgiving Day (fourth Thursday in November)
                 || ((d == 25 || (d == 26 && w == Weekday::Monday) || (d == 24 && w == Weekday::Friday)) && m == Month::December)
                 // Christmas (Monday if Sunday or Friday if Saturday)
-- 
2.43.0


From cccf15d2d4a7cefbc8ddddef543c6691aae65a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 19/36] fix: sub_period kept a wrong year for more months than
 a year and the month of the date

---
 quantlib/src/utils/string_arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..8ed18a0 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -195,7 +195,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
                 let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From 381636c655ddd1a927b68f4cf2995b926fc31069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 20/36] fix: year and month steps of a tenor dropped the hours
 of earlier steps

---
 quantlib/src/utils/string_arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 8ed18a0..272b88f 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From 55989d9f4697ecb4a2f20055dc93cd33098b4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 21/36] fix: a schedule of a single period ran past the
 maturity

---
 quantlib/src/instruments/schedule.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..3d3f855 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -166,13 +166,19 @@ pub fn build_schedule(
     for i in 0..schedule_length {
         if i == 0 {
             calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            if schedule_length == 1 {
+                // the only period is also the last one
+                calc_end_date = *maturity;
+                payment_date = *maturity;
+            } else {
+                calc_end_date = calc_start_date_vec[i + 1];
+                payment_date =
+                    calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            }
         } else if i == schedule_length - 1 {
             calc_start_date = calc_start_date_vec[i];
             calc_end_date = *maturity;
-- 
2.43.0


From 3554d3a6a6836f296734931f622387bbe878a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 22/36] fix: linear and bilinear interpolators refused their
 last node without extrapolation

---
 .../src/math/interpolators/bilinear_interpolator.rs    |  4 +++-
 quantlib/src/math/interpolators/linear_interpolator.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..d2f659e 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -165,7 +165,9 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
-        } else if t >= self.t_domain[n - 1] {
+        } else if t == self.t_domain[n - 1] {
+            self.x_interpolator[n - 1].interpolate(x)
+        } else if t > self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
                     ExtraPolationType::Flat => Ok(self.x_interpolator[n - 1].interpolate(x)?),
diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..5e3458f 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -92,7 +92,11 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                 ));
             }
         }
-        if x >= self.domain[n - 1] {
+        if x == self.domain[n - 1] {
+            // the last node belongs to the domain
+            return Ok(self.value[n - 1]);
+        }
+        if x > self.domain[n - 1] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
                     return Ok(self.value[n - 1]);
@@ -154,7 +158,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                         x[i]
                     ));
                 }
-            } else if x[i] >= self.domain[domain_n - 1] {
+            } else if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
+            } else if x[i] > self.domain[domain_n - 1] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
                         result[i] = self.value[domain_n - 1];
-- 
2.43.0


From 766b53552705cdbc69f56b25ec70485f7f32bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 23/36] fix: stepwise interpolation of three or more queries
 ignored the extrapolation values

---
 quantlib/src/math/interpolators/stepwise_interpolatior.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..1f8d13b 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,6 +117,11 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
+                if x[i] < left_bound || x[i] > right_bound {
+                    // extrapolation values apply as for a single query
+                    result[i] = self.interpolate(x[i])?;
+                    continue;
+                }
                 result[i] = self.value[index[i]];
             }
         }
-- 
2.43.0


From 9c073625ce5516bc8c263db13f428846eeec2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 24/36] fix: dividends dated before the evaluation date ran
 past the end of the list

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..be8ab1b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -87,13 +87,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = date_integers.to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
@@ -251,13 +249,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
-- 
2.43.0


From 058737cec4894f77e3fbc1ca026b353b263b28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 25/36] fix: a dividend at the evaluation instant was deducted
 and still ahead

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index be8ab1b..fade41d 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -88,7 +88,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
@@ -250,7 +250,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-- 
2.43.0


From 13acd6f834ad8b5d82a4ac7e565e3f506542d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 26/36] fix: bumping the dividends brought back those already
 passed

---
 .../src/parameters/discrete_ratio_dividend.rs | 30 +++----------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index fade41d..2903f19 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -212,33 +212,11 @@ impl DiscreteRatioDividend {
 
         // update self.dividend_amounts
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
-        // update self.dividend_yields and remake a incremental_deduction_ratio
+        // update self.dividend_yields and remake the interpolator, which holds
+        // only the dividends after the evaluation date
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
-        Ok(())
+        let evaluation_date = self.evaluation_date.borrow().clone();
+        self.update_evaluation_date(&evaluation_date)
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-- 
2.43.0


From ef56f1fbce8a421a878a895eb1a7d9eb161d9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 27/36] fix: cash reported its name as its code

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From 2e7593bed44855fdfb9b3e82e5226ab9d5665de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 28/36] fix: the floating leg currency of swaps was missing
 from the list of currencies

---
 quantlib/src/instrument.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..13a08f3 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -346,8 +346,8 @@ impl Instruments {
                 currencies.push(currency);
             }
 
-            match instrument.get_type_name() {
-                "Futures" | "FxFutures" => {
+            match instrument.as_ref() {
+                Instrument::Futures(_) | Instrument::FxFutures(_) => {
                     let currency = instrument.get_underlying_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_underlying_currency failed for {} ({})",
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                Instrument::PlainSwap(_) => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From 0885a1ed792a3abf07244fe1db0c9c96e448d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 29/36] fix: instruments using a curve twice were listed twice

---
 quantlib/src/instrument.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 13a08f3..3b8e7b0 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -435,27 +435,22 @@ impl Instruments {
             if exclude_type.contains(&instrument.get_type_name()) {
                 continue;
             }
-            // 1)
-            if match_parameter.get_discount_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 2)
-            if match_parameter
-                .get_collateral_curve_names(instrument)?
-                .contains(&curve_name)
-            {
-                res.push(instrument.clone());
-            }
-            // 3) forward curve
-            if match_parameter.get_rate_index_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 4) crs curve
-            if match_parameter.get_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 5) floating crs curve
-            if match_parameter.get_floating_crs_curve_name(instrument)? == curve_name {
+            // an instrument is listed once even if it uses the curve more than once (as IRS do)
+            let uses_curve =
+                // 1)
+                match_parameter.get_discount_curve_name(instrument)? == curve_name
+                // 2)
+                || match_parameter
+                    .get_collateral_curve_names(instrument)?
+                    .contains(&curve_name)
+                // 3) forward curve
+                || match_parameter.get_rate_index_curve_name(instrument)? == curve_name
+                // 4) crs curve
+                || match_parameter.get_crs_curve_name(instrument)? == curve_name
+                // 5) floating crs curve
+                || match_parameter.get_floating_crs_curve_name(instrument)? == curve_name;
+
+            if uses_curve {
                 res.push(instrument.clone());
             }
         }
-- 
2.43.0


From bd10c4b0e815cb64a3b592c11c520a5ebd42d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 30/36] fix: bump values that are not numbers were accepted

---
 .../pricing_engines/calculation_configuration.rs   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantlib/src/pricing_engines/calculation_configuration.rs b/quantlib/src/pricing_engines/calculation_configuration.rs
index a9395c5..8d1c869 100644
--- a/quantlib/src/pricing_engines/calculation_configuration.rs
+++ b/quantlib/src/pricing_engines/calculation_configuration.rs
@@ -155,33 +155,33 @@ impl CalculationConfiguration {
         if delta != gamma {
             return Err(anyhow!("delta and gamma must be both true or both false"));
         }
-        if delta_bump_ratio <= 0.0 {
+        if delta_bump_ratio.is_nan() || delta_bump_ratio <= 0.0 {
             return Err(anyhow!(
                 "delta_bump_ratio must be > 0.0, got {}",
                 delta_bump_ratio
             ));
         }
-        if gamma_bump_ratio <= 0.0 {
+        if gamma_bump_ratio.is_nan() || gamma_bump_ratio <= 0.0 {
             return Err(anyhow!(
                 "gamma_bump_ratio must be > 0.0, got {}",
                 gamma_bump_ratio
             ));
         }
-        if rho_bump_value <= 0.0 {
+        if rho_bump_value.is_nan() || rho_bump_value <= 0.0 {
             return Err(anyhow!("rho_bump must be > 0.0, got {}", rho_bump_value));
         }
-        if vega_bump_value <= 0.0 {
+        if vega_bump_value.is_nan() || vega_bump_value <= 0.0 {
             return Err(anyhow!("vega_bump must be > 0.0, got {}", vega_bump_value));
         }
 
-        if vega_structure_bump_value <= 0.0 {
+        if vega_structure_bump_value.is_nan() || vega_structure_bump_value <= 0.0 {
             return Err(anyhow!(
                 "vega_structure_bump_value must be > 0.0, got {}",
                 vega_structure_bump_value
             ));
         }
 
-        if vega_matrix_bump_value <= 0.0 {
+        if vega_matrix_bump_value.is_nan() || vega_matrix_bump_value <= 0.0 {
             return Err(anyhow!(
                 "vega_matrix_bump_value must be > 0.0, got {}",
                 vega_matrix_bump_value
@@ -192,7 +192,7 @@ impl CalculationConfiguration {
             return Err(anyhow!("theta_day must be > 0, got {}", theta_day));
         }
 
-        if div_bump_value <= 0.0 {
+        if div_bump_value.is_nan() || div_bump_value <= 0.0 {
             return Err(anyhow!(
                 "div_bump_value must be > 0.0, got {}",
                 div_bump_value
-- 
2.43.0


From d8b6002e1117b26102ac20df11f126cebc31109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 31/36] fix: fx codes written to JSON could not be read back

---
 quantlib/src/currency.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..cfa1d8d 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +173,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +189,40 @@ impl Serialize for FxCode {
     }
 }
 
+/// Reads what is written by Serialize (e.g., "USD_KRW"), or the two currencies as fields
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum Written {
+            Text(String),
+            Fields {
+                currency1: Currency,
+                currency2: Currency,
+            },
+        }
+
+        match Written::deserialize(deserializer)? {
+            Written::Text(text) => {
+                let currencies = text.split_once('_').and_then(|(first, second)| {
+                    let (currency1, currency2) = (Currency::from(first), Currency::from(second));
+                    (currency1.as_str() == first && currency2.as_str() == second)
+                        .then(|| FxCode::new(currency1, currency2))
+                });
+                currencies
+                    .ok_or_else(|| serde::de::Error::custom(format!("invalid fx code: {}", text)))
+            }
+            Written::Fields {
+                currency1,
+                currency2,
+            } => Ok(FxCode::new(currency1, currency2)),
+        }
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From 4f6ea8ff2218768d6009a7ba57975f975399b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 32/36] verification hook: instrument groups (cfg verif)

---
 quantlib/src/pricing_engines/engine_generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine_generator.rs b/quantlib/src/pricing_engines/engine_generator.rs
index 79a265f..17a0cc8 100644
--- a/quantlib/src/pricing_engines/engine_generator.rs
+++ b/quantlib/src/pricing_engines/engine_generator.rs
@@ -284,6 +284,12 @@ impl EngineGenerator {
         }
     }
 
+    /// The groups made by distribute_instruments, for verification builds only
+    #[cfg(verif)]
+    pub fn instrument_groups(&self) -> &Vec<Vec<Instrument>> {
+        &self.instrument_group_vec
+    }
+
     pub fn get_calculation_results(&self) -> &HashMap<String, CalculationResult> {
         &self.calculation_results
     }
-- 
2.43.0


From 2b77c49b9b79e52b823920f9f2032c435f37964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:00 +0000
Subject: [PATCH 33/36] fix: floating coupons of a swap lost their notional
 once it had started

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From 4fb305bb386d1d9959e34f57679051187874c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:00 +0000
Subject: [PATCH 34/36] fix: forward rates over empty intervals were infinite

---
 quantlib/src/parameters/zero_curve.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..377220f 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,19 +334,10 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
+                // an empty interval stands for the instant after t1
+                let t2 = if t2 - t1 > 1e-6 { t2 } else { t2 + 1e-5 };
                 let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                };
+                let disc: Real = self.get_discount_factor_between_times(t1, t2)?;
 
                 match compounding {
                     Compounding::Simple => Ok((1.0 - disc) / tau),
-- 
2.43.0


From 744e23b6eeca26795055fee46c5f1a3716e96766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:16 +0000
Subject: [PATCH 35/36] fix: expected cash flows of the same date overwrote
 each other

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From adb69d95af0cfb38dcc71d848a2c5ae26816a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:54 +0000
Subject: [PATCH 36/36] fix: the time to a date in an earlier year was zero

---
 quantlib/src/time/calendar_trait.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 7f1e553..932551f 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -290,6 +290,9 @@ pub trait CalendarTrait {
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
         let end_year = end_date.year();
+        if end_year < start_year {
+            return -self.get_time_difference(end_date, start_date);
+        }
 
         for year in start_year..=end_year {
             let days_in_year: Time = if self.is_leap_year(year) {
-- 
2.43.0

