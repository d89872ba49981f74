From 867b70f629f797a2aae84ff0da068bef4aa6c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 001/136] fix: trunc overflowed int for large values

---
 indicators/trunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trunc.cc b/indicators/trunc.cc
index f1b166d..7aad3ea 100644
--- a/indicators/trunc.cc
+++ b/indicators/trunc.cc
@@ -9,4 +9,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_trunc_start, ti_trunc, (int)(in1[i]))
+SIMPLE1(ti_trunc_start, ti_trunc, (trunc(in1[i])))
-- 
2.43.0


From b55687f3689f5f46418f20d39123a3a1f1f15009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 002/136] fix: bbands took the root of a variance that rounding
 left below zero

---
 indicators/bbands.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..4a82cc5 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -36,7 +36,8 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL var = sum2 * scale - (sum * scale) * (sum * scale);
+    TI_REAL sd = sqrt(var < 0 ? 0 : var);
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,8 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        var = sum2 * scale - (sum * scale) * (sum * scale);
+        sd = sqrt(var < 0 ? 0 : var);
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
-- 
2.43.0


From 662fe5f5d97e8f04570a3c4cecd6fac56b9c4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 003/136] fix: volatility took the root of a variance that
 rounding left below zero

---
 indicators/volatility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..7acb468 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -38,7 +38,8 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    TI_REAL var = sum2 * scale - (sum * scale) * (sum * scale);
+    *output++ = sqrt(var < 0 ? 0 : var) * annual;
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,8 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        var = sum2 * scale - (sum * scale) * (sum * scale);
+        *output++ = sqrt(var < 0 ? 0 : var) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From 11c8692930e8ca0dfd70e4919e9435e682ebbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 004/136] fix: dpo read before its input for periods 1 and 2

---
 indicators/dpo.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..53bd2d3 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return period-1 < back ? back : period-1;
 }
 
 
@@ -32,12 +34,12 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) *output++ = input[period-1-back] - (sum * scale);
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) *output++ = input[i-back] - (sum * scale);
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
-- 
2.43.0


From c839e775f1159882591ae9d7672d0e5b41dc7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 005/136] fix: vwap divided by a window without volume

---
 indicators/vwap.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..1532f05 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -34,14 +34,14 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         den += volume[i];
     }
     if (i > 0 && progress == 1) {
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
     for (; i < size; ++i, ++progress) {
         num += (high[i] + low[i] + close[i]) / 3. * volume[i]
             - (high[i-(int)period] + low[i-(int)period] + close[i-(int)period]) / 3. * volume[i-(int)period];
         den += volume[i] - volume[i-(int)period];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
 
     return TI_OKAY;
@@ -181,7 +181,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
 
         num -= (price_high[period-1] + price_low[period-1] + price_close[period-1]) / 3. * price_volume[period-1];
         den -= price_volume[period-1];
-- 
2.43.0


From 161d80625a4344ab3d9a9eb63c4e9088972c3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 006/136] fix: vwap_ref wrote an output for fewer bars than its
 period, and divided by a window without volume

---
 indicators/vwap.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1532f05..7195c76 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -59,6 +59,8 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     ti_typprice(size, inputs, 0, &typprice);
@@ -72,7 +74,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
     }
 
-    *vwap++ = sum / vsum;
+    *vwap++ = vsum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += typprice[i] * volume[i];
@@ -80,7 +82,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
         vsum -= volume[i-(int)period];
 
-        *vwap++ = sum / vsum;
+        *vwap++ = vsum ? sum / vsum : 0;
     }
 
     free(typprice);
-- 
2.43.0


From 204a7e6a0655d32eddfbfc4e6a13e815662d98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 007/136] fix: hurst of a flat window was the noise of its
 running sum

---
 indicators/hurst.cc | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..5e63078 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -28,18 +28,19 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (period < 2) { return TI_INVALID_OPTION; }
 
     ringbuf<0> r(period);
-    TI_REAL sum = 0;
 
     int i = 1;
     for (; i < period && i < size; ++i, step(r)) {
         r = series[i] && series[i-1] ? log(series[i] / series[i-1]) : 0;
-        sum += r;
     }
     for (; i < size; ++i, step(r)) {
         r = series[i] && series[i-1] ? log(series[i] / series[i-1]) : 0;
-        sum += r;
 
-        TI_REAL mean = sum / period;
+        TI_REAL mean = 0;
+        for (int j = 0; j < period; ++j) {
+            mean += r[j];
+        }
+        mean /= period;
 
         TI_REAL cum_meandev = 0;
         TI_REAL max_cum_meandev = -std::numeric_limits<TI_REAL>::infinity();
@@ -60,8 +61,6 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
-
-        sum -= r[period-1];
     }
 
     return TI_OKAY;
@@ -125,7 +124,6 @@ struct ti_hurst_stream : ti_stream {
     struct {
         ringbuf<0> r;
         ringbuf<2> price;
-        TI_REAL sum = 0;
     } state;
 
     struct {
@@ -171,7 +169,6 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
     auto &r = ptr->state.r;
     auto &price = ptr->state.price;
-    TI_REAL sum = ptr->state.sum;
 
     int i = 0;
     for (; progress < -period+1 && i < size; ++i, ++progress, step(price)) {
@@ -181,15 +178,17 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         price = series[i];
 
         r = price && price[1] ? log(price / price[1]) : 0;
-        sum += r;
     }
     for (; i < size; ++i, ++progress, step(price, r)) {
         price = series[i];
 
         r = price && price[1] ? log(price / price[1]) : 0;
-        sum += r;
 
-        TI_REAL mean = sum / period;
+        TI_REAL mean = 0;
+        for (int j = 0; j < period; ++j) {
+            mean += r[j];
+        }
+        mean /= period;
 
         TI_REAL cum_meandev = 0;
         TI_REAL max_cum_meandev = -std::numeric_limits<TI_REAL>::infinity();
@@ -210,12 +209,9 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
-
-        sum -= r[period-1];
     }
 
     ptr->progress = progress;
-    ptr->state.sum = sum;
 
     return TI_OKAY;
 }
-- 
2.43.0


From f14ee3667b0275e5f4cc49edd7c06cda717e504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 008/136] fix: hurst_ref divided zero by zero on a flat window,
 and took the logarithm of zero

---
 indicators/hurst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index 5e63078..a2b153a 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -77,7 +77,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
-    #define r(i) log(series[(i)]/series[(i)-1])
+    #define r(i) (series[(i)] && series[(i)-1] ? log(series[(i)]/series[(i)-1]) : 0)
 
     for (int i = period; i < size; ++i) {
         TI_REAL mean = 0;
@@ -105,7 +105,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         TI_REAL R = max_cum_meandev - min_cum_meandev;
         TI_REAL S = stddev;
 
-        TI_REAL H = log(R/S) / log(period);
+        TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
     }
-- 
2.43.0


From ec12c9e8d9f4fe5ea420c69f8fb0e6f1d99a1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 009/136] fix: vidya read past its input when size is one less
 than the long period

---
 indicators/vidya.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From c75281f966a5f193eddba026bcbad8a5d98815da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 010/136] fix: vidya divided by a deviation that rounding left
 zero

---
 indicators/vidya.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 7dfb104..2c5ef1f 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -56,7 +56,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-        TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -80,7 +80,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-            TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0


From 1e93517b80e7448f6ffc513636c027e3e023be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 011/136] fix: hma divided by an empty window for period 1

---
 indicators/hma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..b3c6245 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
-- 
2.43.0


From 301cbf36ceeffbc2d0517deb14a3fb9537b150f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 012/136] fix: linear regression over a single bar divided zero
 by zero

---
 indicators/trend.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/trend.h b/indicators/trend.h
index 847185d..b202266 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -49,7 +49,8 @@
     x += (period); \
     x2 += (period) * (period); \
  \
-    const TI_REAL bd = 1.0 / ((period) * x2 - x * x); \
+    /* the line through a single point is level */ \
+    const TI_REAL bd = (period) > 1 ? 1.0 / ((period) * x2 - x * x) : 0; \
  \
     for (i = (period)-1; i < (size); ++i) { \
         xy += (input)[i] * (period); \
-- 
2.43.0


From 13e9b4de3f1be14fddd9da5b37dce77ad9a3b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 013/136] fix: mhlma lost the first bar when ma_period is 1

---
 indicators/mhlma.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..32fa952 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,11 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+        if (ma_period == 1) {
+            *mhlsma++ = sum;
+            *mhlema++ = ema;
+            sum -= mhl;
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -234,6 +239,11 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+        if (ma_period == 1) {
+            *mhlsma++ = sum;
+            *mhlema++ = ema;
+            sum -= mhl;
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
-- 
2.43.0


From a26ccd7eef1bdd3597f8a3c50781e0a667e793ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 014/136] fix: smi lost the first bar when q_period is 1

---
 indicators/smi.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..b861d6b 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -34,16 +34,16 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
-    int hh_idx;
-    int ll_idx;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
+    int hh_idx = 0;
+    int ll_idx = 0;
 
     TI_REAL var1;
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
+    for (; i < size && progress < 0 && progress == -q_period + 1; ++i, ++progress) {
         hh = high[i];
         hh_idx = progress;
         ll = low[i];
-- 
2.43.0


From 7d853a608783f43c289f13d5af5ce4abd8f90a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 015/136] fix: ce lost the first bar when period is 1

---
 indicators/ce.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..a164e1b 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,10 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -244,6 +248,10 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         min_idx = progress;
 
         prev_close = close[i];
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
         price_high = high[i];
-- 
2.43.0


From c04587af17bc1ccd4c25e42156c3ff3198cc0b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 016/136] fix: cmi lost the first bar when period is 1

---
 indicators/cmi.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..e399b34 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,10 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+        if (period < 2) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr;
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -186,6 +190,10 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+        if (period < 2) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr;
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
-- 
2.43.0


From 45b78bf8ddc0056a065c09364025bc221cb130ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 017/136] fix: ultosc dropped an already overwritten value when
 two of its periods are equal

---
 indicators/ultosc.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..24b3bf4 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -51,25 +51,27 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
-         * the medium and short sums off the same buffers. */
+         * the medium and short sums off the same buffers.
+         * Drop from them before the push: it overwrites the oldest value. */
+
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 4741b942aa4a85b717de7e60e1271ce0a19fdd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 018/136] fix: trix seeded its second and third averages with
 zero for period 1

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From 52fa99856769691d01f0b76ecda384c9b5c2d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 019/136] fix: zlema read before its input for periods 1 and 2

---
 indicators/zlema.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..e73ceb4 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,12 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    const int start = lag > 0 ? lag - 1 : 0;
+    TI_REAL val = input[start];
     *output++ = val;
 
     int i;
-    for (i = lag; i < size; ++i) {
+    for (i = start + 1; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From ead0c6a028c2a81a48e16744ed9690a633fd2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 020/136] fix: cvi used uninitialised memory for period 1

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..30588dd 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -31,6 +31,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     ti_buffer *lag = ti_buffer_new(period);
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From d6c6a31024d2ca884778d75f582a24d08be174a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 021/136] fix: gf3 took all its coefficients from the table of
 the first

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From 78a799ee7e21322e3bc871662e2c313902856c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 022/136] fix: gf4 had the sign of its last coefficients wrong

---
 indicators/gf4.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..4431dc5 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -16,7 +16,7 @@ struct {
     TI_REAL A1[20] = {0.173178,0.320247,0.559812,0.817734,1.066023,1.293310,1.496649,1.676861,1.836187,1.977213,2.102418,2.214012,2.313903,2.403709,2.484797,2.558316,2.625237,2.686378,2.742435,2.794000};
     TI_REAL A2[20] = {-0.011247,-0.038459,-0.117521,-0.250758,-0.426152,-0.627244,-0.839984,-1.054449,-1.264344,-1.466015,-1.657560,-1.838193,-2.007804,-2.166681,-2.315331,-2.454368,-2.584450,-2.706235,-2.820356,-2.927413};
     TI_REAL A3[20] = {0.000325,0.002053,0.010965,0.034176,0.075715,0.135204,0.209527,0.294694,0.386929,0.483104,0.580814,0.678297,0.774311,0.868012,0.958854,1.046508,1.130799,1.211662,1.289107,1.363199};
-    TI_REAL A4[20] = {0.000004,0.000041,0.000384,0.001747,0.005045,0.010929,0.019599,0.030885,0.044405,0.059700,0.076320,0.093860,0.111980,0.130403,0.148910,0.167331,0.185538,0.203436,0.220956,0.238049};
+    TI_REAL A4[20] = {-0.000004,-0.000041,-0.000384,-0.001747,-0.005045,-0.010929,-0.019599,-0.030885,-0.044405,-0.059700,-0.076320,-0.093860,-0.111980,-0.130403,-0.148910,-0.167331,-0.185538,-0.203436,-0.220956,-0.238049};
 } static tables;
 
 int ti_gf4_start(TI_REAL const *options) {
-- 
2.43.0


From 08e16cbec1fdcecd2001191f691508a52535c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 023/136] fix: gf4 wrote five outputs whatever the size

---
 indicators/gf4.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 4431dc5..5919787 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
-- 
2.43.0


From ad5d03791489846c11be47911677010a5e5b3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 024/136] fix: emsd reported the plain deviation instead of the
 averaged one, and NaN when rounding left the variance below zero

---
 indicators/emsd.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..3381cc0 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -42,7 +42,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -86,7 +86,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -184,7 +184,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
@@ -197,7 +197,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema < 0 ? 0 : ema);
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
-- 
2.43.0


From 4780ad9cdda2397c13f1700657d4972e599cd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 025/136] fix: pvt dropped what it had accumulated at a bar
 without volume, its stream and reference did otherwise

---
 indicators/pvt.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..a2f5019 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -94,7 +94,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -104,7 +104,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From b3a51bc5614a30ec01daceeba31b8854a8658c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 026/136] fix: pvt_ref wrote an output for fewer than two bars

---
 indicators/pvt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index a2f5019..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
-- 
2.43.0


From 5c63b018b173cca6216efaee995746bda77da0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 027/136] fix: emsd_ref did not truncate its periods as emsd
 does

---
 indicators/emsd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 3381cc0..736dd68 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -64,8 +64,8 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const int period = options[0];
+    const int ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 5a5e0c0c468aa3f7fc09a1fa66bc7208c861590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:11 +0000
Subject: [PATCH 028/136] fix: hfsma_stream kept 2k+1 prices whatever the
 period of its average

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..88c90cf 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -156,7 +156,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
         delete *stream;
-- 
2.43.0


From 89d745b518c918340166ccb725f315bf42423654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 029/136] fix: cmi_ref allocated a negative number of values
 for short inputs

---
 indicators/cmi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index e399b34..0f7c7eb 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -97,6 +97,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
-- 
2.43.0


From c4ec55511fcac5a533060e6f73f8d3033974a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 030/136] fix: dwma wrote one output too many for fractional
 periods

---
 indicators/dwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..09d25ae 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return 2*(period-1);
 }
-- 
2.43.0


From 74f15ef10dd2bf02854f6e06166dcd68ad5cf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 031/136] fix: dwma_ref threw for inputs shorter than its
 period

---
 indicators/dwma.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 09d25ae..7281314 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -77,10 +77,11 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE
 int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
-- 
2.43.0


From c0801cf5f3d29e2bad30fc183f6255624bf00d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 032/136] fix: lma_ref threw for inputs shorter than its period

---
 indicators/lma.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..d8dea6e 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -59,9 +59,10 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
-    std::vector<TI_REAL> wma_price(size-period+1);
-    std::vector<TI_REAL> sma_price(size-period+1);
+    std::vector<TI_REAL> wma_price(size-(int)period+1);
+    std::vector<TI_REAL> sma_price(size-(int)period+1);
 
     TI_REAL* arr[1];
  
@@ -70,7 +71,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     arr[0] = sma_price.data();
     ti_sma(size, &series, &period, arr);
 
-    for (int i = 0; i < size-period+1; ++i) {
+    for (int i = 0; i < size-(int)period+1; ++i) {
         lma[i] = 2*wma_price[i] - sma_price[i];
     }
 
-- 
2.43.0


From faab19bccb4f648517f57971ac3daadefc02c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 033/136] fix: copp wrote one output too many for fractional
 periods, and its stream accepted others than the rest

---
 indicators/copp.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..8340c38 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -11,9 +11,9 @@
 #include "../utils/log.h"
 
 int ti_copp_start(TI_REAL const *options) {
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     #define START (roc_longer_period + wma_period-1)
     return START;
 }
@@ -21,9 +21,9 @@ int ti_copp_start(TI_REAL const *options) {
 
 int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
@@ -75,22 +75,22 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
-    int roc_short_len = size-ti_roc_start(&roc_shorter_period);
+    int roc_short_len = size-ti_roc_start(&options[0]);
     TI_REAL *roc_short = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_short_len);
-    int roc_long_len = size-ti_roc_start(&roc_longer_period);
+    int roc_long_len = size-ti_roc_start(&options[1]);
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
@@ -98,14 +98,14 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
 
-    ti_roc(size, &series, &roc_shorter_period, &roc_short);
-    ti_roc(size, &series, &roc_longer_period, &roc_long);
+    ti_roc(size, &series, &options[0], &roc_short);
+    ti_roc(size, &series, &options[1], &roc_long);
 
     for (int i = 0; i < roc_long_len; ++i) {
         interm[i] = (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.;
     }
 
-    ti_wma(roc_long_len, &interm, &wma_period, &copp);
+    ti_wma(roc_long_len, &interm, &options[2], &copp);
 
     free(roc_short);
     free(roc_long);
-- 
2.43.0


From 5388ee715c79ffab7dce1d6d0300b96af76ea4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 034/136] fix: edcf counted fractional lengths differently at
 the start and while running

---
 indicators/edcf.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..72244cb 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -14,14 +14,14 @@
 
 
 int ti_edcf_start(TI_REAL const *options) {
-    TI_REAL length = options[0];
+    int length = options[0];
 
     return 2*length-1;
 }
 
 int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    TI_REAL length = options[0];
+    int length = options[0];
     TI_REAL *edcf = outputs[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
@@ -65,7 +65,7 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 struct ti_edcf_stream : ti_stream {
 
     struct {
-        TI_REAL length;
+        int length;
     } options;
 
     struct {
@@ -81,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
 
 int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL lookback = options[0];
-    TI_REAL length = options[0];
+    int length = options[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From 01182fa66ccd39a2ace6b024d3bd10e4e438d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 035/136] fix: hurst wrote one output too many for fractional
 periods

---
 indicators/hurst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index a2b153a..a847d32 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -21,7 +21,7 @@ int ti_hurst_start(TI_REAL const *options) {
 
 int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -71,7 +71,7 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 DONTOPTIMIZE
 int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -132,7 +132,7 @@ struct ti_hurst_stream : ti_stream {
 };
 
 int ti_hurst_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From b7877534482e477717c53c360e23944bfec1e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 036/136] fix: rmi left out the last output for fractional
 lookback periods

---
 indicators/rmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..4d1bb50 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -26,7 +26,7 @@ int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
-    if (size < lookback_period + 1) { return TI_OKAY; }
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
 
     TI_REAL gains_ema;
     TI_REAL losses_ema;
-- 
2.43.0


From dee49ba1e7ed7b61c10df248baa315623397f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 037/136] fix: kst read and wrote out of bounds for inputs no
 longer than its start

---
 indicators/kst.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..5d1bdf4 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
-- 
2.43.0


From d9b12e3a93e1659362f36f08db70a204a431a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 038/136] fix: kst_ref read and wrote out of bounds for short
 inputs, and accepted other options than kst

---
 indicators/kst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 5d1bdf4..7211fe8 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -115,7 +115,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
@@ -124,6 +124,8 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     int size_roc[4];
     int size_ema[4];
     TI_REAL *roc_mem[4];
-- 
2.43.0


From 66a377410aaffe66c2369764c155db9a5438bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 039/136] fix: vi took an input shorter than its period for an
 invalid option

---
 indicators/vi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..aa8376b 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
-- 
2.43.0


From 21864aa236c32a35727840c6d33e83cfc3a6280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 040/136] fix: vi_ref took an input shorter than its period for
 an invalid option

---
 indicators/vi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index aa8376b..1e5a4e5 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -62,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
-- 
2.43.0


From 0a6c60ea132303a88657258f4dee1d27de14b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 041/136] fix: fi_ref did not validate its option

---
 indicators/fi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
-- 
2.43.0


From 1a5b8641628602c620ea2c773b4031feebb20e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 042/136] fix: pbands_ref did not validate its option, nor
 expect short inputs

---
 indicators/pbands.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..8aad7c1 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -79,6 +79,9 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-- 
2.43.0


From 7e59ddeddd9f4a41f427e63266d25c9a319e44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 043/136] fix: posc_ref did not validate its options, nor
 expect short inputs

---
 indicators/posc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..4c811d5 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -98,6 +98,10 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-- 
2.43.0


From 589369c3e7194d957a8bb5d0f324af19eff4c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 044/136] fix: pfe_ref did not validate its ema_period

---
 indicators/pfe.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..4b7704f 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -84,6 +84,7 @@ int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
-- 
2.43.0


From e0d2e37d74a7d8dcb13d2bf654b44c520b2f4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 045/136] fix: frama_stream_new did not validate its
 average_period

---
 indicators/frama.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..6c1adf4 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -141,6 +141,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
-- 
2.43.0


From 11c99c4f2fe94ac716c06df681261a99bb1c3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 046/136] fix: kc_stream_new accepted periods below one

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..45f27b3 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new ti_kc_stream();
-- 
2.43.0


From b6c4114ebe1ee35c628ae84834aab28e5e4f4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 047/136] fix: report a failed ti_buffer allocation

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..e30c2e5 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) { return TI_OUT_OF_MEMORY; }
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..ecc2cb0 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 30588dd..1133716 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
     ti_buffer_qpush(lag, val);
diff --git a/indicators/hma.cc b/indicators/hma.cc
index b3c6245..6393dd3 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) { return TI_OUT_OF_MEMORY; }
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..8f59037 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..100c937 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 24b3bf4..0931c60 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8589e68 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) { return 0; }
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 2fbe629cb87f1a03504e6ac8f13434d5a97bcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 048/136] fix: report failed allocations in ce

---
 indicators/ce.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index a164e1b..afc3431 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -132,10 +132,10 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 	if (!atr) { return TI_OUT_OF_MEMORY; }
     ti_atr(size, inputs, &period, &atr);
     TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
+	if (!max) { free(atr); return TI_OUT_OF_MEMORY; }
 	ti_max(size, &high, &period, &max);
     TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
+	if (!min) { free(atr); free(max); return TI_OUT_OF_MEMORY; }
 	ti_min(size, &low, &period, &min);
 
 
@@ -181,7 +181,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From ee1ab042ea57e471b8476f550b35bdf84cc955fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 049/136] fix: report failed allocations in copp

---
 indicators/copp.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8340c38..e68726b 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -94,6 +94,12 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
 
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
@@ -146,7 +152,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
-- 
2.43.0


From a01d840ec461037a0e1ea8255599c7e36c0a4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 050/136] fix: report failed allocations in kc

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index 45f27b3..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From fed5d9ece47a5fc96b9740225cddd779caab11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 051/136] fix: report failed allocations in pbands

---
 indicators/pbands.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 8aad7c1..39f1d2d 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -84,6 +84,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
@@ -135,7 +136,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From d7bc6af5b485a79795284ee77b885de82adc5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 052/136] fix: report failed allocations in posc

---
 indicators/posc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 4c811d5..07a2093 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -104,6 +104,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
@@ -159,7 +160,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From e3e432ede3749727017ec25caeb28bd3792638bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 053/136] fix: report failed allocations in rvi

---
 indicators/rvi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 1bddfa61259f4488103c8b3ce7310a479f6cd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 054/136] fix: report failed allocations in smi

---
 indicators/smi.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index b861d6b..a3011fa 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -133,12 +133,24 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min) {
+        free(max);
+        free(min);
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_max(size, &high, &q_period, &max);
     ti_min(size, &low, &q_period, &min);
 
     TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
@@ -196,7 +208,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From d33bc0ab3ebc78a54ed5d44ee7c036049bf4b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 055/136] fix: hfema_stream_new deletes the stream as what it
 is

---
 indicators/hfema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..eaa752c 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -159,7 +159,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From a67cfe09631685d9dff3b5a096f57943f2c2acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 056/136] fix: hfsma_stream_new deletes the stream as what it
 is

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 88c90cf..5d7ab61 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -159,7 +159,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 950e9e9c1dc71ac0cee03daf0c60effc656bb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 057/136] fix: ichi_stream_new deletes the stream as what it is

---
 indicators/ichi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..50ddf7b 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -304,7 +304,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 6f502ef7b9bab678a9baa7c7f1726f61428d8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 058/136] fix: cmi_stream_free deletes the stream as what it is

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 0f7c7eb..814c21e 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -161,7 +161,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
-- 
2.43.0


From b0f2f76de39756c4caac290f5b6294dccd7bf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 059/136] fix: do not leak the stream when evwma_stream_new
 runs out of memory

---
 indicators/evwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From d2e9afa2cc182e023cafb0906c9d4df1b8eb3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 060/136] fix: do not leak the stream when pwma_stream_new runs
 out of memory

---
 indicators/pwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 6930090976c78cb59bebe230bd992f51a8b331ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 061/136] fix: report failed allocations in rmi

---
 indicators/rmi.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 4d1bb50..3cd43e1 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -63,6 +63,11 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) {
+        free(gains);
+        free(losses);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
@@ -120,6 +125,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From f0ae7d22adfe4cc17de41824fffde945bef5dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 062/136] fix: do not leak the stream when swma_stream_new runs
 out of memory

---
 indicators/swma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 066657c9770b9589c02f8dc0f73cbe7a8c658d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 063/136] fix: report failed allocations in ahma

---
 indicators/ahma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 7c36a0cbccbd33da7a0a8ea9b05b3ac4575e596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 064/136] fix: report failed allocations in arsi

---
 indicators/arsi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..f16b9ef 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 2ccd6b40bdda1c0cdcdb1e3dee1a70b9c58758d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 065/136] fix: report failed allocations in er

---
 indicators/er.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From b9c95ee8e2eac24e6486959b6a5fe6778e6bdc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 066/136] fix: report failed allocations in emsd

---
 indicators/emsd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 736dd68..d961ce9 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
-- 
2.43.0


From 4d4cde2840294d59cbeb0512b732a017cd45848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 067/136] fix: report failed allocations in shmma

---
 indicators/shmma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..973e720 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 4745a73e60c032a3589268e3d0e9a5d054132ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 068/136] fix: report failed allocations in dwma

---
 indicators/dwma.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 7281314..395ac67 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *dwma = outputs[0];
@@ -90,6 +90,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-period+1, arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
@@ -130,7 +132,12 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
     
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
@@ -138,6 +145,7 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 0ea18f1cfb1170c5c6485e1919ce7923cd26e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 069/136] fix: report failed allocations in cmi

---
 indicators/cmi.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 814c21e..05e6527 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -18,7 +18,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -87,6 +87,8 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -99,8 +101,13 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    TI_REAL *tr = new(std::nothrow) TI_REAL[size];
+    TI_REAL *sum = new(std::nothrow) TI_REAL[size-(int)period+1];
+    if (!tr || !sum) {
+        delete[] tr;
+        delete[] sum;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
@@ -154,8 +161,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 8871c68a8bf00f4a6971b575221491707649a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 070/136] fix: report failed allocations in edcf

---
 indicators/edcf.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 72244cb..af22c88 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
@@ -79,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     int length = options[0];
 
@@ -94,17 +96,24 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -143,4 +152,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 829000a1b4b0f95a262e0b3b33c30d3431346552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 071/136] fix: report failed allocations in rmf

---
 indicators/rmf.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..45cccf7 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
@@ -84,7 +86,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -105,13 +107,15 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -151,4 +155,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 795de8e0a13aa77ad424e08edbfb8fbc2f977c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 072/136] fix: report failed allocations in frama

---
 indicators/frama.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 6c1adf4..5539121 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
@@ -157,13 +157,15 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -327,4 +329,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 46fa756063b1cbf984192e66021c8939776390c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 073/136] fix: report failed allocations in hf

---
 indicators/hf.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..ace87a3 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,9 +58,11 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -95,6 +97,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
@@ -132,8 +136,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -142,7 +151,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -183,4 +192,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From cdd6ca99abe3a620da331c41b9c3d4bfae26c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 074/136] fix: report failed allocations in hfema

---
 indicators/hfema.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index eaa752c..4287f5d 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -87,11 +87,15 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    TI_REAL *ema = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*k+1];
+    if (!ema || !data) {
+        delete[] ema;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
-
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = ema[i-2*(int)k+j];
@@ -170,7 +174,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -216,4 +220,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From adc73ce8b8e7d79661e792910b4b48b961f6b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 075/136] fix: report failed allocations in hfsma

---
 indicators/hfsma.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 5d7ab61..1d4a2ea 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -83,11 +83,15 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    TI_REAL *sma = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*(int)k+1];
+    if (!sma || !data) {
+        delete[] sma;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
-
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = sma[i-2*(int)k+j];
@@ -170,7 +174,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -222,4 +226,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 9721f0acaba70c66ca19c3e625c3d988a9cd7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 076/136] fix: report failed allocations in ehma

---
 indicators/ehma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..ad4ad7e 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -83,6 +83,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ti_ema(size, arr_, &n05, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
-- 
2.43.0


From 4115fc5bdd0769e028db05ffc32bfc51e6545655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 077/136] fix: report failed allocations in ichi

---
 indicators/ichi.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 50ddf7b..5d0b4f7 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -197,12 +197,21 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         return TI_INVALID_OPTION;
     }
 
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    TI_REAL *hh9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh52 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll52 = new(std::nothrow) TI_REAL[size];
+    if (!hh9 || !ll9 || !hh26 || !ll26 || !hh52 || !ll52) {
+        delete[] hh9;
+        delete[] ll9;
+        delete[] hh26;
+        delete[] ll26;
+        delete[] hh52;
+        delete[] ll52;
+        return TI_OUT_OF_MEMORY;
+    }
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
-- 
2.43.0


From 47cb8f18715f2eb36afbecd08d3b7335f0cc5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 078/136] fix: report failed allocations in idwma

---
 indicators/idwma.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..e05f466 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -108,10 +110,20 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
+    try {
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
-- 
2.43.0


From f9c4d025163c1c5743279330d613e5f395c6811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 079/136] fix: report failed allocations in lma

---
 indicators/lma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index d8dea6e..1d3571f 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     TI_REAL *lma = outputs[0];
@@ -76,6 +76,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
-- 
2.43.0


From f01f0cb3f23f536f9b2081c55e259a3a1ab006a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 080/136] fix: report failed allocations in mesastoch

---
 indicators/mesastoch.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..db9f7ea 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -101,7 +101,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -167,6 +167,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
-- 
2.43.0


From 3849e70144f6f6e8598a22933fa2f4ee0515543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 081/136] fix: report failed allocations in mhlma

---
 indicators/mhlma.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 32fa952..d30e5ee 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -19,7 +19,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -123,6 +123,8 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -134,7 +136,13 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    TI_REAL *mhl = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ema_buf = new(std::nothrow) TI_REAL[size];
+    if (!mhl || !ema_buf) {
+        delete[] mhl;
+        delete[] ema_buf;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -142,8 +150,6 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
-
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
     ti_ema(size, &mhl, &ma_period, &ema_buf);
@@ -198,8 +204,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From f57d412250472f1c6e7f40380a67cd4fe308b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 082/136] fix: report failed allocations in t3

---
 indicators/t3.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..38a5264 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -112,6 +112,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
-- 
2.43.0


From ae875b5845ce8fa3463fce3ac3a09146596f15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 083/136] fix: report failed allocations in vi

---
 indicators/vi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 1e5a4e5..18ccc2e 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -54,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -101,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
-- 
2.43.0


From 21bd4a13f68a46063ed7f6c9f14d9948b385c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 084/136] fix: report failed allocations in kst

---
 indicators/kst.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 7211fe8..628d6e0 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -136,9 +136,16 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
-        ti_roc(size, &series, roc + i, roc_mem + i);
-
         ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (int j = 0; j <= i; ++j) {
+                free(roc_mem[j]);
+                free(ema_mem[j]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
+
+        ti_roc(size, &series, roc + i, roc_mem + i);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
-- 
2.43.0


From 3702ff97fbe7609d7d2728ae002c243be9f50f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 085/136] fix: report failed allocations in tsi

---
 indicators/tsi.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..dee2a30 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -69,9 +69,14 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum) { return TI_OUT_OF_MEMORY; }
     ti_mom(size, &series, &_one, &momentum);
 
     TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!absmomentum) {
+        free(momentum);
+        return TI_OUT_OF_MEMORY;
+    }
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
-- 
2.43.0


From dc173b11053ee0877d3c924398f7ea67e50712b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 086/136] fix: report failed allocations in vwap

---
 indicators/vwap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 7195c76..b004937 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -63,6 +63,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From 8c43a22a045096c558aee4835837f5a335284794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 087/136] fix: report failed allocations in mama

---
 indicators/mama.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..fa0f882 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -119,6 +119,24 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *phase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
+    if (!smooth || !detrender || !I1 || !Q1 || !jI || !jQ || !I2 || !Q2 || !Re || !Im || !period || !smoothperiod || !phase || !deltaphase || !alpha) {
+        free(smooth);
+        free(detrender);
+        free(I1);
+        free(Q1);
+        free(jI);
+        free(jQ);
+        free(I2);
+        free(Q2);
+        free(Re);
+        free(Im);
+        free(period);
+        free(smoothperiod);
+        free(phase);
+        free(deltaphase);
+        free(alpha);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
-- 
2.43.0


From fd6dc8db0f5fcde8e3e0b255051c58dd68b1ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 088/136] fix: report failed allocations in vi

---
 indicators/vi.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 18ccc2e..a4f574c 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -126,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -141,13 +141,15 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -222,5 +224,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 4f6e9b9c5c6f5462a34299162707496188baf431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 089/136] fix: vi_ref of a market without movement

---
 indicators/vi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index a4f574c..4f9cc12 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -88,16 +88,16 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
         vm_m_period[period] += vm_m[k];
         TR_period[period] += TR[k];
  
-        vi_p[0] = vm_p_period[period] / TR_period[period];
-        vi_m[0] = vm_m_period[period] / TR_period[period];
+        vi_p[0] = vm_p_period[period] ? vm_p_period[period] / TR_period[period] : 0;
+        vi_m[0] = vm_m_period[period] ? vm_m_period[period] / TR_period[period] : 0;
     }
     for (int i = period + 1; i < size; i++) {
         vm_p_period[i] = vm_p_period[i - 1] - vm_p[i - period] + vm_p[i];
         vm_m_period[i] = vm_m_period[i - 1] - vm_m[i - period] + vm_m[i];
         TR_period[i] = TR_period[i - 1] - TR[i - period] + TR[i];
 
-        vi_p[i - period] = vm_p_period[i] / TR_period[i];
-        vi_m[i - period] = vm_m_period[i] / TR_period[i];
+        vi_p[i - period] = vm_p_period[i] ? vm_p_period[i] / TR_period[i] : 0;
+        vi_m[i - period] = vm_m_period[i] ? vm_m_period[i] / TR_period[i] : 0;
     }
     
     return TI_OKAY;
-- 
2.43.0


From c2d2a37ff6f213a201337d617ff48d82dd0cfe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 090/136] fix: smi_ref of a short series, and of one without
 range

---
 indicators/smi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index a3011fa..090ea36 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -129,6 +129,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_max_start(&q_period);
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
@@ -164,7 +166,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &den, &s_period, &den);
 
     for (int i = 0; i < outsize; ++i) {
-        smi[i] = 100. * num[i] / (0.5 * den[i]);
+        smi[i] = den[i] ? 100. * num[i] / (0.5 * den[i]) : 0;
     }
 
     free(max);
-- 
2.43.0


From 5d9cebf40ee612c486caa53244cfdf79a9718fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 091/136] fix: rmi_ref of a short series, and of one without
 gains

---
 indicators/rmi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 3cd43e1..879c59d 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -60,6 +60,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
+
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
@@ -79,7 +81,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *inputs_[] = {gains, losses};
     ti_add(size-start, inputs_, 0, &losses);
     for (int i = 0; i < size-start; ++i) {
-        *rmi++ = gains[i] / losses[i] * 100.;
+        *rmi++ = gains[i] ? gains[i] / losses[i] * 100. : 0;
     }
 
     free(gains);
-- 
2.43.0


From eff9008f6f901bfe76add47065f8b17cdb228698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 092/136] fix: tsi_ref of a short series, and of one without
 movement

---
 indicators/tsi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index dee2a30..c0ccf5f 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -66,6 +66,8 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
+
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
@@ -86,7 +88,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &absmomentum, &z_period, &absmomentum);
 
     for (int i = 0; i < outsize; ++i) {
-        *tsi++ = 100. * momentum[i] / absmomentum[i];
+        *tsi++ = 100. * (absmomentum[i] ? momentum[i] / absmomentum[i] : 0);
     }
 
     free(momentum);
-- 
2.43.0


From 18cc9b52c3b407f35fafa6bfb4d27b49dece26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 093/136] fix: posc_ref of a market without range

---
 indicators/posc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 07a2093..48eb2cf 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -122,7 +122,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             }
         }
 
-        posc[i-start] = (close[i] - the_min) / (the_max - the_min) * 100.;
+        posc[i-start] = (close[i] - the_min) ? (close[i] - the_min) / (the_max - the_min) * 100. : 0;
     }
     ti_ema(size-start, &posc, &ema_period, &posc);
 
-- 
2.43.0


From 8ff0bce6ca02382be9bb873c701394b0dd59ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 094/136] fix: mesastoch_ref of a short series, and of one
 without range

---
 indicators/mesastoch.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index db9f7ea..27a697f 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -109,6 +109,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_mesastoch_start(options)) { return TI_OKAY; }
 
     std::deque<TI_REAL> filt(period);
     std::deque<TI_REAL> HP(3);
@@ -160,7 +161,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         highestC = *std::max_element(filt.begin(), filt.end());
         lowestC = *std::min_element(filt.begin(), filt.end());
 
-        stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
+        stoc[0] = (filt[0] - lowestC) ? (filt[0] - lowestC) / (highestC - lowestC) : 0;
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
 
         *mesastoch++ = result[0];
-- 
2.43.0


From a6190da095a7780069007b7106f561c6fa0db66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 095/136] fix: mesastoch with periods below 3 read the filter
 two bars back outside its buffer

---
 indicators/mesastoch.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 27a697f..f18b93d 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3)); // the filter looks two bars back
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -111,7 +111,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_mesastoch_start(options)) { return TI_OKAY; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -158,8 +158,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) ? (filt[0] - lowestC) / (highestC - lowestC) : 0;
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
@@ -228,7 +228,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 75499f24befe018ee9bd000aee6a787f9fe941c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 096/136] fix: evwma_ref truncated the volume, and divided by
 no volume

---
 indicators/evwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index abb83ed..c104233 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -71,9 +71,9 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, TI_REAL(0));
 
-        filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
 
         *evwma++ = filt;
     }
-- 
2.43.0


From b72e26844ab46e9f1591aa9236cd26b3eb2cfba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 097/136] fix: abands_ref of bars at zero

---
 indicators/abands.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e0fdedb..ca97eb1 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -99,9 +99,9 @@ int ti_abands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
         TI_REAL mid = 0;
         TI_REAL lower = 0;
         for (int j = i-period+1; j <= i; ++j) {
-            upper += (high[j] * (1. + 2. * ((((high[j] - low[j]) / ((high[j] + low[j]) / 2.)) * 1000.) * .001))) / period;
+            upper += (high[j] * (1. + 2. * (((high[j] + low[j] > 0 ? (high[j] - low[j]) / ((high[j] + low[j]) / 2.) : 0) * 1000.) * .001))) / period;
             mid += close[j] / period;
-            lower += (low[j] * (1. - 2. * ((((high[j] - low[j]) / ((high[j] + low[j]) / 2.)) * 1000.) * .001))) / period;
+            lower += (low[j] * (1. - 2. * (((high[j] + low[j] > 0 ? (high[j] - low[j]) / ((high[j] + low[j]) / 2.) : 0) * 1000.) * .001))) / period;
         }
         *upper_band++ = upper;
         *middle_point++ = mid;
-- 
2.43.0


From c9064d76e872406e19414bff4ecc626c5c23f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 098/136] fix: ehma_ref truncated the periods of its averages

---
 indicators/ehma.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index ad4ad7e..987f572 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,23 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
-
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    /* ti_ema takes whole periods only */
+    auto ema = [size](TI_REAL const *input, TI_REAL period, TI_REAL *output) {
+        TI_REAL val = size > 0 ? input[0] : 0;
+        for (int i = 0; i < size; ++i) {
+            val = (input[i] - val) * 2. / (period + 1.) + val;
+            output[i] = val;
+        }
+    };
+
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
 } catch (std::bad_alloc& e) {
-- 
2.43.0


From 1c9697a9e78d5001ce588b6ca9d4281beeea60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 099/136] fix: copp_ref of prices of zero

---
 indicators/copp.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index e68726b..0e40b09 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -108,7 +108,9 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_roc(size, &series, &options[1], &roc_long);
 
     for (int i = 0; i < roc_long_len; ++i) {
-        interm[i] = (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.;
+        interm[i] = series[i] && series[i+(roc_short_len-roc_long_len)]
+            ? (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.
+            : 0.;
     }
 
     ti_wma(roc_long_len, &interm, &options[2], &copp);
-- 
2.43.0


From e6e95f0edc4a3b08b7607a27ea461e607d4b436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 100/136] fix: kst was not a number for the rest of the series
 after a price of zero

---
 indicators/kst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 628d6e0..b2910f6 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -66,7 +66,7 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL per4 = 2. / (ma4 + 1);
     TI_REAL per_signal = 2. / (9. + 1.);
 
-    #define ROC(idx, period) ((series[idx] - series[idx-period]) / series[idx-period])
+    #define ROC(idx, period) (series[idx-period] ? (series[idx] - series[idx-period]) / series[idx-period] : 0)
 
     TI_REAL _1 = ROC(roc1, roc1);
     TI_REAL _2 = ROC(roc2, roc2);
-- 
2.43.0


From a57833fb3760393ccc02c10565cc96416ada4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 101/136] fix: the extremes of a ring buffer of two ignored the
 period and the comparison

---
 utils/ringbuf.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/ringbuf.hh b/utils/ringbuf.hh
index 955eddb..c63f5f2 100644
--- a/utils/ringbuf.hh
+++ b/utils/ringbuf.hh
@@ -105,12 +105,15 @@ struct ringbuf<2> {
 
     template<class Cmp = std::less<TI_REAL>>
     TI_REAL* find_max(int period) {
-        if (a1 >= a2) { return &a1; }
-        else { return &a2; }
+        assert(period <= 2);
+        assert(period > 0);
+
+        Cmp cmp;
+        if (period > 1 && cmp(a1, a2)) { return &a2; }
+        else { return &a1; }
     }
     TI_REAL* find_min(int period) {
-        if (a1 <= a2) { return &a1; }
-        else { return &a2; }
+        return find_max<std::greater<TI_REAL>>(period);
     }
 
     TI_REAL* phbegin() { return &a1; }
-- 
2.43.0


From 488ae88e9c84a78370d6a9ea9e25ededeeb739d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 102/136] fix: the Python binding failed for series shorter
 than the warm-up

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..9f14321 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -103,7 +103,7 @@ class _Indicator:
             options[idx] = option
 
         insize = len(inputs_lst[0])
-        start_amount = self.__start(options)
+        start_amount = min(max(self.__start(options), 0), insize)
         outsize = insize - start_amount
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
-- 
2.43.0


From 8c27ad773bd7474ca2f445edd5526a40dd82358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 103/136] fix: the Python binding took zeros for the missing
 end of a shorter input

---
 bindings/python/tindicators/impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index 9f14321..a2a235b 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -103,6 +103,8 @@ class _Indicator:
             options[idx] = option
 
         insize = len(inputs_lst[0])
+        if any(len(inp) != insize for inp in inputs_lst):
+            raise ValueError(f'{self.info.name}: inputs must be of the same length')
         start_amount = min(max(self.__start(options), 0), insize)
         outsize = insize - start_amount
 
-- 
2.43.0


From 01a59a2ef8ec032a122802d7e36974f1a0044129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 104/136] fix: the Python binding ignored surplus and unknown
 arguments

---
 bindings/python/tindicators/impl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index a2a235b..b8c1124 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -95,6 +95,13 @@ class _Indicator:
             f"Outputs:  \t{' '.join(self.info.outputs)}"))
 
     def __call__(self, *args, pad=True, **kwargs):
+        names = self.info.inputs + self.info.options
+        if len(args) > len(names):
+            raise TypeError(f'{self.info.name}: takes {len(names)} arguments but {len(args)} were given')
+        for name in kwargs:
+            if name not in names[len(args):]:
+                raise TypeError(f'{self.info.name}: unexpected or repeated argument {name}')
+
         inputs_lst = self.__parse(args, kwargs, 0, self.info.inputs)
         options_lst = self.__parse(args, kwargs, len(self.info.inputs), self.info.options)
 
-- 
2.43.0


From 03c4d0a03516b1dd24ae97e2e711e6ca11465dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 105/136] fix: the Python binding failed for options printed
 with an exponent

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index b8c1124..cff0751 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -148,7 +148,7 @@ class _Indicator:
         return result if len(self.info.outputs) > 1 else result[0]
 
     def __construct_elaborated_name(self, name, options_lst):
-        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm') for opt in [''] + options_lst)
+        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm').replace('+', '') for opt in [''] + options_lst)
 
     def __parse(self, args, kwargs, offset, names):
         size = len(names)
-- 
2.43.0


From 57d616c74dd95f4db1b407dcae51bf29675ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 106/136] fix: codegen failed, or added the text of another
 indicator, when an implementation file was missing

---
 codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.py b/codegen.py
index 39efcd4..0d6d9f0 100644
--- a/codegen.py
+++ b/codegen.py
@@ -359,6 +359,7 @@ for indicator in indicators.items():
     ]
 
     path = file_path_c if args.old else file_path_cc
+    tbd = []
     if not os.path.exists(file_path_c) and not os.path.exists(file_path_cc):
         with open(path, 'w') as f:
             print(f'codegen.py: indicators/{os.path.basename(path)}')
-- 
2.43.0


From 980db8cd1cc01ffe3d86daae619d598826e4166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 107/136] fix: codegen --old could not add an entry point to a
 .cc file

---
 codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.py b/codegen.py
index 0d6d9f0..74198d0 100644
--- a/codegen.py
+++ b/codegen.py
@@ -415,8 +415,8 @@ for indicator in indicators.items():
             with open(path, 'w') as f:
                 f.writelines(lines)              
  
-        with open(path, 'r') as f:
-            lines = f.readlines()
+        if not os.path.exists(path):
+            path = file_path_cc
         with open(path, 'a') as f:
             print(f'codegen.py: adding{" ref" if should_add_ref else ""}{" stream" if should_add_stream else ""} to indicators/{os.path.basename(path)}')
             f.write('\n'.join(['']+tbd))
-- 
2.43.0


From ebf5d4911483f0b4e4544299893db36328a6349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 108/136] fix: frama read before its input for fractional
 periods

---
 indicators/frama.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 5539121..7fbaaf3 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,7 +23,7 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    TI_REAL period = (int)options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
@@ -151,7 +151,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     ptr->index = TI_INDICATOR_FRAMA_INDEX;
     ptr->progress = -ti_frama_start(options);
 
-    ptr->options.period = period;
+    ptr->options.period = (int)period;
     ptr->options.average_period = average_period;
 
     ptr->constants.w = log(2.0 / (1.0 + average_period));
-- 
2.43.0


From 6e57f74717fe14059efd5f1a4d451ec8ee16bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 109/136] fix: idwma_ref read before its input for fractional
 periods

---
 indicators/idwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index e05f466..a9cc7f3 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -51,7 +51,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
-- 
2.43.0


From c9d5cee6dfc5cc4f4b28472815a15d77ac1c2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 110/136] fix: shmma_ref read before its input for fractional
 periods

---
 indicators/shmma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 973e720..5ccf3ff 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -48,7 +48,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *shmma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 33e27bf109868aed2c5f27b9a9988dca54a94026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 111/136] fix: pbands_ref read before its input for fractional
 periods

---
 indicators/pbands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 39f1d2d..5d966eb 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -75,7 +75,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
-- 
2.43.0


From 9d4a76aee54d8352a5f69f5277eec819c447ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 112/136] fix: posc_ref read before its input for fractional
 periods

---
 indicators/posc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 48eb2cf..31aecd3 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -94,8 +94,8 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
-    const TI_REAL ema_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL ema_period = (int)options[1];
     TI_REAL *posc = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 664fdc65e5bf1c1524cd16864697afcace8d85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 113/136] fix: pfe_ref read before its input for fractional
 periods

---
 indicators/pfe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 4b7704f..1bd60ed 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -79,8 +79,8 @@ int ti_pfe(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ema_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL ema_period = (int)options[1];
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 9d35595302b1c139985238c75efde25add5013cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 114/136] fix: pbands overflowed int for periods from 1024 on

---
 indicators/pbands.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 5d966eb..cdd7c56 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -27,8 +27,8 @@ int ti_pbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     TI_REAL max;
     TI_REAL min;
@@ -148,8 +148,8 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
-- 
2.43.0


From 9274d44d0ee6dbf79c919f202bdd4f373b0e43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 115/136] fix: posc overflowed int for periods from 1024 on

---
 indicators/posc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 31aecd3..dcf720f 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -33,8 +33,8 @@ int ti_posc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL xy_sum = 0.;
     TI_REAL ema;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
@@ -173,8 +173,8 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
-- 
2.43.0


From a85af0faed8be73a951c808c5e9bb8d38ed877a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 116/136] fix: rvi overflowed int for periods from 1024 on

---
 indicators/rvi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index d8fa70d..02a2dfb 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -27,8 +27,8 @@ int ti_rvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = stddev_period * (stddev_period + 1) / 2.;
-    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    const TI_REAL x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1) / 6.;
 
     TI_REAL gains_ema = 0.;
     TI_REAL losses_ema = 0.;
@@ -106,8 +106,8 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.gains_ema = 0.;
     ptr->state.losses_ema = 0.;
 
-    ptr->constants.x_sum = stddev_period * (stddev_period + 1) / 2.;
-    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    ptr->constants.x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1) / 6.;
 
     try {
         ptr->state.price.resize(stddev_period+1);
-- 
2.43.0


From 83e3f45f88ef70233ee31ed4b15876fd6a9b2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 117/136] fix: linear regressions overflowed int for periods
 from 46341 on

---
 indicators/trend.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/trend.h b/indicators/trend.h
index b202266..368895c 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -41,13 +41,13 @@
     int i; \
     for (i = 0; i < (period)-1; ++i) { \
         x += i+1; \
-        x2 += (i+1)*(i+1); \
+        x2 += (i+1.)*(i+1); \
         xy += (input)[i] * (i+1); \
         y += (input)[i]; \
     } \
  \
     x += (period); \
-    x2 += (period) * (period); \
+    x2 += (TI_REAL)(period) * (period); \
  \
     /* the line through a single point is level */ \
     const TI_REAL bd = (period) > 1 ? 1.0 / ((period) * x2 - x * x) : 0; \
-- 
2.43.0


From 03da82267314b635bdac0ef962cc160071dd94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 118/136] fix: the weights of shmma, wma, hma and trima
 overflowed int for long periods

---
 indicators/hma.cc   | 2 +-
 indicators/shmma.cc | 4 ++--
 indicators/trima.cc | 4 ++--
 indicators/wma.cc   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index 6393dd3..e5c7aa4 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -32,7 +32,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
     const TI_REAL weights2 = period2 * (period2+1) / 2;
     const TI_REAL weightssqrt = periodsqrt * (periodsqrt+1) / 2;
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 5ccf3ff..fdd22f9 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -36,7 +36,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * series[i-period+1];
@@ -139,7 +139,7 @@ int ti_shmma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * price[period-1];
diff --git a/indicators/trima.cc b/indicators/trima.cc
index c21b693..224827f 100644
--- a/indicators/trima.cc
+++ b/indicators/trima.cc
@@ -30,8 +30,8 @@ int ti_trima(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
      */
 
     TI_REAL weights = 1 / (TI_REAL) ((period%2) ?
-        ((period/2+1) * (period/2+1)):
-        ((period/2+1) * (period/2)));
+        ((period/2+1.) * (period/2+1)):
+        ((period/2+1.) * (period/2)));
 
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers, spans one period back. */
     TI_REAL lead_sum = 0; /* Flat sum of most recent numbers. */
diff --git a/indicators/wma.cc b/indicators/wma.cc
index afdd0fb..c6635c1 100644
--- a/indicators/wma.cc
+++ b/indicators/wma.cc
@@ -25,7 +25,7 @@ int ti_wma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
      * 1 2 3 4 5 6
      */
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers. */
-- 
2.43.0


From d56765ff71fb96caa95327de49bf95275812853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 119/136] fix: pc read its extremes' positions before they were
 set for period 1

---
 indicators/pc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/pc.cc b/indicators/pc.cc
index ddb92a3..e985a01 100644
--- a/indicators/pc.cc
+++ b/indicators/pc.cc
@@ -28,8 +28,8 @@ int ti_pc (int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     TI_REAL max = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL min = std::numeric_limits<TI_REAL>::infinity();
-    int max_idx;
-    int min_idx;
+    int max_idx = 0;
+    int min_idx = 0;
 
 
     int i = 0;
-- 
2.43.0


From 4c2aa0786355994b7421563355051ef809e5854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:27 +0000
Subject: [PATCH 120/136] fix: cci of a flat window was the noise of its
 running sum

---
 indicators/cci.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indicators/cci.cc b/indicators/cci.cc
index ecc2cb0..75ded5e 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -45,9 +45,12 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
         if (i >= period * 2 - 2) {
             TI_REAL acc = 0;
+            int flat = 1;
             for (j = 0; j < period; ++j) {
                 acc += fabs(avg - sum->vals[j]);
+                flat = flat && sum->vals[j] == today;
             }
+            if (flat) { acc = 0; }
 
             TI_REAL cci = acc * scale;
             cci *= .015;
-- 
2.43.0


From 4b3f9b4ca3ddf62f43903ff631c253d2698a19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:27 +0000
Subject: [PATCH 121/136] fix: vwma divided by a window without volume

---
 indicators/vwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vwma.cc b/indicators/vwma.cc
index 43b5b63..2ff7aa3 100644
--- a/indicators/vwma.cc
+++ b/indicators/vwma.cc
@@ -33,7 +33,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
     }
 
-    *output++ = sum ? sum / vsum : 0;
+    *output++ = vsum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += input[i] * volume[i];
@@ -41,7 +41,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
         vsum -= volume[i-period];
 
-        *output++ = sum ? sum / vsum : 0;
+        *output++ = vsum ? sum / vsum : 0;
     }
 
     assert(output - outputs[0] == size - ti_vwma_start(options));
-- 
2.43.0


From e6157d9c5ae671c8cd026e0e20290ea0af621fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 122/136] fix: cmi_stream_new did not truncate its period as
 cmi does

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 05e6527..168ed6a 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -148,7 +148,7 @@ struct ti_cmi_stream : ti_stream {
 };
 
 int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From b6cc8c38af52fe975123fddcbea0ead5fc8675fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 123/136] fix: cmi_ref did not truncate its period as cmi does

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 168ed6a..1f46a4a 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -95,7 +95,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 7411258dec56d03229627c41cea811b479e2b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 124/136] fix: dwma_stream_new did not truncate its period as
 dwma does

---
 indicators/dwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 395ac67..546ef52 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -117,7 +117,7 @@ struct ti_dwma_stream : ti_stream {
 };
 
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From b746e3aa52b45e5c4159be3f7284dbaa5ad82de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 125/136] fix: lma_stream_new did not truncate its period as
 lma does

---
 indicators/lma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index 1d3571f..0851462 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -99,7 +99,7 @@ struct ti_lma_stream : ti_stream {
 };
 
 int ti_lma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From 693a8d59bd4576c18eb044db5f524a2c27f35d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 126/136] fix: pbands_stream_new did not truncate its period as
 pbands does

---
 indicators/pbands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index cdd7c56..c301ff5 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -133,7 +133,7 @@ struct ti_pbands_stream : ti_stream {
 };
 
 int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
     ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
-- 
2.43.0


From 14e2b7510f8e9275f5615ca657e022399d369802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 127/136] fix: posc_stream_new did not truncate its periods as
 posc does

---
 indicators/posc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index dcf720f..16eefe9 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -155,8 +155,8 @@ struct ti_posc_stream : ti_stream {
 };
 
 int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
-    const TI_REAL ema_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL ema_period = (int)options[1];
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From b74a61511d6ad9f7a6c821cfee7335d763cdedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 128/136] fix: pfe_stream_new did not truncate its ema_period
 as pfe does

---
 indicators/pfe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 1bd60ed..b044951 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -122,8 +122,8 @@ struct ti_pfe_stream : ti_stream {
 };
 
 int ti_pfe_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
-    const TI_REAL ema_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL ema_period = (int)options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 1d0ad68c6cb19a5a9b003ee63b6f73583614ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 129/136] fix: rvi_stream_new did not truncate its periods as
 rvi does

---
 indicators/rvi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 02a2dfb..86a3b1b 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -86,8 +86,8 @@ struct ti_rvi_stream : ti_stream {
 };
 
 int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL ema_period = options[0];
-    const TI_REAL stddev_period = options[1];
+    const TI_REAL ema_period = (int)options[0];
+    const TI_REAL stddev_period = (int)options[1];
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From 0f3664deee4ea0e23f3d4391a40369959f947a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 130/136] fix: vwap_ref did not truncate its period as vwap
 does

---
 indicators/vwap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index b004937..387e569 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -54,7 +54,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 247168550e8db67abf04c6c89b8bc6a61638c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 131/136] fix: ahma_ref did not truncate its period as ahma
 does

---
 indicators/ahma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index be34bf3..6b42407 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -35,7 +35,7 @@ int ti_ahma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_ahma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *ahma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 18edca4d91516186c60357afe30186d5b575230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 132/136] fix: smi never dropped its extremes for fractional
 periods, and smoothed otherwise than smi_ref and its stream

---
 indicators/smi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 090ea36..0b58085 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,9 +21,9 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
-    const TI_REAL r_period = options[1];
-    const TI_REAL s_period = options[2];
+    const TI_REAL q_period = (int)options[0];
+    const TI_REAL r_period = (int)options[1];
+    const TI_REAL s_period = (int)options[2];
     TI_REAL *smi = outputs[0];
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
-- 
2.43.0


From ce054dcd33603d7c383c387b5537655cd5e6f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 133/136] fix: rmi smoothed with the fractional period that
 rmi_ref truncates

---
 indicators/rmi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 879c59d..74b05fc 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -20,8 +20,8 @@ int ti_rmi_start(TI_REAL const *options) {
 
 int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL lookback_period = (int)options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -108,8 +108,8 @@ struct ti_rmi_stream : ti_stream {
 };
 
 int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL lookback_period = (int)options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 69f0487a8e6d10b3edf22499c27908452db75b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 134/136] fix: tsi smoothed with the fractional periods that
 tsi_ref truncates

---
 indicators/tsi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index c0ccf5f..06d91a3 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -14,8 +14,8 @@ int ti_tsi_start(TI_REAL const *options) {
 
 int ti_tsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL y_period = options[0];
-    const TI_REAL z_period = options[1];
+    const TI_REAL y_period = (int)options[0];
+    const TI_REAL z_period = (int)options[1];
     TI_REAL *tsi = outputs[0];
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
@@ -114,8 +114,8 @@ struct ti_tsi_stream : ti_stream {
 };
 
 int ti_tsi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL y_period = options[0];
-    const TI_REAL z_period = options[1];
+    const TI_REAL y_period = (int)options[0];
+    const TI_REAL z_period = (int)options[1];
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
     ti_tsi_stream *ptr = new(std::nothrow) ti_tsi_stream();
-- 
2.43.0


From 310cd70f940cfebbdefea50a075b791fbfdfa2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 135/136] fix: fi smoothed with the fractional period that
 fi_ref truncates

---
 indicators/fi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/fi.cc b/indicators/fi.cc
index 7405d34..b69e7e1 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -17,7 +17,7 @@ int ti_fi_start(TI_REAL const *options) {
 int ti_fi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *close = inputs[0];
     TI_REAL const *volume = inputs[1];
-    TI_REAL const period = options[0];
+    TI_REAL const period = (int)options[0];
     TI_REAL *fi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -61,7 +61,7 @@ struct ti_fi_stream : ti_stream {
 };
 
 int ti_fi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    TI_REAL const period = options[0];
+    TI_REAL const period = (int)options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
     ti_fi_stream *ptr = new(std::nothrow) ti_fi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
-- 
2.43.0


From 84e7627878253f5d88f18c40435f73fa9149bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 136/136] fix: t3 smoothed with the fractional period that
 t3_ref truncates

---
 indicators/t3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index 38a5264..39db44f 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -22,7 +22,7 @@ int ti_t3_start(TI_REAL const *options) {
 
 int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL v = options[1];
     TI_REAL *t3 = outputs[0];
 
@@ -143,7 +143,7 @@ struct ti_t3_stream : ti_stream {
 };
 
 int ti_t3_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL v = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0

