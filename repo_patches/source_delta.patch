From 10993881af39fb89f01804ae22b766e19e0c8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 01/55] fix: Serie::pipe with a single operation passed its
 arguments in the wrong order and did not compile

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..188f8bc 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -54,7 +54,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From 474d65dfa19659ba3832c9b7956343d704458101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 02/55] fix: Serie::operator= did not copy the dimension

---
 src/Serie.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..57244aa 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,6 +59,7 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
-- 
2.43.0


From 2a28e373f4eec01a56dca317d5c6985afd0434e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 03/55] fix: Serie::clone dropped the dimension

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 57244aa..3071e16 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -64,7 +64,7 @@ Serie &Serie::operator=(const Serie &s) {
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
-- 
2.43.0


From 7a32f8424cdf3638eb9872d8a0db72797a0bb476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 04/55] fix: toSerie ignored its dimension argument

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 3071e16..7cad1e2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -143,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From 6bf4a149a5d4df2399a77bb4b8e08c4870a81fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 05/55] fix: Serie::scalar accepted the index one past the end

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7cad1e2..7fc9873 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -96,7 +96,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From f78f2bf5c566085b63099b68884f84f472b4da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 06/55] fix: Serie built from values with an item size of 0
 divided by zero

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7fc9873..d4d594f 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -38,14 +38,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize == 0 ? 0 : values.size() / itemSize;
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize == 0 ? 0 : values.size() / itemSize;
     s_ = Array(values);
 }
 
-- 
2.43.0


From 20a38c1c5cd2b237d6f5ae399654d5b14f97ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 07/55] fix: map over several empty Series called the callback
 with item 0

---
 include/dataframe/functional/map.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..37aea54 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -120,6 +120,11 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        using ResultType = decltype(callback(args.template get<Array>(0)..., 0));
+        if (counts[0] == 0) {
+            return Serie(std::is_arithmetic_v<ResultType> ? 1 : 0, 0);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-- 
2.43.0


From 37ba8282c7802e0e073ff153651bfa9f5c4d3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 08/55] fix: value and get<Array> read past the end for an item
 index out of range

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 188f8bc..52129e1 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of range (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index d4d594f..348383f 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,10 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of range (" + std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
-- 
2.43.0


From 7013349b49533de35c85955c0dc06cf3a697759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 09/55] fix: Serie::clone lost the count of a Serie with item
 size 0

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 348383f..21d5677 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -64,7 +64,7 @@ Serie &Serie::operator=(const Serie &s) {
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
+Serie Serie::clone() const { return Serie(*this); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
-- 
2.43.0


From 00ce9085dc30749c9a9b4288d0bf00abb7b7526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 10/55] fix: norm2 allocated one value and wrote one per item

---
 src/functional/algebra/norm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..7a86a17 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -42,7 +42,7 @@ Serie norm2(const Serie &s) {
         return s.clone();
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From 35d7d4eab9ef0224f3e2d115c8be340654ffc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 11/55] fix: norm2 and norm of a scalar Serie returned the
 value and its square root

---
 src/functional/algebra/norm.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index 7a86a17..b184499 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -38,10 +38,6 @@ Serie norm2(const Serie &s) {
         return Serie();
     }
 
-    if (s.itemSize() == 1) {
-        return s.clone();
-    }
-
     Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
-- 
2.43.0


From e4ed7ab9a70006dfdb7a9947b2eb593142ba53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 12/55] fix: Matrix kept a reference to the array of its
 expired argument

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 82d42b6b58f7db557fe8035d18415728b39614ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 13/55] fix: Vector::norm accumulated in an int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From 656210b25cc101a8973476cd0de195b4554522c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 14/55] fix: inv computed the yz component of a full matrix as
 the zy one

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..4151b6e 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (xz * yx - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From 9f39885703e37389c85ee2685bdec2b309ef205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 15/55] fix: quantile and mean read or divided by an empty
 sample

---
 src/functional/stats/mean.cxx     | 3 +++
 src/functional/stats/quantile.cxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/functional/stats/mean.cxx b/src/functional/stats/mean.cxx
index e253d90..3372b1a 100644
--- a/src/functional/stats/mean.cxx
+++ b/src/functional/stats/mean.cxx
@@ -31,6 +31,9 @@ namespace stats {
 
 Tuple mean(const Serie &serie) {
     uint32_t count = serie.count();
+    if (count == 0) {
+        throw std::invalid_argument("mean: serie is empty");
+    }
     Tuple m;
     if (serie.itemSize() == 1) {
         m.isNumber = true;
diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..7019b05 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,6 +39,9 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile algorithm: serie is empty");
+    }
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
-- 
2.43.0


From 3a553bca8d0cdbb4cc939a7e7a96d86a7c0f2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 16/55] fix: dot read past the items of series of other counts
 or item sizes

---
 src/functional/algebra/dot.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..76a85e8 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,11 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.count() != b.count() || a.itemSize() != b.itemSize()) {
+        throw std::invalid_argument(
+            "dot: series must have same itemSize and count");
+    }
+
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
-- 
2.43.0


From 35720fcd014dd26d2cf3436b5fbbe6152a8b726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 17/55] fix: dot of an empty Serie and an array read its first
 item

---
 src/functional/algebra/dot.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index 76a85e8..00a9093 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -44,7 +44,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From ed6b2089bead91a610d57269c9b625e5a9072d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 18/55] fix: cross accepted series of different counts

---
 src/functional/algebra/cross.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..3621088 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -40,6 +40,10 @@ Serie cross(const Serie &a, const Serie &b) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
 
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have same count");
+    }
+
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
         return Array{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
-- 
2.43.0


From 674a77492c69eec2c224120179ec7c2b7a79305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 19/55] fix: sort ignored the comparator for a scalar Serie

---
 include/dataframe/functional/utils/sort.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..97e623a 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -40,7 +40,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        if constexpr (std::is_invocable_v<Comparator &, double, double>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            std::sort(values.begin(), values.end(), [&](double a, double b) {
+                return comp(Array{a}, Array{b});
+            });
+        }
         return Serie(1, values);
     } else {
         std::vector<Array> values;
-- 
2.43.0


From 311bb40707718159c0b6b488927e8b202fc59f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 20/55] fix: bins converted values below the range and the
 undefined position to an unsigned integer

---
 src/functional/stats/bins.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..2e9ec0e 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -48,15 +48,13 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
-        if (i >= nb) {
-            i = nb - 1;
-        }
-        if (i < 0 || i >= nb) {
-            throw std::invalid_argument(
-                "bins: index for bin (" + std::to_string(i) +
-                ") out of bounds (0, " + std::to_string(nb) + ")");
+        if (!(v >= start)) {
+            throw std::invalid_argument("bins: value (" + std::to_string(v) +
+                                        ") lower than start (" +
+                                        std::to_string(start) + ")");
         }
+        double pos = std::trunc((v - start) / size);
+        uint32_t i = pos >= nb ? nb - 1 : pos > 0 ? uint32_t(pos) : 0;
         b[i]++;
     });
 
-- 
2.43.0


From 5ae1eeb49c82427abb2ce1557437cc4feec237cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 21/55] fix: bins read the bounds of an empty Serie

---
 src/functional/stats/bins.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 2e9ec0e..0b2cf4f 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -30,6 +30,9 @@ namespace df {
 namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
+    if (serie.count() == 0) {
+        throw std::invalid_argument("bins: serie is empty");
+    }
     auto [min, max] = math::minMax(serie);
     return bins(serie, nb, min[0], max[0]);
 }
-- 
2.43.0


From 63a944ae312516baba8bd8d6b93552e3fd332635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 22/55] fix: geo::areas passed its arguments to div in the
 wrong order and always threw

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 9c9cfdf410430f908b4e349a95cac69d0c46d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 23/55] fix: Decomposer had no virtual destructor while the
 Manager deletes through it

---
 include/dataframe/attributes/Decomposer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
-- 
2.43.0


From 79df55818f95346c6734957b5ad04759efa2b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 24/55] fix: Manager::clear leaked its decomposers

---
 src/attributes/Manager.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..7c04451 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -53,6 +53,9 @@ namespace df
 
     void Manager::clear()
     {
+        for (auto d : ds_) {
+            delete d;
+        }
         ds_.clear();
     }
 
-- 
2.43.0


From a5a875c070ab9081ba66962ce85a609db7b0f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 25/55] fix: UserDefinedDecomposer kept a reference to its
 callback argument

---
 include/dataframe/attributes/UserDefinedDecomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..850c7f7 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,13 +41,13 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        mutable std::decay_t<F> cb_;
     };
 
     // ------------------------------------------------------------
 
     template <typename F>
-    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::move(cb))
+    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::forward<F>(cb))
     {
     }
 
-- 
2.43.0


From acff6665694b1490064e91d5c31e27e2b4d0b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 26/55] fix: variadic sub was declared as add and collided with
 it

---
 include/dataframe/functional/math/sub.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..bcc420e 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -54,18 +54,9 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
-
-    Serie result = Serie(first.itemSize(), first.count());
+template <typename... Series>
+Serie sub(const Serie &first, const Serie &second, const Series &...series) {
+    Serie result = sub(first, second);
     ((result = sub(result, series)), ...);
     return result;
 }
-- 
2.43.0


From 7d0e6eb8aa8ff658e8c2d0e0b45aa1c4519986b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 27/55] fix: EigenValues read the rank of a name as a character
 code

---
 src/attributes/EigenValues.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..58e405c 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -53,9 +53,12 @@ namespace df
         if (itemSize != 1) {
             return Serie();
         }
+        if (name.empty()) {
+            return Serie();
+        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
-- 
2.43.0


From 137661fb8913afc29fa5c16a4cd1a632ee3ac37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 28/55] fix: EigenVectors read the rank of a name as a
 character code

---
 src/attributes/EigenVectors.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..9381138 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -53,9 +53,12 @@ namespace df
         if (itemSize != 3) {
             return Serie();
         }
+        if (name.empty()) {
+            return Serie();
+        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
-- 
2.43.0


From d2eaf56038e3733ece27f33f296d0eb9e3192e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 29/55] fix: EigenVectors returned one component instead of the
 eigen vector

---
 src/attributes/EigenVectors.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 9381138..901be8e 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -50,7 +50,7 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
+        if (itemSize != 2 && itemSize != 3) {
             return Serie();
         }
         if (name.empty()) {
@@ -60,7 +60,7 @@ namespace df
         const Serie& serie = dataframe[newName];
         uint id = name[name.size() - 1] - '0';
 
-        if (serie.isValid() == false) {
+        if (serie.isValid() == false || serie.dimension() != itemSize) {
             return Serie();
         }
 
@@ -80,8 +80,8 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            return Array(item.begin() + (id-1) * itemSize, item.begin() + id * itemSize);
         });
     }
 
-- 
2.43.0


From b7d4381383d3c0eb8a3ab8f3c38ab2c2c706cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 30/55] fix: eigenValues and eigenVectors read past the items
 of series of other dimensions

---
 src/functional/algebra/eigen.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..5d4ad21 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -29,6 +29,10 @@ namespace algebra {
 void symmetricEigen(const double *, int, double *, double *);
 
 Serie eigenValues(const Serie &serie) {
+    if (serie.dimension() != 2 && serie.dimension() != 3) {
+        throw std::runtime_error(
+            "Inconsistent serie dimension (should be 2 or 3)");
+    }
     if (serie.dimension() == 2 && serie.itemSize() != 3) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
@@ -68,6 +72,10 @@ Serie eigenValues(const Serie &serie) {
 }
 
 Serie eigenVectors(const Serie &serie) {
+    if (serie.dimension() != 2 && serie.dimension() != 3) {
+        throw std::runtime_error(
+            "Inconsistent serie dimension (should be 2 or 3)");
+    }
     if (serie.dimension() == 2 && serie.itemSize() != 3) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
-- 
2.43.0


From 7f7b6ac399d37e316e0be2cfc988c87b8b30c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 31/55] fix: Normals, Area and Valence were listed without
 positions or without indices

---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..50010e0 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..2e9ad69 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..2334007 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
-- 
2.43.0


From 0d9a59429ceb39c1d8e425eb731d637d9a67b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 32/55] fix: Valence wrote out of bounds for vertices that do
 not exist

---
 src/attributes/Valence.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 2334007..ad95280 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -54,16 +54,19 @@ namespace df
 
         const Serie& positions = dataframe["positions"];
         const Serie& indices = dataframe["indices"];
-        if (!positions.isValid() || !indices.isValid()) {
+        if (!positions.isValid() || !indices.isValid() || indices.itemSize() != 3) {
             return Serie();
         }
 
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
-            ids[t[0]]++;
-            ids[t[1]]++;
-            ids[t[2]]++;
+            for (double id : t) {
+                if (!(id >= 0 && id < ids.size())) {
+                    throw std::invalid_argument("Valence: vertex index out of range");
+                }
+                ids[id]++;
+            }
         });
 
         return Serie(1, ids);
-- 
2.43.0


From fab358684f39bd3112e791ccd4bdb02491a496f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 33/55] fix: Coordinates read names and components that do not
 exist

---
 src/attributes/Coordinates.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..d1fe050 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -46,7 +46,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
-- 
2.43.0


From bb6c03ca11b72f8c320a16059548aef0c42fe80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 34/55] fix: Components resolved names of other item sizes and
 read past the items

---
 src/attributes/Components.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..4f32ec5 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -113,7 +113,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
 
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < vector2Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == vector2Names.size() && i < vector2Names.size(); ++i) {
                 if (name == newName + vector2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
@@ -121,7 +121,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
                 }
             }
         } else {
-            for (uint32_t i = 0; i < vector3Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == vector3Names.size() && i < vector3Names.size(); ++i) {
                 if (name == newName + vector3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
@@ -136,14 +136,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     serie = dataframe[newName];
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == smatrix2Names.size() && i < smatrix2Names.size(); ++i) {
                 if (name == newName + smatrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
-            for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == matrix2Names.size() && i < matrix2Names.size(); ++i) {
                 if (name == newName + matrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
@@ -151,14 +151,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
                 }
             }
         } else {
-            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == smatrix3Names.size() && i < smatrix3Names.size(); ++i) {
                 if (name == newName + smatrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
-            for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
+            for (uint32_t i = 0; serie.itemSize() == matrix3Names.size() && i < matrix3Names.size(); ++i) {
                 if (name == newName + matrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
-- 
2.43.0


From b2ab8ba2b2433caee591c475f3ab105464983f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 35/55] fix: header functions that are not templates were not
 inline

---
 include/dataframe/functional/geo/cartesian_grid.h | 2 +-
 include/dataframe/functional/merge.h              | 2 +-
 include/dataframe/functional/utils/concat.h       | 2 +-
 include/dataframe/functional/utils/partition_n.h  | 2 +-
 include/dataframe/functional/utils/unzip.h        | 2 +-
 include/dataframe/functional/utils/zip.h          | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/geo/cartesian_grid.h b/include/dataframe/functional/geo/cartesian_grid.h
index 9073fca..bd4e657 100644
--- a/include/dataframe/functional/geo/cartesian_grid.h
+++ b/include/dataframe/functional/geo/cartesian_grid.h
@@ -110,7 +110,7 @@ inline Serie from_dims(const std::vector<uint32_t> &npts,
  * auto cube = df::grid::cartesian::from_points({3,3,3}, {0,0,0}, {1,1,1});
  * ```
  */
-Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
+inline Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
                             const Array &p2) {
     if (npts.empty() || npts.size() > 3) {
         throw std::invalid_argument("npts must have 1, 2 or 3 components");
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index f7512f2..28a894f 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -32,7 +32,7 @@ namespace df {
 /**
  * If concatenate is false, interleave is used to merge the series
  */
-Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
+inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     if (s1.itemSize() != s2.itemSize()) {
         throw std::invalid_argument("Series must have same itemSize");
     }
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..42ef753 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -33,7 +33,7 @@ namespace utils {
 /**
  * Concatenate 2 or more series
  */
-Serie concat(const std::vector<Serie> &series) {
+inline Serie concat(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("concat requires at least one Serie");
     }
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..ad08f53 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -41,7 +41,7 @@ namespace utils {
  *  // parts[2]: {8,9,10}
  * ```
  */
-Series partition_n(uint32_t n, const Serie &serie) {
+inline Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..076f398 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -35,7 +35,7 @@ namespace utils {
  * @param itemSizes Vector containing the itemSize for each output Serie
  * @return Series The unzipped Series
  */
-Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
+inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
     if (itemSizes.empty()) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 55e5f07..b38cd41 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -108,7 +108,7 @@ MAKE_OP(zip);
  * auto result = zipVector(series);
  * ```
  */
-Serie zipVector(const std::vector<Serie> &series) {
+inline Serie zipVector(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("zipVector requires at least one Serie");
     }
-- 
2.43.0


From 762057af99c1f397bf0594a9406abfb83d83053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 36/55] fix: partition_n into zero parts divided by zero

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index ad08f53..c151e42 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 inline Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 67542e645742e5ef97fe5551079e2a7743bb191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 37/55] fix: parallel_execute used concat without including it

---
 include/dataframe/functional/utils/parallel_execute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..9721bd5 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
-- 
2.43.0


From 1b61d110cdac030c1afcbf374a8152b589ee053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 38/55] fix: dot.h declared the reusable form of det instead of
 dot

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From 95c78e6cf4158b76ecfc5868d7a32d5fcd792111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 39/55] fix: add of an empty list read its first Serie

---
 src/functional/math/add.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/math/add.cxx b/src/functional/math/add.cxx
index 01b8b53..08c89a3 100644
--- a/src/functional/math/add.cxx
+++ b/src/functional/math/add.cxx
@@ -28,6 +28,9 @@ namespace math {
 
 Serie add(const std::initializer_list<Serie> &list) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument("(add) At least one Serie is required");
+    }
 
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
-- 
2.43.0


From ffc567b49431dea0a521836af3ebc8500b1bbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 40/55] fix: sub of an empty list read its first Serie

---
 src/functional/math/sub.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/math/sub.cxx b/src/functional/math/sub.cxx
index cbdf0ab..c79d50e 100644
--- a/src/functional/math/sub.cxx
+++ b/src/functional/math/sub.cxx
@@ -28,6 +28,9 @@ namespace math {
 
 Serie sub(const std::initializer_list<Serie> &list) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument("(sub) At least one Serie is required");
+    }
 
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
-- 
2.43.0


From 87f27d4e5dce9e291596457d680883fd475f2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 41/55] fix: weigthedSum of an empty list read its first Serie

---
 src/functional/math/weightedSum.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/math/weightedSum.cxx b/src/functional/math/weightedSum.cxx
index 80ad145..3665477 100644
--- a/src/functional/math/weightedSum.cxx
+++ b/src/functional/math/weightedSum.cxx
@@ -29,6 +29,10 @@ namespace math {
 Serie weigthedSum(const std::initializer_list<Serie> &list,
                   const Array &weights) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument(
+            "(weightedSum) At least one Serie is required");
+    }
 
     if (series.size() != weights.size()) {
         throw std::invalid_argument("(weightedSum) Number of series (" +
-- 
2.43.0


From 76f986b5613feeabfd392269411dbb8a7891c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 42/55] fix: minMax of a scalar Serie ignored infinite values

---
 src/functional/math/minMax.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functional/math/minMax.cxx b/src/functional/math/minMax.cxx
index 8804042..c692b87 100644
--- a/src/functional/math/minMax.cxx
+++ b/src/functional/math/minMax.cxx
@@ -37,8 +37,8 @@ MinMax minMax(const Serie &serie) {
 
     if (serie.itemSize() == 1) {
         // Scalar case
-        double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::lowest();
+        double min = std::numeric_limits<double>::infinity();
+        double max = -std::numeric_limits<double>::infinity();
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             double v = serie.template get<double>(i);
-- 
2.43.0


From e199a5c360758b16c8f9de07cb2a23ab950198b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 43/55] fix: normalize of an empty scalar Serie read its bounds

---
 src/functional/math/normalize.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..1851fd9 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -36,6 +36,9 @@ Serie normalize(const Serie &serie) {
     if (!serie.isValid()) {
         throw std::invalid_argument("Serie is invalid");
     }
+    if (serie.count() == 0) {
+        return serie.clone();
+    }
 
     if (serie.itemSize() == 1) {
         // auto minmax = df::minMax(serie);
-- 
2.43.0


From bb2add8c8ad9a5e9fedd1e761254a87db9b6d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 44/55] fix: approximatelyEquals read past the values of the
 second Serie

---
 include/dataframe/functional/math/equals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/math/equals.h b/include/dataframe/functional/math/equals.h
index 00a883f..df38bb1 100644
--- a/include/dataframe/functional/math/equals.h
+++ b/include/dataframe/functional/math/equals.h
@@ -65,7 +65,7 @@ inline bool approximatelyEquals(const Serie &s1, const Serie &s2,
     const auto &arr2 = s2.asArray();
 
     return std::equal(
-        arr1.begin(), arr1.end(), arr2.begin(),
+        arr1.begin(), arr1.end(), arr2.begin(), arr2.end(),
         [epsilon](double a, double b) { return std::abs(a - b) <= epsilon; });
 }
 
-- 
2.43.0


From 797cb96283bd299716bdf6c399b0099cf040890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 45/55] fix: Memoized confused series that differ by shape,
 undefined values or the sign of zero

---
 include/dataframe/functional/utils/memoize.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..52fade3 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -22,6 +22,8 @@
  */
 #pragma once
 #include <dataframe/Serie.h>
+#include <bit>
+#include <cstdint>
 #include <map>
 #include <utility>
 #include <vector>
@@ -48,17 +50,19 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
     // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.dimension(), s.count()};
         for (uint32_t i = 0; i < s.count(); ++i) {
             if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
+                key.push_back(std::bit_cast<uint64_t>(s.template get<double>(i)));
             } else {
                 const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
+                for (double x : v) {
+                    key.push_back(std::bit_cast<uint64_t>(x));
+                }
             }
         }
         return key;
-- 
2.43.0


From 5b8697bd75e243f826e169068612edf02dc09d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 46/55] fix: operator<< wrote to the standard streams instead
 of its argument

---
 include/dataframe/types.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..fe097c7 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,15 +51,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
+    o << "[";
     if (a.size() > 0) {
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -67,8 +67,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From b0b8f9a9a52952bfeabd9e3dded660b28681a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 47/55] fix: if_then_else did not compile

---
 include/dataframe/functional/conditional/if.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..5506f96 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,7 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include <dataframe/functional/map.h>
 
 namespace df {
 namespace cond {
@@ -55,13 +55,13 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
+    return map([check_fn = std::forward<Check>(check_fn),
                        true_fn = std::forward<True>(true_fn),
                        false_fn = std::forward<False>(false_fn),
                        &serie](const auto &value, uint32_t i) {
         return check_fn(value) ? true_fn(value, i, serie)
                                : false_fn(value, i, serie);
-    });
+    }, serie);
 }
 
 MAKE_OP(if_then_else);
-- 
2.43.0


From 4da6cd6a3cdb0e2e6f3004960e4a4f5fc20f4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 48/55] fix: Serie::dump of a scalar Serie threw

---
 src/Serie.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 21d5677..57d03fb 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -75,13 +75,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
+        for (auto tt : value(i)) {
             std::cerr << tt << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0


From 2e3c20b264d9f65575c1d394533efdf24a4a6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 49/55] fix: Components named and resolved only the first
 component of other item sizes

---
 src/attributes/Components.cxx | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 4f32ec5..b656489 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -94,7 +94,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
         names.push_back(name + std::to_string(i));
     }
 
@@ -169,12 +169,11 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
-            if (name == newName + std::to_string(i)) {
-                return serie.map([i](const Array &item, uint32_t index) {
+    for (auto const &x : dataframe.series()) {
+        Strings list = names(dataframe, itemSize, x.second, x.first);
+        for (uint32_t i = 0; i < list.size(); ++i) {
+            if (name == list[i]) {
+                return x.second.map([i](const Array &item, uint32_t index) {
                     return Array{item[i]};
                 });
             }
-- 
2.43.0


From f0c13f841541ef17ba5766e858f35ec095728386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 50/55] fix: parallel_execute of a Serie without items does
 what the function does on it

---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 9721bd5..ba373cf 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -70,7 +70,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From 1be146f85513fbab850fbd1377ba66861e674af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 51/55] fix: if_then_else only compiled for scalar callbacks

---
 include/dataframe/functional/conditional/if.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index 5506f96..d6774a5 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,6 +22,7 @@
  */
 
 #pragma once
+#include <dataframe/functional/macros.h>
 #include <dataframe/functional/map.h>
 
 namespace df {
@@ -58,7 +59,9 @@ Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
     return map([check_fn = std::forward<Check>(check_fn),
                        true_fn = std::forward<True>(true_fn),
                        false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
+                       &serie](const auto &value, uint32_t i)
+                   -> decltype(check_fn(value) ? true_fn(value, i, serie)
+                                               : false_fn(value, i, serie)) {
         return check_fn(value) ? true_fn(value, i, serie)
                                : false_fn(value, i, serie);
     }, serie);
-- 
2.43.0


From 7adcbcfde508207a4f9003a8572c1defcbf92e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 52/55] fix: EigenValues and EigenVectors listed names for
 series of other dimensions

---
 src/attributes/EigenValues.cxx  | 3 +++
 src/attributes/EigenVectors.cxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 58e405c..c5b625a 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -45,6 +45,9 @@ namespace df
         if (serie.dimension() == 2) {
             return Strings{name + "1", name + "2"};
         }
+        if (serie.dimension() != 3) {
+            return Strings();
+        }
         return Strings{name + "1", name + "2", name + "3"};
     }
 
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 901be8e..9e61e51 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -45,6 +45,9 @@ namespace df
         if (serie.dimension() == 2) {
             return Strings{name + "1", name + "2"};
         }
+        if (serie.dimension() != 3) {
+            return Strings();
+        }
         return Strings{name + "1", name + "2", name + "3"};
     }
 
-- 
2.43.0


From c6c16dd23911c0618c1f3d115f1d133e870741b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 53/55] fix: EigenValues threw for series of other dimensions

---
 src/attributes/EigenValues.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index c5b625a..c274f22 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -75,7 +75,7 @@ namespace df
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.dimension() != 3 || serie.itemSize() != 6) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
-- 
2.43.0


From 3f4060f75cf51a94e55596e8c814ffd92d788a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 54/55] fix: operator<< of a Serie wrote to the standard error
 stream instead of its argument (and read outside a Serie whose items are
 empty)

---
 include/dataframe/inline/Serie.hxx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 52129e1..a10b441 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
-    if (s.count() > 0) {
-        std::cerr << "  values   : [";
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
+    if (s.size() > 0) {
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
-- 
2.43.0


From fcce9fee12e5c0593dfae930e1e30f86539e71d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 55/55] fix: utils::print read outside a Serie whose items have
 no values

---
 include/dataframe/functional/utils/print.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/print.h b/include/dataframe/functional/utils/print.h
index 7779312..7df9a0f 100644
--- a/include/dataframe/functional/utils/print.h
+++ b/include/dataframe/functional/utils/print.h
@@ -35,7 +35,7 @@ inline void print(const Serie &serie) {
               << "  dimension: " << serie.dimension() << std::endl
               << "  values   : [";
 
-    if (serie.count() > 0) {
+    if (serie.size() > 0) {
         for (uint32_t i = 0; i < serie.count() - 1; ++i) {
             if (serie.itemSize() == 1) {
                 std::cout << serie.get<double>(i) << ", ";
-- 
2.43.0

