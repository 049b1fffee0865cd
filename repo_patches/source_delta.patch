From 71fc47ec09e7d1fbd9809b404c76015f60a2370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 01/37] fix: CSVRow field access returns the trailing empty
 field

---
 source/parser/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..174fcb1 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -290,6 +290,12 @@ public:
             i++;
         }
 
+        // A line that ends with the separator has an empty last field.
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string{}, _types.at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From ed2431803264dc226e9c7db9d80d62c7c52ca858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 02/37] fix: CSV::end() is past the last data row

---
 source/parser/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 174fcb1..b3effa6 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -771,7 +771,7 @@ public:
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
+        return CSVIterator{_fn, _rows_amount, _cols_amount, _types, 
                            _separator}; 
     }
 
-- 
2.43.0


From 136ebc6f4af2a80cf0d154a63b0a4e78276b7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 03/37] fix: CSV row access applies the circular index before
 the cache lookup

---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index b3effa6..141adfb 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -736,10 +736,10 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
-- 
2.43.0


From b7b62a6c76ae2bb1845eae8bc86a95674baf101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 04/37] fix: CSV conversions of an empty field read a
 value-initialized result

---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 141adfb..67f54ae 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -386,7 +386,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
-- 
2.43.0


From 9ef5f937d477c5640e9a46de2164a08e51cde807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 05/37] fix: read empty JSON lists and dictionaries

---
 source/parser/json.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..2c2a0bd 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1540,8 +1540,11 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
     char c;
     os.read(&c, 1);
 
+    bool empty_list = os.peek() == ']';
+    if (empty_list) os.read(&c, 1);
+
     std::string more_items;
-    while (true) {
+    while (!empty_list) {
         std::getline(os, more_items, ']');
         os.seekg(-long(more_items.size() + 1), os.cur);
         JsonItem ji;
@@ -1588,8 +1591,11 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
     char c;
     os.read(&c, 1);
 
+    bool empty_dict = os.peek() == '}';
+    if (empty_dict) os.read(&c, 1);
+
     std::string more_items;
-    while (true)
+    while (!empty_dict)
     {
         std::getline(os, more_items, '}');
         os.seekg(-long(more_items.size() + 1), os.cur);
-- 
2.43.0


From 08ea32b3d1bee8181e5c066852a711460c66c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 06/37] fix: reading malformed JSON text ends with an error
 instead of looping

---
 source/parser/json.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 2c2a0bd..5e97304 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1488,7 +1488,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
     if (c == '\"')
     {
@@ -1537,21 +1537,22 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
 
     bool empty_list = os.peek() == ']';
     if (empty_list) os.read(&c, 1);
 
-    std::string more_items;
     while (!empty_list) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
 
         os.read(&c, 1);
+        if (!os || c == '}')
+        {
+            throw std::runtime_error("JSON bad format: list not closed");
+        }
         if (c == ']')
         {
             break;
@@ -1588,17 +1589,14 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
 
     bool empty_dict = os.peek() == '}';
     if (empty_dict) os.read(&c, 1);
 
-    std::string more_items;
     while (!empty_dict)
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
         os.read(&c, 1);
         std::string key;
         std::getline(os, key, '\"');
@@ -1609,6 +1607,10 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
         obj._map[key] = ji;
 
         os.read(&c, 1);
+        if (!os)
+        {
+            throw std::runtime_error("JSON bad format: dict not closed");
+        }
         if (c == '}')
         {
             break;
@@ -1635,8 +1637,12 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
+    if (!os)
+    {
+        throw std::runtime_error("JSON bad format: unexpected end of text");
+    }
     os.seekg(-1, os.cur);
     switch(c)
     {
-- 
2.43.0


From 553319f28c0b4354fa06f22d224d1499d8fe979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 07/37] fix: comparing an empty JsonItem does not dereference a
 null pointer

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 5e97304..f5bda5f 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1742,6 +1742,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 6b4b853ed0164d64fcbf6683973a614b7aef008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 08/37] fix: converting an empty JSON leaf yields a
 value-initialized result

---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index f5bda5f..9967870 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From 383277b78c15ef3b65f88504575faf71ff94c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 09/37] fix: MNIST files with a truncated header are refused

---
 source/parser/mnist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..0e0bd3e 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -72,9 +72,12 @@ static inline std::uint32_t& uint32_endian_order(std::uint32_t& i)
  */
 static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
-    std::uint32_t ret;
+    std::uint32_t ret = 0;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: truncated header");
+    }
     uint32_endian_order(ret);
     return ret;
 }
-- 
2.43.0


From e96832bf60022761c60e82bf4d2440377dc17c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 10/37] fix: CIFAR perceived brightness sums the weighted
 channels

---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..44f9933 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From 8f68b580b86fd51c24a94d9c8e367d1c4e4f799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 11/37] fix: one-hot encoding keeps every feature when a label
 column is not the last

---
 source/parser/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..7aacee3 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -246,13 +246,15 @@ public:
                     auto row = entry(row_idx);
 
                     // Copy the input.
+                    SizeType feature_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + feature_idx++]
+                                = row[col_idx];
                         }
                     }
 
-- 
2.43.0


From c6d69ae834ef8a895218021fe2da882359fc5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 12/37] fix: a Dataset built from rows counts only the entries
 it stores

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From 40df4e4f4093441e3907ebe7fe96c8e0205b78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 13/37] fix: setting the sequence size of an empty Dataset does
 not divide by zero

---
 source/data/dataset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..1c66d62 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_size * _sequence_amount;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From 70c09f11981e8a082f676528c48f7377bd4aba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 14/37] fix: Adam keeps its moments and timestamp per parameter

The moments and the timestamp were single scalars shared by all the
parameters of all the trained layers, so the update of a parameter used the
gradients of the others.
---
 source/dnn/adam_optimizer.cpp | 21 +++++++++------------
 source/dnn/adam_optimizer.hpp | 16 +++++++++++++---
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 0d84a63..98d34d7 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -35,9 +35,7 @@ AdamOptimizer::AdamOptimizer(
     , _beta_1{beta_1}
     , _beta_2{beta_2}
     , _epsilon{epsilon}
-    , _m{0.0}
-    , _v{0.0}
-    , _t{1}
+    , _moments{}
 { }
 
 void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
@@ -47,21 +45,22 @@ void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
     {
         NumType& param    = layer_to.param(i);
         NumType& gradient = layer_from.gradient(i);
+        Moments& moments  = _moments[&param];
+        ++moments.t;
 
         // beta 1 - Momentum optimizer.
-        _m = _beta_1 * _m + (1 - _beta_1) * gradient;
+        moments.m = _beta_1 * moments.m + (1 - _beta_1) * gradient;
 
         // beta 2 - RMSProp optimizer.
-        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
+        moments.v = _beta_2 * moments.v
+            + (1 - _beta_2) * (gradient * gradient);
 
         // bias correction.
-        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
-        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));
+        auto m_corrected = moments.m / (1 - std::pow(_beta_1, moments.t));
+        auto v_corrected = moments.v / (1 - std::pow(_beta_2, moments.t));
 
         param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));
 
-        ++_t;
-
         // Reset the gradient accumulated again in the next training epoch.
         gradient = NumType{0.0};
     }
@@ -69,9 +68,7 @@ void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 
 void AdamOptimizer::reset()
 {
-    _t = 1;
-    _m = 0;
-    _v = 0;
+    _moments.clear();
 }
 
 } // namespace EdgeLearning
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index f362c19..f6badb7 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -31,6 +31,8 @@
 
 #include "optimizer.hpp"
 
+#include <map>
+
 
 namespace EdgeLearning {
 
@@ -82,9 +84,17 @@ private:
     NumType _beta_2;  ///< \brief Exponential decay for the second moment.
     NumType _epsilon; ///< \brief A value near to zero.
 
-    NumType _m;  ///< \brief The first moment (momentum optimizer algorithm).
-    NumType _v;  ///< \brief The second moment (RMSProp optimizer algorithm).
-    SizeType _t; ///< \brief Incremental timestamp (temperature).
+    /**
+     * \brief Moments and timestamp of one parameter.
+     */
+    struct Moments
+    {
+        NumType m = 0.0; ///< \brief The first moment (momentum).
+        NumType v = 0.0; ///< \brief The second moment (RMSProp).
+        SizeType t = 0;  ///< \brief Incremental timestamp (temperature).
+    };
+
+    std::map<const NumType*, Moments> _moments; ///< \brief Params state.
 };
 
 } // namespace EdgeLearning
-- 
2.43.0


From b5dadb694c1a3ce831a452c0145ac4070b9d13d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 15/37] fix: dropout hands its input on to the next layer in
 prediction

forward() returned the input but left last_output() holding the outputs of
the last training pass, which is what a model propagates to the next layer.
---
 source/dnn/dropout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..646e835 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -70,7 +70,8 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        _output_activations = inputs;
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From c416c4baa9a85055429e7c5ec0fd72176a4b000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 16/37] fix: max pooling back-propagates to the first element
 of a window

When the maximum was the first element of its window the gradient was
added to the first element of the whole input.
---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From 8f21dcd5a15fed87aabc97d4dbdef293ad6832b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 17/37] fix: average pooling back-propagates to the first
 element of a window

The first element of each window never received its share of the gradient.
---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From b76a2ab651572648fd89dd25d14c2c2384950967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 18/37] fix: a convolutional layer accumulates its bias
 gradients

As the weight gradients, and as the dense layer does: the gradients of the
samples of a batch before the last one were lost.
---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..163804d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -129,7 +129,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From 0dcf6a9df178dceaa4e460b263aa09f849d89d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 19/37] fix: a convolutional layer adds its biases to its
 output

The biases were initialized, dumped and trained but never used.
---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 163804d..b433db6 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Add to each output channel the bias of its filter.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From 95dc3a7db619237edadf99343fbc312ff0e0c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:33 +0000
Subject: [PATCH 20/37] fix: a recurrent layer of one time step reads the
 hidden state before overwriting it

---
 source/dnn/recurrent.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..ace0d52 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -131,23 +131,25 @@ const std::vector<NumType>& RecurrentLayer::forward(
         curr_hs_idx = t;
         next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;
 
-        /*
-         * Compute the product of the input with its input_to_hidden weights.
-         * h(t+1) = W_ih * x 
-         */
-        DLMath::matarr_mul<NumType>(
-            _hidden_state.data() + next_hs_idx * _hidden_size, 
-            _weights_i_to_h.data(),
-            curr_sequence, _hidden_size, _shared_fields->input_size());
-
         /*
          * Compute the product of the hidden state with its 
-         * hidden_to_hidden weights and the sum with the to_hidden bias.
-         * h(t+1) += W_hh * h(t) + b_h
+         * hidden_to_hidden weights, before the next state is written: with a
+         * single time step they are the same slot.
+         * tmp = W_hh * h(t)
          */
         DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
             _hidden_state.data() + curr_hs_idx * _hidden_size, 
             _hidden_size, _hidden_size);
+
+        /*
+         * Compute the product of the input with its input_to_hidden weights
+         * and the sum with the hidden product and the to_hidden bias.
+         * h(t+1) = W_ih * x + tmp + b_h
+         */
+        DLMath::matarr_mul<NumType>(
+            _hidden_state.data() + next_hs_idx * _hidden_size, 
+            _weights_i_to_h.data(),
+            curr_sequence, _hidden_size, _shared_fields->input_size());
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-- 
2.43.0


From 875c6f2351af1fc8e02f3435504fe90e83de5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:33 +0000
Subject: [PATCH 21/37] fix: the recurrent layer differentiates tanh at its
 input

---
 source/dnn/recurrent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index ace0d52..decce2c 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -287,7 +287,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                // The hidden state already is the tanh result.
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From 8de9f7a7d402541613a8958b6761d8f9ca7e8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 22/37] fix: the recurrent weight gradient of the first step
 uses the state it started from

---
 source/dnn/recurrent.cpp | 10 +++++++++-
 source/dnn/recurrent.hpp |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index decce2c..17c228d 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -124,6 +124,11 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // The last time step overwrites the state from which the first starts.
+    _start_hidden_state.assign(
+        _hidden_state.begin(),
+        _hidden_state.begin() + static_cast<std::int64_t>(_hidden_size));
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -316,13 +321,16 @@ const std::vector<NumType>& RecurrentLayer::backward(
         }
 
         // Weight gradient hidden to hidden.
+        const NumType* prev_hidden_state = t_idx == 0
+            ? _start_hidden_state.data()
+            : _hidden_state.data() + prev_hs_idx * _hidden_size;
         for (SizeType i = 0; i < _hidden_size; ++i)
         {
             for (SizeType j = 0; j < _hidden_size; ++j)
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
                     next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    * prev_hidden_state[j];
             }
         }
 
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..120a31a 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,8 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+    /// \brief Hidden state from which the last forward started.
+    std::vector<NumType> _start_hidden_state;
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From 6d801bc2c82c9413b39783022f22e043c6e76997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 23/37] fix: the recurrent layer applies the ReLU and linear
 hidden activations

---
 source/dnn/recurrent.cpp | 62 +++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 17c228d..99ca116 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -167,24 +167,23 @@ const std::vector<NumType>& RecurrentLayer::forward(
         // Calculate hidden activations.
         switch (_hidden_activation)
         {
-            // TODO: to test.
-            // case Activation::ReLU:
-            // {
-            //     /*
-            //      * Compute the relu of the new hidden state.
-            //      * h(t+1) = relu(h(t+1))
-            //      */ 
-            //     DLMath::relu<NumType>(
-            //         _hidden_state.data() + next_hs_idx * _hidden_size,
-            //         _hidden_state.data() + next_hs_idx * _hidden_size, 
-            //         _hidden_size);
-            //     break;
-            // }
-            // case Activation::Linear:
-            // {
-            //     // Linear activation disables non-linear function.
-            //     break;
-            // }
+            case HiddenActivation::ReLU:
+            {
+                /*
+                 * Compute the relu of the new hidden state.
+                 * h(t+1) = relu(h(t+1))
+                 */ 
+                DLMath::relu<NumType>(
+                    _hidden_state.data() + next_hs_idx * _hidden_size,
+                    _hidden_state.data() + next_hs_idx * _hidden_size, 
+                    _hidden_size);
+                break;
+            }
+            case HiddenActivation::Linear:
+            {
+                // Linear activation disables non-linear function.
+                break;
+            }
             case HiddenActivation::TanH:
             default:
             {
@@ -275,20 +274,19 @@ const std::vector<NumType>& RecurrentLayer::backward(
         // Calculate gradient of hidden activation and put in next_hidden_state.
         switch (_hidden_activation)
         {
-            // TODO: to test.
-            // case Activation::ReLU:
-            // {
-            //     DLMath::relu_1<NumType>(next_hidden_state.data(), 
-            //         _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            //         _hidden_size);
-            //     break;
-            // }
-            // case Activation::Linear:
-            // {
-            //     std::fill(next_hidden_state.begin(), next_hidden_state.end(),
-            //         NumType{1.0});
-            //     break;
-            // }
+            case HiddenActivation::ReLU:
+            {
+                DLMath::relu_1<NumType>(next_hidden_state.data(), 
+                    _hidden_state.data() + curr_hs_idx * _hidden_size, 
+                    _hidden_size);
+                break;
+            }
+            case HiddenActivation::Linear:
+            {
+                std::fill(next_hidden_state.begin(), next_hidden_state.end(),
+                    NumType{1.0});
+                break;
+            }
             case HiddenActivation::TanH:
             default:
             {
-- 
2.43.0


From 7383d67ccf238649695271f98b59c007c728e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:43 +0000
Subject: [PATCH 24/37] fix: adding a loss layer again does not mark the last
 layer as a loss

---
 source/dnn/dlgraph.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..e88ded2 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -190,7 +190,14 @@ void DLGraph::add_arc_backward(
 void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
-    _loss_layers_idx.push_back(_layers.size() - 1);
+
+    // The layer may already be in the graph, not necessarily as the last one.
+    auto idx = static_cast<SizeType>(index_of(*layer));
+    if (std::find(_loss_layers_idx.begin(), _loss_layers_idx.end(), idx)
+        == _loss_layers_idx.cend())
+    {
+        _loss_layers_idx.push_back(idx);
+    }
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From 678c9f108855d7f54dff4297e9c6276bc29d060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:43 +0000
Subject: [PATCH 25/37] fix: input and output layers are those of the graph
 before any connection too

---
 source/dnn/dlgraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index e88ded2..a9bf5d8 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -88,6 +88,8 @@ void DLGraph::add_node(std::shared_ptr<Layer> layer)
     }
 
     _layers.push_back(layer);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to)
@@ -198,6 +200,8 @@ void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
     {
         _loss_layers_idx.push_back(idx);
     }
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From ecbb9235e562d7bb9a156c61ba93fc4a951811fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 26/37] fix: the concatenation layer joins all its sources,
 each time

Only a single shape was registered, the first source was written past its
place (and past the output when alone) and the second one threw.
---
 source/dnn/concatenate.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/source/dnn/concatenate.cpp b/source/dnn/concatenate.cpp
index f4b38d0..e8ae3b0 100644
--- a/source/dnn/concatenate.cpp
+++ b/source/dnn/concatenate.cpp
@@ -95,35 +95,27 @@ ConcatenateLayer::ConcatenateLayer(std::string name,
     , _current_input_layer{0}
     , _current_output_shape{0, 0, 0}
 {
-
+    // The layer has an input shape for each of the sources to join.
+    _shared_fields->input_shape() = LayerShape(shapes);
 }
 
 const std::vector<NumType>& ConcatenateLayer::forward(
     const std::vector<NumType>& inputs)
 {
+    // Sources come in turn: the first one restarts the output.
     if (_current_input_layer == 0)
     {
-        _current_output_shape = input_shapes()[0];
+        _current_output_shape[_axis] = 0;
     }
 
+    auto axis_size = input_shapes().at(_current_input_layer).at(_axis);
     DLMath::append<NumType>(
         _output_activations.data(), _shared_fields->output_shape().shape(),
-        inputs.data(), input_shapes().at(_current_input_layer).at(_axis),
-        _axis, _current_output_shape[_axis]);
-
-    if (_current_input_layer > 0)
-    {
-        _current_output_shape[_axis] +=
-            input_shapes()[_current_input_layer].at(_axis);
-    }
+        inputs.data(), axis_size, _axis, _current_output_shape[_axis]);
 
-    if (_current_input_layer < input_layers())
-    {
-        _current_input_layer++;
-        return _output_activations;
-    }
-    _current_input_layer = 0;
-    return FeedforwardLayer::forward(_output_activations);
+    _current_output_shape[_axis] += axis_size;
+    _current_input_layer = (_current_input_layer + 1) % input_layers();
+    return _output_activations;
 }
 
 const std::vector<NumType>& ConcatenateLayer::backward(
-- 
2.43.0


From c7bd750215a0f81ae3bac0a7c4dd19a86e7df5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:52 +0000
Subject: [PATCH 27/37] fix: an assigned model refers to the layers of its own
 graph

After an assignment or a swap the layers reported by the model were not
those of its graph, so they could not be connected any more.
---
 source/dnn/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..c9178ed 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,9 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+    // A swapped graph owns copies of the layers: refer to those.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 79e140f9c7d4db5c85c3757a20e41cf02bf8ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 28/37] fix: an ELU layer dumps and loads its saturation value

A loaded ELU layer kept its own saturation value and predicted differently
from the dumped one.
---
 source/dnn/activation.cpp | 19 +++++++++++++++++++
 source/dnn/activation.hpp | 12 ++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..fc7bdc2 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,25 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..c4de277 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,18 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+
+    /**
+     * \brief Save the layer infos to disk, with its saturation value.
+     * \return Json Layer dump.
+     */
+    Json dump() const override;
+
+    /**
+     * \brief Load the layer infos from disk.
+     * \param in const Json& Json to read.
+     */
+    void load(const Json& in) override;
 private:
     NumType _alpha;
 };
-- 
2.43.0


From c9be204e73ca805b11ad62898e4101ac4bfc30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 29/37] fix: a layer behind a dropout layer gets the shape of
 the dropped image

---
 source/middleware/fnn.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..c033c15 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -184,7 +184,11 @@ public:
 
         auto layer = _add_layer(ld, _output_shape);
         if (!layer) return;
-        _output_shape = layer->output_shape();
+        // A dropout layer keeps the shape of its input.
+        if (ld.type() != LayerType::Dropout)
+        {
+            _output_shape = layer->output_shape();
+        }
         if (_m.layers().size() > 1)
         {
             _m.create_edge(_m.layers()[_m.layers().size() - 2], layer);
-- 
2.43.0


From fb468ce3275cafc5806b41809fcfb776cfffc6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 30/37] fix: the tasks of the parallel dense gradient do not
 share a sum

---
 source/dnn/dlmath.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..930dea7 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1889,11 +1889,21 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        // The input gradients collect from every output: one task for each.
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType k = 0; k < output_size; ++k)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[k] * weights[(k * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From ca14f7ad92625ecab836571d4a2e144fcbd4c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 31/37] fix: parallel training waits for its tasks before it
 moves the shared parameters

---
 source/middleware/fnn.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index c033c15..cd646b3 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,8 +103,14 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
+                // The models share the parameters: wait for every task
+                // before the optimizer changes them.
+                std::vector<Model> models;
+                models.reserve(futures.size());
                 for (auto& f: futures) {
-                    Model m = f.get();
+                    models.push_back(f.get());
+                }
+                for (auto& m: models) {
                     model.train(o, m);
                 }
             }
@@ -147,8 +153,14 @@ public:
                     i += batch_size;
                 }
 
+                // The models share the parameters: wait for every task
+                // before the optimizer changes them.
+                std::vector<Model> models;
+                models.reserve(futures.size());
                 for (auto& f: futures) {
-                    Model m = f.get();
+                    models.push_back(f.get());
+                }
+                for (auto& m: models) {
                     model.train(o, m);
                 }
             }
-- 
2.43.0


From a7ba4b8ba1e130e22f68da4c4a4fdfd557ba7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 32/37] fix: batch-parallel training makes no optimizer step
 without a batch

---
 source/middleware/fnn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index cd646b3..44377da 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -134,7 +134,8 @@ public:
                 model.reset_score();
 
                 std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType t = 0; t < tm.concurrency(); ++t)
+                for (SizeType t = 0;
+                     t < tm.concurrency() && i < data.size(); ++t)
                 {
                     futures.push_back(tm.enqueue(
                         [&, batch_size](SizeType idx)
-- 
2.43.0


From 739c3cb35a2ff36a5ec37a3512f53a0258c0bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 33/37] fix: entry-parallel training takes one optimizer step
 per batch

---
 source/middleware/fnn.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 44377da..27ef7b6 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -110,9 +110,16 @@ public:
                 for (auto& f: futures) {
                     models.push_back(f.get());
                 }
+                // One optimizer step with the gradients of the whole batch.
+                const auto& layers = model.layers();
                 for (auto& m: models) {
-                    model.train(o, m);
+                    for (SizeType l = 0; l < layers.size(); ++l) {
+                        for (SizeType p = 0; p < layers[l]->param_count(); ++p) {
+                            layers[l]->gradient(p) += m.layers()[l]->gradient(p);
+                        }
+                    }
                 }
+                model.train(o);
             }
         }
     }
-- 
2.43.0


From c7c0b74a581bb1e170870366b7761eec3e1adb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:58 +0000
Subject: [PATCH 34/37] fix: random integers lie in the requested range

---
 source/dnn/dlmath.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 930dea7..62d0ab2 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -240,7 +240,10 @@ public:
     template <typename T>
     static T rand(T from, T to, RneType& seed)
     {
-        return uniform_pdf<T>((to + from) / T(2), to - from)(seed);
+        // The center of an integer range may lie between two integers.
+        const auto lower = static_cast<NumType>(from);
+        const auto upper = static_cast<NumType>(to);
+        return uniform_pdf<T>((upper + lower) / 2.0, upper - lower)(seed);
     }
 
     /**
-- 
2.43.0


From a39255e1dddf328fa5565305a5f5d9b5f125d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:29 +0000
Subject: [PATCH 35/37] fix: quote an empty JSON text when writing it

A leaf with an empty text and no type was written as nothing, so a list
holding it was read back with fewer elements.
---
 source/parser/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 9967870..1742b2e 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1475,7 +1475,8 @@ inline std::istream& operator>>(std::istream& os, JsonObject& obj)
 
 inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 {
-    if (obj._type == TypeChecker::Type::STRING)
+    // An empty text needs the quotes whatever its type.
+    if (obj._type == TypeChecker::Type::STRING || obj._val.empty())
     {
         os << "\"" << obj._val << "\"";
     }
-- 
2.43.0


From dce1c7ddfce0e49fb21274474e88a417b5adac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:05 +0000
Subject: [PATCH 36/37] fix: count the last CSV row when it has no newline

---
 source/parser/csv.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 67f54ae..27951d7 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -661,11 +661,10 @@ public:
             throw std::runtime_error("Could not open file");
         }
 
-        // Get number of rows.
-        file.unsetf(std::ios_base::skipws);
-        _rows_amount = static_cast<std::size_t>(
-            std::count(std::istream_iterator<char>(file), 
-                std::istream_iterator<char>(), '\n'));
+        // Get number of rows, also when the last one has no newline.
+        std::string line;
+        _rows_amount = 0;
+        while (std::getline(file, line)) ++_rows_amount;
         file.clear();
         file.seekg(0);
 
-- 
2.43.0


From 069c1862e6b5683d5b0b0ed879531f9a789323d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:28 +0000
Subject: [PATCH 37/37] fix: a second fit averages gradients over its own batch
 size

---
 source/dnn/loss.cpp       | 6 ++++++
 source/dnn/loss.hpp       | 6 ++++++
 source/middleware/fnn.hpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..470d615 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -53,6 +53,12 @@ void LossLayer::set_target(const std::vector<NumType>& target)
     _target = target;
 }
 
+void LossLayer::batch_size(SizeType batch_size)
+{
+    _inv_batch_size = NumType{1.0}
+        / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 NumType LossLayer::accuracy() const
 {
     return static_cast<NumType>(_correct) 
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..cc9e395 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -115,6 +115,12 @@ public:
      */
     void set_target(const std::vector<NumType>& target);
 
+    /**
+     * \brief Setter of the batch size the gradients are averaged over.
+     * \param batch_size
+     */
+    void batch_size(SizeType batch_size);
+
     /**
      * \brief Calculate and return the accuracy until the last forward
      * iteration.
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 27ef7b6..cc17c94 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -244,6 +244,12 @@ public:
             }
         }
 
+        // The batch size may differ from the one of a previous fit.
+        for (const auto& loss_layer: _m.loss_layers())
+        {
+            loss_layer->batch_size(batch_size);
+        }
+
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
                 Model::ProbabilityDensityFunction::NORMAL, seed);
-- 
2.43.0

