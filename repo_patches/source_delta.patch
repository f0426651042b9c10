From 50ab8cef9e463693c60e215411eea9b487567ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 01/85] fix: encode REAL columns containing the internal
 missing value of short_real2

---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/codec/Real.h           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..519a2ec 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    // If the data contains both internal missing values, neither short codec can represent it
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..a50bd9f 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -62,10 +62,11 @@ private:  // methods
         core::Codec::gatherStats(v);
 
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        float rounded              = v;  // n.b. the collision happens after conversion to single precision
+        if (rounded == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (rounded == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
     }
 
-- 
2.43.0


From ade1521801566e56bd6f852641169f6d5b0322bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 02/85] fix: do not encode a floating point column containing
 NaN as constant

---
 src/odc/codec/CodecOptimizer.h | 12 +++++++++---
 src/odc/codec/Real.h           |  9 ++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 519a2ec..cc528fd 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -60,7 +60,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
                 ASSERT(codec_long != 0);
 
-                if (max == min) {
+                // n.b. NaN does not contribute to min/max
+                if (max == min && !codec_long->hasNaN()) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
@@ -82,8 +83,12 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 break;
             }
 
-            case api::DOUBLE:
-                if (max == min)
+            case api::DOUBLE: {
+                CodecLongReal<core::SameByteOrder>* codec_long =
+                    dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
+
+                // n.b. NaN does not contribute to min/max
+                if (max == min && !(codec_long != 0 && codec_long->hasNaN()))
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));
                 col.hasMissing(hasMissing);
@@ -94,6 +99,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 //         << ">. Codec: "  << col.coder()
                 //         << std::endl;
                 break;
+            }
 
             case api::STRING: {
                 n = col.coder().numStrings();
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index a50bd9f..b6595b8 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -11,6 +11,8 @@
 #ifndef odc_core_codec_Real_H
 #define odc_core_codec_Real_H
 
+#include <cmath>
+
 #include "odc/core/Codec.h"
 
 
@@ -37,12 +39,14 @@ public:  // methods
     CodecLongReal(api::ColumnType type) :
         core::DataStreamCodec<ByteOrder>(codec_name(), type),
         hasShortRealInternalMissing_(false),
-        hasShortReal2InternalMissing_(false) {}
+        hasShortReal2InternalMissing_(false),
+        hasNaN_(false) {}
 
     ~CodecLongReal() override {}
 
     bool hasShortRealInternalMissing() const { return hasShortRealInternalMissing_; }
     bool hasShortReal2InternalMissing() const { return hasShortReal2InternalMissing_; }
+    bool hasNaN() const { return hasNaN_; }
 
 private:  // methods
 
@@ -68,12 +72,15 @@ private:  // methods
             hasShortRealInternalMissing_ = true;
         if (rounded == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
+        if (std::isnan(v))
+            hasNaN_ = true;
     }
 
 private:  // members
 
     bool hasShortRealInternalMissing_;
     bool hasShortReal2InternalMissing_;
+    bool hasNaN_;
 };
 
 
-- 
2.43.0


From 2698c530113b4bfffb940abcdc29fdaff13087c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 03/85] fix: clone codecs in their own byte order, with their
 missing value

---
 src/odc/codec/String.h |  2 --
 src/odc/core/Codec.cc  | 10 +++++-----
 src/odc/core/Codec.h   |  7 +++++++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 5a5b71a..9bf897a 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -300,8 +300,6 @@ std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
     c.decodedSizeDoubles_            = decodedSizeDoubles_;
-    ASSERT(c.min() == this->min_);
-    ASSERT(c.max() == this->max_);
     return cdc;
 }
 
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..a75be91 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -30,11 +30,11 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
+    auto c = makeSimilar();
+    c->missingValue(missingValue_);  // n.b. also updates anything derived from the missing value
+    c->hasMissing_ = hasMissing_;
+    c->min_        = min_;
+    c->max_        = max_;
     return c;
 }
 
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..3043ad7 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -91,6 +91,9 @@ public:
 
 private:  // methods
 
+    /// Create a new codec with the same name, type and byte order
+    virtual std::unique_ptr<Codec> makeSimilar() const = 0;
+
     virtual void print(std::ostream& s) const;
 
     friend std::ostream& operator<<(std::ostream& s, const Codec& p) {
@@ -159,6 +162,10 @@ protected:  // methods
 
 protected:
 
+    std::unique_ptr<Codec> makeSimilar() const override {
+        return CodecFactory::instance().build<ByteOrder>(name_, type_);
+    }
+
     // n.b. ds_ MUST be initialised before it is used.
     DataStream<ByteOrder>& ds() {
         ASSERT(ds_);
-- 
2.43.0


From 037d3eff13bc72f02bba752fc2820d1a8a91819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 04/85] fix: load long_constant_string columns holding the
 empty string

---
 src/odc/codec/Constant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..3c9fd8e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -194,7 +194,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
-- 
2.43.0


From c7252653576b2d984f0d68696b689a7c1f15cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 05/85] fix: keep a column's missing value when its codec is
 reset after a flush

---
 src/odc/core/Column.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..21fd6e7 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -212,9 +212,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // and which value denotes missing cells
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING)
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 12cf7075e3271334b7bec4c79b64490e5af9e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 06/85] fix: give every decoder column without its own location
 a place in the decoded array

Columns whose element size had been set explicitly were not counted, so the array was too small or missing, and
columns with their own location had no default stride unless another column was in the array.
---
 src/odc/api/odc.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..b12de9a 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -653,8 +653,15 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
             }
+        }
+
+        // Columns which have not been given their own location are decoded into the shared array
+        if (!col.data) {
             width += col.elemSize;
         }
+        else if (col.stride == 0) {
+            col.stride = col.elemSize;
+        }
     }
 
     if (width != 0 && height != 0) {
@@ -689,10 +696,6 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                     offset += col.elemSize;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
-- 
2.43.0


From 69dde12e29e36024ed497df4bfbe3be98433b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 07/85] fix: find columns given by short name when working out
 the size of the decoded array

---
 src/odc/api/odc.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index b12de9a..839fb70 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -648,6 +648,12 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 const std::string& colName(decoder->columnNames[i]);
                 auto it = std::find_if(frame->frame_.columnInfo().begin(), frame->frame_.columnInfo().end(),
                                        [&colName](const ColumnInfo& ci) { return ci.name == colName; });
+                if (it == frame->frame_.columnInfo().end()) {
+                    // Names may be given without the @table suffix, as when decoding
+                    it = std::find_if(
+                        frame->frame_.columnInfo().begin(), frame->frame_.columnInfo().end(),
+                        [&colName](const ColumnInfo& ci) { return ci.name.substr(0, ci.name.find('@')) == colName; });
+                }
                 ASSERT(it != frame->frame_.columnInfo().end());
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
-- 
2.43.0


From 875c853c8464cfd44d3589d7129cc10ee9426658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 08/85] fix: null pad decoded strings in wider cells, and
 refuse cells too small for the column

---
 src/odc/core/Table.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..6af395c 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -157,6 +157,23 @@ void Table::decode(DecodeTarget& target) {
         visitColumn[pos] = true;
         facades[pos]     = &target.dataFacades()[i];
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+
+        // Strings must fit into the cells, and are null padded if they are shorter
+
+        if (metadata[pos]->type() == api::STRING) {
+            size_t decodedSize = metadata[pos]->dataSizeDoubles() * sizeof(double);
+            size_t cellSize    = target.dataFacades()[i].dataSize();
+            if (cellSize < decodedSize) {
+                std::stringstream ss;
+                ss << "Column '" << nm << "' requires " << decodedSize << " bytes per cell, got " << cellSize;
+                throw ODBDecodeError(ss.str(), Here());
+            }
+            if (cellSize > decodedSize) {
+                for (size_t row = 0; row < nrows; ++row) {
+                    ::memset((*facades[pos])[row] + decodedSize, 0, cellSize - decodedSize);
+                }
+            }
+        }
     }
 
     // Read the data in in bulk for this table
-- 
2.43.0


From 56bfcdc17c582456fe60f651fea83829461454d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 09/85] fix: lay out the decoded array again when a decoder
 gets another array or more columns

---
 src/odc/api/odc.cc | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 839fb70..251e45e 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -51,6 +51,7 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool inArray;  // data points into the decoded array, rather than to a location supplied for this column
     };
 
     odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
@@ -534,12 +535,29 @@ int odc_decoder_row_count(const odc_decoder_t* decoder, long* nrows) {
     });
 }
 
+// Columns which have been laid out in the decoded array need a place in the next one
+static void reset_decoder_layout(odc_decoder_t* decoder) {
+    for (auto& col : decoder->columnData) {
+        if (col.inArray) {
+            col.data      = 0;
+            col.stride    = 0;
+            col.transpose = false;
+            col.inArray   = false;
+        }
+    }
+}
+
 int odc_decoder_set_data_array(odc_decoder_t* decoder, void* buffer, long width, long height, bool columnMajor) {
     return wrapApiFunction([decoder, buffer, width, height, columnMajor] {
         ASSERT(decoder);
         ASSERT(buffer);
         ASSERT(width > 0);
         ASSERT(height > 0);
+
+        // If we are setting this _again_ then a configured decoder is being reused. Don't decode
+        // into the previous array.
+        reset_decoder_layout(decoder);
+
         decoder->externalData = buffer;
         decoder->dataWidth    = width;
         decoder->dataHeight   = height;
@@ -577,7 +595,7 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
         ASSERT(decoder);
         ASSERT(name);
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false});
     });
 }
 
@@ -605,9 +623,11 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
         auto& cd(decoder->columnData[col]);
-        cd.elemSize = element_size;
-        cd.stride   = stride;
-        cd.data     = data;
+        cd.elemSize  = element_size;
+        cd.stride    = stride;
+        cd.data      = data;
+        cd.transpose = false;
+        cd.inArray   = false;
     });
 }
 
@@ -633,6 +653,12 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
         decoder->nrows = frame->frame_.rowCount();
     }
 
+    // If columns have been added since the array was laid out, they change the layout
+    if (std::any_of(decoder->columnData.begin(), decoder->columnData.end(),
+                    [](const odc_decoder_t::DecodeColumn& col) { return !col.data; })) {
+        reset_decoder_layout(decoder);
+    }
+
     size_t height = decoder->nrows;  // in rows
     size_t width  = 0;               // in bytes
     std::vector<std::pair<size_t, long>> offsets;
@@ -690,7 +716,8 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
         size_t offset = 0;
         for (auto& col : decoder->columnData) {
             if (!col.data) {
-                col.data = static_cast<char*>(dataPtr) + offset;
+                col.data    = static_cast<char*>(dataPtr) + offset;
+                col.inArray = true;
                 if (decoder->columnMajor) {
                     col.stride = col.elemSize;
                     offset += height * col.elemSize;
-- 
2.43.0


From f02f82d02f1139e33f67c4b3f77538f5aea26374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 10/85] fix: transpose wide columns by the height of the
 decoded array

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 251e45e..ff926c9 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -789,7 +789,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 7e66c9263fdb4bff576475a9ea78ee18ba9147b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 11/85] fix: lay out the decoded array again when the row count
 or the orientation of a decoder changes

---
 src/odc/api/odc.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index ff926c9..a72b164 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -513,9 +513,24 @@ int odc_decoder_defaults_from_frame(odc_decoder_t* decoder, const odc_frame_t* f
     });
 }
 
+// Columns which have been laid out in the decoded array need a place in the next one
+static void reset_decoder_layout(odc_decoder_t* decoder) {
+    for (auto& col : decoder->columnData) {
+        if (col.inArray) {
+            col.data      = 0;
+            col.stride    = 0;
+            col.transpose = false;
+            col.inArray   = false;
+        }
+    }
+}
+
 int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
     return wrapApiFunction([decoder, columnMajor] {
         ASSERT(decoder);
+        if (decoder->columnMajor != columnMajor) {
+            reset_decoder_layout(decoder);
+        }
         decoder->columnMajor = columnMajor;
     });
 }
@@ -523,6 +538,10 @@ int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
 int odc_decoder_set_row_count(odc_decoder_t* decoder, long nrows) {
     return wrapApiFunction([decoder, nrows] {
         ASSERT(decoder);
+        // The array which has been laid out may not have that many rows
+        if (decoder->nrows != size_t(nrows)) {
+            reset_decoder_layout(decoder);
+        }
         decoder->nrows = nrows;
     });
 }
@@ -535,18 +554,6 @@ int odc_decoder_row_count(const odc_decoder_t* decoder, long* nrows) {
     });
 }
 
-// Columns which have been laid out in the decoded array need a place in the next one
-static void reset_decoder_layout(odc_decoder_t* decoder) {
-    for (auto& col : decoder->columnData) {
-        if (col.inArray) {
-            col.data      = 0;
-            col.stride    = 0;
-            col.transpose = false;
-            col.inArray   = false;
-        }
-    }
-}
-
 int odc_decoder_set_data_array(odc_decoder_t* decoder, void* buffer, long width, long height, bool columnMajor) {
     return wrapApiFunction([decoder, buffer, width, height, columnMajor] {
         ASSERT(decoder);
-- 
2.43.0


From fe5368c4af09bd891dc22a099c7ea2bf9418bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 12/85] fix: let copies of a frame look up their own properties

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index a72b164..966c366 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -386,7 +386,7 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
-- 
2.43.0


From da852a205e3efb589a357ba7330351d038845cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 13/85] fix: check the property index on every lookup, and
 forget the properties at the end of the data

---
 src/odc/api/odc.cc | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 966c366..3a27cf0 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -349,15 +349,11 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->frame_              = r.impl_->next();
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
-            return ODC_SUCCESS;
-        }
-        else {
-            return ODC_ITERATION_COMPLETE;
-        }
+        return frame->frame_ ? ODC_SUCCESS : ODC_ITERATION_COMPLETE;
     }});
 }
 
@@ -371,15 +367,11 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->frame_              = r.impl_->next();
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
-            return ODC_SUCCESS;
-        }
-        else {
-            return ODC_ITERATION_COMPLETE;
-        }
+        return frame->frame_ ? ODC_SUCCESS : ODC_ITERATION_COMPLETE;
     }});
 }
 
@@ -455,10 +447,10 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
     return wrapApiFunction([frame, idx, key, value] {
         ASSERT(frame);
 
-        if (!frame->propertiesMemoised_) {
-            const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
+        const auto& properties(frame->frame_.properties());
+        ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
+        if (!frame->propertiesMemoised_) {
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
                  ++it) {
-- 
2.43.0


From 36f7e844193b4956a40e7dc1ae304f3d8a22c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 14/85] fix: copy frames that are not positioned on any data

---
 src/odc/api/Odb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..d007cd7 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
-- 
2.43.0


From 425765fdefe0f166497281ba7024b0e8ce2008d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 15/85] fix: reject negative and impossible counts when reading
 encoded data

---
 src/odc/core/DataStream.h | 27 ++++++++++++++++++---------
 src/odc/core/MetaData.h   |  1 +
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/odc/core/DataStream.h b/src/odc/core/DataStream.h
index a207a62..d16e2b5 100644
--- a/src/odc/core/DataStream.h
+++ b/src/odc/core/DataStream.h
@@ -66,6 +66,7 @@ public:
     ~DataStream();
 
     eckit::Offset position() const;
+    size_t remaining() const { return end_ - current_; }
 
     // Reading
 
@@ -103,8 +104,17 @@ public:
         current_ = p;
     }
     void advance(size_t nbytes) {
+        ASSERT(nbytes <= remaining());
         current_ += nbytes;
-        ASSERT(current_ <= end_);
+    }
+
+    /// Check that a number of elements (each taking at least one byte) can be read
+    void checkCount(int32_t count) const {
+        if (count < 0 || size_t(count) > remaining()) {
+            std::stringstream ss;
+            ss << "Invalid count " << count << " in DataStream with only " << remaining() << " bytes remaining";
+            throw ODBEndOfDataStream(ss.str(), Here());
+        }
     }
 
 private:  // members
@@ -229,6 +239,7 @@ inline void DataStream<ByteOrder>::read(std::vector<T>& vec) {
     vec.clear();
     int32_t count;
     read(count);
+    checkCount(count);
     vec.resize(count);
     for (auto& elem : vec)
         read(elem);
@@ -241,6 +252,7 @@ inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
     props.clear();
     int32_t count;
     read(count);
+    checkCount(count);
     for (int32_t i = 0; i < count; i++) {
         T first;
         S second;
@@ -256,6 +268,7 @@ inline void DataStream<ByteOrder>::read(std::string& s) {
 
     int32_t len;
     read(len);
+    checkCount(len);
 
     s.resize(len);
     readBytes(&s[0], len);  // n.b. raw read. Bytes are in order.
@@ -274,9 +287,7 @@ inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
 
-    char* newpos = current_ + bytes;
-
-    if (newpos > end_) {
+    if (bytes > remaining()) {
         std::stringstream ss;
         ss << "Attempting to read " << bytes << " bytes from DataStream with only " << (end_ - current_)
            << " bytes remaining";
@@ -284,7 +295,7 @@ inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
     }
 
     ::memcpy(addr, current_, bytes);
-    current_ = newpos;
+    current_ += bytes;
 }
 
 
@@ -340,16 +351,14 @@ inline void DataStream<ByteOrder>::writeBytes(const void* addr, size_t bytes) {
 
     ASSERT(!const_);
 
-    char* newpos = current_ + bytes;
-
-    if (newpos > end_) {
+    if (bytes > remaining()) {
         std::stringstream ss;
         ss << "Attempting to write " << bytes << " to DataStream with only " << (end_ - current_) << " bytes remaining";
         throw ODBEndOfDataStream(ss.str(), Here());
     }
 
     ::memcpy(current_, addr, bytes);
-    current_ = newpos;
+    current_ += bytes;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..e3e7645 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -150,6 +150,7 @@ void MetaData::load(DataStream<ByteOrder>& ds) {
 
     int32_t nCols;
     ds.read(nCols);
+    ds.checkCount(nCols);
     resize(nCols, NULL);
     for (size_t i = 0; i < size(); i++) {
         delete at(i);
-- 
2.43.0


From 343f24cb25f4eb848568fe5845a5fdd722ee0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 16/85] fix: reject headers whose row count and data size are
 inconsistent

---
 src/odc/core/Header.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..631c431 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -95,6 +95,8 @@ void Header::load(DataHandle& dh) {
     // 0 means we don't know offset of next header.
     int64_t nextFrameOffset;
     ds2.read(nextFrameOffset);
+    if (nextFrameOffset < 0)
+        throw ODBInvalid(dh.title(), "Negative data size", Here());
     dataSize_ = nextFrameOffset;
     md_.dataSize(dataSize_);
 
@@ -107,6 +109,9 @@ void Header::load(DataHandle& dh) {
 
     int64_t numberOfRows;
     ds2.read(numberOfRows);
+    // n.b. Each row takes at least the two bytes of its marker
+    if (numberOfRows < 0 || numberOfRows > nextFrameOffset / 2)
+        throw ODBInvalid(dh.title(), "Number of rows inconsistent with data size", Here());
     rowsNumber_ = numberOfRows;
     md_.rowsNumber(rowsNumber_);
 
-- 
2.43.0


From 15d649a513d35eb0c609596e029bf0a6ca99f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 17/85] fix: reject invalid byte order indicators and negative
 format versions

---
 src/odc/core/Header.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 631c431..aaa4ca2 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -63,7 +63,8 @@ void Header::load(DataHandle& dh) {
 
     int32_t formatVersionMajor;
     ds1.read(formatVersionMajor);
-    ASSERT("File format version not supported" && formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR);
+    ASSERT("File format version not supported" && formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR &&
+           formatVersionMajor >= 0);
 
     int32_t formatVersionMinor;
     ds1.read(formatVersionMinor);
@@ -133,6 +134,10 @@ void Header::loadAfterMagic(DataHandle& dh) {
     }
 
     if (byteOrder_ != BYTE_ORDER_INDICATOR) {
+        int32_t swapped = byteOrder_;
+        OtherByteOrder::swap(swapped);
+        if (swapped != BYTE_ORDER_INDICATOR)
+            throw ODBInvalid(dh.title(), "Incorrect byte order indicator", Here());
         load<OtherByteOrder>(dh);
     }
     else {
-- 
2.43.0


From cd5edbea93f178bd2a73c3d042972e43f137529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 18/85] fix: check string table sizes and indices for negative
 values

---
 src/odc/codec/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 9bf897a..c20570c 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -140,7 +140,7 @@ private:  // methods
         InternalInt i;
         static_cast<core::Codec&>(intCodec_).decode(reinterpret_cast<double*>(&i));
 
-        ASSERT(i < long(this->strings_.size()));
+        ASSERT(i >= 0 && i < long(this->strings_.size()));
         const std::string& s(this->strings_[i]);
 
         ::memset(out, 0, this->decodedSizeDoubles_ * sizeof(double));
@@ -157,7 +157,7 @@ private:  // methods
         // This is based on the old-style hash-table storage, so it isn't a trivial list of strings
         int32_t numStrings;
         ds.read(numStrings);
-        ASSERT(numStrings >= 0);
+        ds.checkCount(numStrings);
 
         this->strings_.resize(numStrings);
 
@@ -174,7 +174,7 @@ private:  // methods
             int32_t index;
             ds.read(index);
 
-            ASSERT(index < numStrings);
+            ASSERT(index >= 0 && index < numStrings);
             this->strings_[index] = s;
 
             if (s.length() != 0) {
-- 
2.43.0


From 6d9b36dc4f9de87026a94b837472e3413dfa8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 19/85] fix: reject rows starting beyond the last column

---
 src/odc/core/Table.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 6af395c..9846006 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -216,6 +216,7 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        ASSERT(startCol <= long(ncols));
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
-- 
2.43.0


From 104ea1f2a1ee1de2028195b5637ed7f0a5445cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 20/85] fix: report data cut short instead of decoding
 uninitialised memory, and allocate only for data that exists

---
 src/odc/ReaderIterator.cc | 10 +++-------
 src/odc/core/Header.cc    | 32 ++++++++++++++++++++++++++++++--
 src/odc/core/Header.h     |  6 ++++++
 src/odc/core/Table.cc     | 11 +++++++----
 4 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..d31f294 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -170,15 +170,11 @@ void ReaderIterator::initRowBuffer() {
 
 size_t ReaderIterator::readBuffer(size_t dataSize) {
 
-    // Ensure we have enough buffer space
-
-    if (rowDataBuffer_.size() < dataSize) {
-        rowDataBuffer_ = eckit::Buffer(dataSize);
-    }
-
     // Read the data into a buffer
 
-    size_t bytesRead = f_->read(rowDataBuffer_, dataSize);
+    rowDataBuffer_ = readAvailable(*f_, dataSize);
+
+    size_t bytesRead = rowDataBuffer_.size();
     if (bytesRead == 0)
         return 0;
 
diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index aaa4ca2..afdd5bf 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Header.h"
 
+#include <algorithm>
+
 #include "eckit/io/Buffer.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -29,6 +31,29 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+eckit::Buffer readAvailable(DataHandle& dh, size_t length) {
+
+    constexpr size_t initial_size = 16 * 1024 * 1024;
+
+    eckit::Buffer buffer(std::min(length, initial_size));
+    size_t pos = 0;
+
+    while (pos < length) {
+        if (pos == buffer.size()) {
+            buffer.resize(std::min(length, 2 * buffer.size()), true);
+        }
+        long bytesRead = dh.read(buffer + pos, buffer.size() - pos);
+        if (bytesRead <= 0)
+            break;
+        pos += bytesRead;
+    }
+
+    buffer.resize(pos, true);
+    return buffer;
+}
+
+//----------------------------------------------------------------------------------------------------------------------
+
 Header::Header(MetaData& md, Properties& props) :
     md_(md), props_(props), dataSize_(0), rowsNumber_(0), byteOrder_(BYTE_ORDER_INDICATOR) {}
 
@@ -79,8 +104,11 @@ void Header::load(DataHandle& dh) {
 
     // Read the remaining header data
 
-    eckit::Buffer buffer(headerSize);
-    if (dh.read(buffer, headerSize) != headerSize)
+    if (headerSize < 0)
+        throw ODBInvalid(dh.title(), "Negative header size", Here());
+
+    eckit::Buffer buffer(readAvailable(dh, headerSize));
+    if (buffer.size() != size_t(headerSize))
         throw ODBIncomplete(dh.title(), Here());
 
     // Calculate the MD5
diff --git a/src/odc/core/Header.h b/src/odc/core/Header.h
index 8ee315c..7e2970c 100644
--- a/src/odc/core/Header.h
+++ b/src/odc/core/Header.h
@@ -46,6 +46,12 @@ const int32_t FORMAT_VERSION_NUMBER_MINOR = 5;
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Reads the given number of bytes, or fewer if there are no more. As lengths come from the data itself, memory is only
+/// allocated as far as data is actually found.
+eckit::Buffer readAvailable(eckit::DataHandle& dh, size_t length);
+
+//----------------------------------------------------------------------------------------------------------------------
+
 class Header {
 
 public:  // methods
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 9846006..d0ff293 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -73,15 +73,18 @@ const Properties& Table::properties() const {
 Buffer Table::readEncodedData(bool includeHeader) {
 
     if (includeHeader) {
-        Buffer data(nextPosition() - startPosition());
+        size_t length = nextPosition() - startPosition();
         dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
+        Buffer data(readAvailable(dh_, length));
+        if (data.size() != length)
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
     else {
-        Buffer data(dataSize_);
         dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
+        Buffer data(readAvailable(dh_, dataSize_));
+        if (data.size() != size_t(dataSize_))
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
 }
-- 
2.43.0


From bc8a32212f41903a0944719738398b83d3fda2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 21/85] fix: do not expose uninitialised memory in rows that
 start after the first column

---
 src/odc/ReaderIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index d31f294..52c6906 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -151,7 +151,7 @@ void ReaderIterator::initRowBuffer() {
     size_t nCols       = columns().size();
 
     delete[] lastValues_;
-    lastValues_ = new double[numDoubles];
+    lastValues_ = new double[numDoubles]();
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
-- 
2.43.0


From 0a7b25fd5d2d5eab1586942c8319cb102c377030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 22/85] fix: check the duplicated file descriptor

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 3a27cf0..1640771 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -278,7 +278,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From 49d284a5b3ec1fe348284fa48f768ad7af3ef461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 23/85] fix: read streams given by a callback

---
 src/odc/api/odc.cc | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 1640771..9eb11bd 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -9,10 +9,13 @@
  */
 
 #include <unistd.h>
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <numeric>
+#include <string>
+#include <vector>
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileDescHandle.h"
@@ -300,12 +303,48 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        // A stream can only be read once, forwards, and may deliver less than asked for. Keep what has been read, so
+        // that frames can be decoded after the reader has moved on.
+        long read(void* buffer, long length) override {
+            fetch(pos_ + length);
+            if (pos_ >= data_.size())
+                return 0;
+            length = std::min(length, long(data_.size() - pos_));
+            ::memcpy(buffer, &data_[pos_], length);
+            pos_ += length;
+            return length;
+        }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
+        Offset position() override { return pos_; }
+        Offset seek(const Offset& position) override {
+            size_t pos = static_cast<long long>(position);
+            fetch(pos);
+            if (pos > data_.size())
+                throw ReadError("Stream ended before position " + std::to_string(pos), Here());
+            pos_ = pos;
+            return pos_;
+        }
+
+        void fetch(size_t upTo) {
+            constexpr size_t step = 64 * 1024;
+            while (data_.size() < upTo) {
+                size_t size = data_.size();
+                data_.resize(std::min(upTo, size + step));
+                long n = fn_(handle_, &data_[size], data_.size() - size);
+                ASSERT(n <= long(data_.size() - size));
+                data_.resize(size + std::max(n, 0L));
+                if (n < 0)
+                    throw ReadError("Stream read callback failed", Here());
+                if (n == 0)
+                    break;
+            }
+        }
 
         void* handle_;
         odc_stream_read_t fn_;
+        std::vector<char> data_;
+        size_t pos_ = 0;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From 9b7c55ecc941f7fd8040417e63901184eb8efb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 24/85] fix: report the bytes encoded to a file descriptor, not
 its offset

---
 src/odc/api/odc.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 9eb11bd..a825f02 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1116,13 +1116,26 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
 }
 
 int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_encoded) {
+
+    // The descriptor may be positioned anywhere, and may not be seekable, so count what is written
+    struct CountingFileDescHandle : public FileDescHandle {
+        using FileDescHandle::FileDescHandle;
+        long write(const void* buffer, long length) override {
+            long written = FileDescHandle::write(buffer, length);
+            if (written > 0)
+                written_ += written;
+            return written;
+        }
+        long written_ = 0;
+    };
+
     return wrapApiFunction([encoder, fd, bytes_encoded] {
-        FileDescHandle dh(fd);
+        CountingFileDescHandle dh(fd);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
         if (bytes_encoded)
-            (*bytes_encoded) = dh.position();
+            (*bytes_encoded) = dh.written_;
     });
 }
 
-- 
2.43.0


From e9aaed6c7e90b2799629c1bb5e22d548ba412679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 25/85] fix: leave the encoder as configured, so that it can be
 used again

---
 src/odc/api/odc.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index a825f02..68a8b21 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -954,7 +954,10 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
     });
 }
 
-void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>>& transposedData) {
+/// \param columnData The location of the data to encode for each column. The encoder itself is left as configured, so that
+///                   it can be used again
+void fill_in_encoder(odc_encoder_t* encoder, std::vector<odc_encoder_t::EncodeColumn>& columnData,
+                     std::vector<std::unique_ptr<char[]>>& transposedData) {
 
     ASSERT(encoder->nrows > 0);
     ASSERT(encoder->columnData.size() == encoder->columnInfo.size());
@@ -992,7 +995,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
 
         size_t offset = 0;
         for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             ASSERT(info.decodedSize != 0);
@@ -1037,7 +1040,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
         // We are constructing the data with a supplied structure per column
 
         for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             // If no stride is supplied for a column, assume that it is densely packed
@@ -1063,7 +1066,8 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     // TransposedData allows column-oriented data to be reordered before encoding if needed.
     std::vector<std::unique_ptr<char[]>> transposedData;
-    fill_in_encoder(encoder, transposedData);
+    std::vector<odc_encoder_t::EncodeColumn> columnData(encoder->columnData);
+    fill_in_encoder(encoder, columnData, transposedData);
 
     size_t ncolumns = encoder->columnData.size();
     ASSERT(ncolumns > 0);
@@ -1074,7 +1078,7 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     for (size_t i = 0; i < ncolumns; i++) {
         const ColumnInfo& info{encoder->columnInfo[i]};
-        const odc_encoder_t::EncodeColumn& c{encoder->columnData[i]};
+        const odc_encoder_t::EncodeColumn& c{columnData[i]};
         stridedData.emplace_back(ConstStridedData{c.data, encoder->nrows, info.decodedSize, c.stride});
     }
 
-- 
2.43.0


From 0b7c7625e193a0b2b4047562cffc83ebf9ca3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 26/85] fix: do not repeat a write that came up short

---
 src/odc/WriterBufferingIterator.cc | 9 +++++----
 src/odc/core/Encoder.cc            | 8 ++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..4125916 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -342,10 +342,11 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates a failing condition again, so write outside of it
+    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
+    ASSERT(dataWritten == encodedStream.position());
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..1f9c290 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -114,8 +114,12 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     // And output the data
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    // n.b. ASSERT evaluates a failing condition again, so write outside of it
+
+    const long headerWritten = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == encodedStream.position());
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 23305fdf9ba2c5bbf9b486f38cd49776caa8e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 27/85] fix: notice truncated data when iterating over frames
 without decoding them

---
 src/odc/core/TablesReader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 88e274b..1807172 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -111,6 +111,15 @@ bool TablesReader::ensureTable(long idx) {
         ASSERT(nextPosition <= dh_.estimate() || dh_.estimate() == Length(0));
 
         // If the table has been truncated, this is an error, and we cannot read on.
+        // n.b. Not all DataHandles know their size, and seeking beyond the end may succeed --> check the last byte
+        if (nextPosition > Offset(0)) {
+            char last;
+            dh_.seek(Offset(nextPosition - Length(1)));
+            if (dh_.read(&last, 1) != 1) {
+                throw ODBIncomplete(dh_.title(), Here());
+            }
+        }
+
         Offset pos = dh_.seek(nextPosition);
         if (pos < nextPosition) {
             throw ODBIncomplete(dh_.title(), Here());
-- 
2.43.0


From 705a6dde69ab97a95b65ff95a632d396aa1dd656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 28/85] fix: check the column index when asked for a missing
 value through the legacy interface

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..e5d3526 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -451,7 +451,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -508,7 +508,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From 9570ac18c024094a872a2a353ec2cbc258fad322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 29/85] fix: reject bitfields that do not fit into a value

---
 src/odc/core/Column.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 21fd6e7..f6c557f 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -146,6 +146,14 @@ void Column::load(DataStream<ByteOrder>& ds) {
         ds.read(names);
         ds.read(sizes);
         ASSERT(names.size() == sizes.size());
+
+        // The members are packed into (at most) the 64 bits of a value
+        int64_t bits = 0;
+        for (int32_t size : sizes) {
+            ASSERT(size >= 0);
+            bits += size;
+            ASSERT(bits <= 64);
+        }
     }
 
     coder_ = CodecFactory::instance().load(ds, api::ColumnType(type_));
-- 
2.43.0


From 3443a2dfa2f136b885a51bbd3f83756015a9f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 30/85] fix: reject numeric columns encoded as long strings

---
 src/odc/core/Column.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index f6c557f..9d2f3a6 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -157,6 +157,9 @@ void Column::load(DataStream<ByteOrder>& ds) {
     }
 
     coder_ = CodecFactory::instance().load(ds, api::ColumnType(type_));
+
+    // Only strings can be wider than one double
+    ASSERT(type_ == api::STRING || coder_->dataSizeDoubles() == 1);
 }
 
 template <typename ByteOrder>
-- 
2.43.0


From 392e769464da9a4b77d2c2434eb242ec8aa9ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 31/85] fix: reject negative and inconsistent counts and sizes
 given to the C API

---
 src/odc/api/odc.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 68a8b21..15a3e14 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -288,7 +288,10 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
 }
 
 int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
-    return wrapApiFunction([reader, data, length] { (*reader) = new odc_reader_t(new MemoryHandle(data, length)); });
+    return wrapApiFunction([reader, data, length] {
+        ASSERT(length >= 0);
+        (*reader) = new odc_reader_t(new MemoryHandle(data, length));
+    });
 }
 
 int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t stream_proc) {
@@ -569,6 +572,7 @@ int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
 int odc_decoder_set_row_count(odc_decoder_t* decoder, long nrows) {
     return wrapApiFunction([decoder, nrows] {
         ASSERT(decoder);
+        ASSERT(nrows >= 0);
         // The array which has been laid out may not have that many rows
         if (decoder->nrows != size_t(nrows)) {
             reset_decoder_layout(decoder);
@@ -649,6 +653,7 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
     return wrapApiFunction([decoder, col, element_size] {
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
+        ASSERT(element_size >= 0 && element_size % 8 == 0);
 
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
@@ -659,6 +664,8 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
     return wrapApiFunction([decoder, col, element_size, stride, data] {
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
+        ASSERT(element_size >= 0 && element_size % 8 == 0);
+        ASSERT(stride >= 0 && stride % 8 == 0);
 
         auto& cd(decoder->columnData[col]);
         cd.elemSize  = element_size;
@@ -870,6 +877,7 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
+        ASSERT(nrows >= 0);
         encoder->nrows = nrows;
     });
 }
@@ -877,6 +885,7 @@ int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
 int odc_encoder_set_rows_per_frame(odc_encoder_t* encoder, long rows_per_frame) {
     return wrapApiFunction([encoder, rows_per_frame] {
         ASSERT(encoder);
+        ASSERT(rows_per_frame > 0);
         encoder->maxRowsPerFrame = rows_per_frame;
     });
 }
@@ -885,6 +894,8 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
                                int columnMajorWidth) {
     return wrapApiFunction([encoder, data, width, height, columnMajorWidth] {
         ASSERT(encoder);
+        ASSERT(width >= 0 && height >= 0);
+        ASSERT(columnMajorWidth >= 0 && columnMajorWidth % 8 == 0);
 
         // If we are setting this _again_ then this is because a configured encoder
         // is being reused. Make sure that we rezero things that should be rezeroed.
@@ -896,7 +907,6 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
             }
         }
 
-        ASSERT(columnMajorWidth % 8 == 0);
         encoder->arrayData        = data;
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
@@ -940,6 +950,8 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
         ASSERT(encoder);
         ASSERT(col >= 0 && size_t(col) < encoder->columnInfo.size());
 
+        ASSERT(nbits >= 0 && nbits <= 32);
+
         size_t offset;
         ColumnInfo& ci(encoder->columnInfo[col]);
         if (ci.bitfield.size() == 0) {
@@ -1006,6 +1018,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<odc_encoder_t::EncodeCo
             c.data = static_cast<const char*>(encoder->arrayData) + offset;
 
             if (encoder->columnMajorWidth != 0) {
+                ASSERT(info.decodedSize % encoder->columnMajorWidth == 0);
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
@@ -1145,6 +1158,8 @@ int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_en
 
 int odc_encode_to_buffer(odc_encoder_t* encoder, void* buffer, long length, long* bytes_encoded) {
     return wrapApiFunction([encoder, buffer, length, bytes_encoded] {
+        ASSERT(buffer);
+        ASSERT(length >= 0);
         MemoryHandle dh(buffer, length);
         dh.openForWrite(0);
         AutoClose closer(dh);
-- 
2.43.0


From 6dae833b6ffcc794d8cc78d4ca3293aafa5c599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 32/85] fix: report null arguments to the C API instead of
 crashing

---
 src/odc/api/odc.cc | 60 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 15a3e14..d971299 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -176,11 +176,17 @@ extern "C" {
 // Types for lookup
 
 int odc_column_type_count(int* count) {
-    return wrapApiFunction([count] { (*count) = NUM_TYPES; });
+    return wrapApiFunction([count] {
+        ASSERT(count);
+        (*count) = NUM_TYPES;
+    });
 }
 
 int odc_column_type_name(int type, const char** type_name) {
-    return wrapApiFunction([type, type_name] { (*type_name) = columnTypeName(static_cast<ColumnType>(type)); });
+    return wrapApiFunction([type, type_name] {
+        ASSERT(type_name);
+        (*type_name) = columnTypeName(static_cast<ColumnType>(type));
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -258,11 +264,17 @@ int odc_set_missing_double(double missing_double) {
 }
 
 int odc_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = Settings::version().c_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = Settings::version().c_str();
+    });
 }
 
 int odc_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = Settings::gitsha1().c_str(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = Settings::gitsha1().c_str();
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -272,12 +284,15 @@ int odc_vcs_version(const char** sha1) {
 int odc_open_path(odc_reader_t** reader, const char* filename) {
     return wrapApiFunction([reader, filename] {
         //        ASSERT(!(*reader));
+        ASSERT(reader);
+        ASSERT(filename);
         (*reader) = new odc_reader_t(PathName(filename).fileHandle());
     });
 }
 
 int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
     return wrapApiFunction([reader, fd] {
+        ASSERT(reader);
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
@@ -289,7 +304,9 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
 
 int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
     return wrapApiFunction([reader, data, length] {
+        ASSERT(reader);
         ASSERT(length >= 0);
+        ASSERT(data || length == 0);
         (*reader) = new odc_reader_t(new MemoryHandle(data, length));
     });
 }
@@ -350,8 +367,11 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         size_t pos_ = 0;
     };
 
-    return wrapApiFunction(
-        [reader, handle, stream_proc] { (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc)); });
+    return wrapApiFunction([reader, handle, stream_proc] {
+        ASSERT(reader);
+        ASSERT(stream_proc);
+        (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc));
+    });
 }
 
 int odc_close(const odc_reader_t* reader) {
@@ -369,6 +389,7 @@ int odc_close(const odc_reader_t* reader) {
 
 int odc_new_frame(odc_frame_t** frame, odc_reader_t* reader) {
     return wrapApiFunction([frame, reader] {
+        ASSERT(frame);
         ASSERT(reader);
         (*frame) = new odc_frame_t{*reader, false, {}, {}};
     });
@@ -420,6 +441,7 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
+        ASSERT(copy);
         (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
@@ -480,6 +502,7 @@ int odc_frame_bitfield_attributes(const odc_frame_t* frame, int col, int field,
 int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
     return wrapApiFunction([frame, nproperties] {
         ASSERT(frame);
+        ASSERT(nproperties);
 
         (*nproperties) = frame->frame_.properties().size();
     });
@@ -488,6 +511,8 @@ int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
 int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key, const char** value) {
     return wrapApiFunction([frame, idx, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
 
         const auto& properties(frame->frame_.properties());
         ASSERT(idx >= 0 && size_t(idx) < properties.size());
@@ -510,6 +535,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 int odc_frame_property(const odc_frame_t* frame, const char* key, const char** value) {
     return wrapApiFunction([frame, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
         const auto& properties(frame->frame_.properties());
 
         auto it = properties.find(key);
@@ -522,7 +549,10 @@ int odc_frame_property(const odc_frame_t* frame, const char* key, const char** v
 /* Decode functionality */
 
 int odc_new_decoder(odc_decoder_t** decoder) {
-    return wrapApiFunction([decoder] { (*decoder) = new odc_decoder_t; });
+    return wrapApiFunction([decoder] {
+        ASSERT(decoder);
+        (*decoder) = new odc_decoder_t;
+    });
 }
 
 int odc_free_decoder(const odc_decoder_t* decoder) {
@@ -860,7 +890,10 @@ int odc_decode(odc_decoder_t* decoder, const odc_frame_t* frame, long* rows_deco
 /* Encode functionality */
 
 int odc_new_encoder(odc_encoder_t** encoder) {
-    return wrapApiFunction([encoder] { (*encoder) = new odc_encoder_t; });
+    return wrapApiFunction([encoder] {
+        ASSERT(encoder);
+        (*encoder) = new odc_encoder_t;
+    });
 }
 
 int odc_free_encoder(const odc_encoder_t* encoder) {
@@ -870,6 +903,8 @@ int odc_free_encoder(const odc_encoder_t* encoder) {
 int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char* value) {
     return wrapApiFunction([encoder, key, value] {
         ASSERT(encoder);
+        ASSERT(key);
+        ASSERT(value);
         encoder->properties[key] = value;
     });
 }
@@ -919,6 +954,7 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
 int odc_encoder_add_column(odc_encoder_t* encoder, const char* name, int type) {
     return wrapApiFunction([encoder, name, type] {
         ASSERT(encoder);
+        ASSERT(name);
         encoder->columnInfo.emplace_back(ColumnInfo{std::string(name), ColumnType(type), {}, {}});
         encoder->columnData.emplace_back(odc_encoder_t::EncodeColumn{0, 0});
     });
@@ -950,6 +986,7 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
         ASSERT(encoder);
         ASSERT(col >= 0 && size_t(col) < encoder->columnInfo.size());
 
+        ASSERT(name);
         ASSERT(nbits >= 0 && nbits <= 32);
 
         size_t offset;
@@ -1124,11 +1161,14 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
     };
 
     return wrapApiFunction([encoder, handle, write_fn, bytes_encoded] {
+        ASSERT(encoder);
+        ASSERT(write_fn);
         WriteStreamDataHandle dh(handle, write_fn);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-        (*bytes_encoded) = dh.position();
+        if (bytes_encoded)
+            (*bytes_encoded) = dh.position();
     });
 }
 
@@ -1147,6 +1187,7 @@ int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_en
     };
 
     return wrapApiFunction([encoder, fd, bytes_encoded] {
+        ASSERT(encoder);
         CountingFileDescHandle dh(fd);
         dh.openForWrite(0);
         AutoClose closer(dh);
@@ -1158,6 +1199,7 @@ int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_en
 
 int odc_encode_to_buffer(odc_encoder_t* encoder, void* buffer, long length, long* bytes_encoded) {
     return wrapApiFunction([encoder, buffer, length, bytes_encoded] {
+        ASSERT(encoder);
         ASSERT(buffer);
         ASSERT(length >= 0);
         MemoryHandle dh(buffer, length);
-- 
2.43.0


From 728aa59e957d51a7ac8e93596494e49549c27cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 33/85] fix: do not skip a frame when it could not be returned

---
 src/odc/api/Odb.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index d007cd7..c12bd15 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -129,19 +129,23 @@ Frame ReaderImpl::next() {
     if (it_ == tablesReader_.end())
         return Frame();
 
+    // n.b. If anything fails, we stay where we are, so that no data is skipped unnoticed
+    auto it = it_;
+
     if (!first_) {
-        ++it_;
-        if (it_ == tablesReader_.end())
+        ++it;
+        if (it == tablesReader_.end()) {
+            it_ = it;
             return Frame();
+        }
     }
 
-    first_ = false;
-    tables.emplace_back(*it_);
+    tables.emplace_back(*it);
     long nrows = tables.back().rowCount();
 
     if (aggregated_) {
         while (true) {
-            auto it_next = it_;
+            auto it_next = it;
             ++it_next;
             if (it_next == tablesReader_.end())
                 break;
@@ -152,13 +156,16 @@ Frame ReaderImpl::next() {
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
 
-            ++it_;
-            tables.emplace_back(*it_);
+            ++it;
+            tables.emplace_back(*it);
             nrows = next_nrows;
         }
     }
 
     ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
+
+    it_    = it;
+    first_ = false;
     return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
 }
 
-- 
2.43.0


From 8b5b9c1faaa04e9f71ce84c2a96146e5cc991cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 34/85] fix: do not take a read error for the end of the data

---
 src/odc/core/Header.cc                 | 4 +++-
 src/odc/core/ThreadSharedDataHandle.cc | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index afdd5bf..f8b4b0b 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -64,8 +64,10 @@ bool Header::readMagic(DataHandle& dh) {
     eckit::FixedString<5> magic;
 
     long bytesRead = dh.read(&magic, sizeof(magic));
-    if (bytesRead == 0 || bytesRead == EOF)
+    if (bytesRead == 0)
         return false;
+    if (bytesRead < 0)
+        throw ReadError(dh.title(), Here());
     if (bytesRead != sizeof(magic))
         throw ODBIncomplete(dh.title(), Here());
     if (magic != "\xff\xffODA")
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..95bb64d 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -99,7 +99,8 @@ long ThreadSharedDataHandle::read(void* buffer, long length) {
     }
 
     long delta = internal_->dh_->read(buffer, length);
-    position_ += delta;
+    if (delta > 0)
+        position_ += delta;
     return delta;
 }
 
-- 
2.43.0


From f0a0fa1157b9fb4d0a36dd979970db20330c240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 35/85] fix: give the span of a column requested by full and by
 short name under both

---
 src/odc/core/Table.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index d0ff293..c2b0dc4 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -302,8 +302,9 @@ public:  // methods
 
     virtual ~ColumnValuesBase() {}
 
-    virtual void updateSpan(Span& span) = 0;
-    virtual void addValue(double* val)  = 0;
+    virtual void addName(const std::string& name) = 0;
+    virtual void updateSpan(Span& span)           = 0;
+    virtual void addValue(double* val)            = 0;
 };
 
 
@@ -311,13 +312,17 @@ template <typename T>
 class ColumnValues : public ColumnValuesBase {
 public:  // methods
 
-    ColumnValues(const std::string& name) : name_(name) {}
+    ColumnValues(const std::string& name) : names_{name} {}
 
-    void updateSpan(Span& s) override { s.addValues(name_, values_); }
+    void addName(const std::string& name) override { names_.insert(name); }
+    void updateSpan(Span& s) override {
+        for (const std::string& name : names_)
+            s.addValues(name, values_);
+    }
 
 protected:  // members
 
-    std::string name_;
+    std::set<std::string> names_;
     std::set<T> values_;
 };
 
@@ -377,6 +382,13 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
         visitColumn[it->second] = true;
 
+        // The same column may be requested by its full and by its short name
+
+        if (columnValues[it->second]) {
+            columnValues[it->second]->addName(columnName);
+            continue;
+        }
+
         // What do we do with the values?
 
         switch (metadata[it->second]->type()) {
-- 
2.43.0


From 1f623c1ef6df8997d487c98c434db2f9fcf9d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 36/85] fix: give the whole string in the span of a column
 stored as one long string

---
 src/odc/core/Table.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index c2b0dc4..3b907f9 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -271,7 +271,14 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
         if (!column)
             throw UserError("Column '" + columnName + "' not found", Here());
 
-        if (column->isConstant()) {
+        if (column->isConstant() && column->type() == api::STRING) {
+            // n.b. The string does not necessarily fit into the codec's minimum value
+            std::vector<double> buffer(column->dataSizeDoubles());
+            column->coder().decode(buffer.data());
+            const char* c = reinterpret_cast<const char*>(buffer.data());
+            s.addValues(columnName, std::set<std::string>{std::string(c, ::strnlen(c, buffer.size() * sizeof(double)))});
+        }
+        else if (column->isConstant()) {
             s.addValue(columnName, column->type(), column->min());
         }
         else {
-- 
2.43.0


From b7b29bcfb667b813696b3acbec91a1862ff9d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 37/85] fix: return from Writer::rowsBufferSize()

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From 3a85496353e4b94636847f199eaf3b474e6fdcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 38/85] fix: start a new frame when missing values or bitfield
 definitions change while rows are copied

---
 src/odc/WriterBufferingIterator.h |  2 +-
 src/odc/core/MetaData.cc          | 14 ++++++++++++++
 src/odc/core/MetaData.h           |  2 ++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..12ac7ac 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -199,7 +199,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !columns().equalsIncludingDefinitions(it->columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 04b2edc..110fd5b 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -229,6 +229,20 @@ bool MetaData::equals(const MetaData& other, bool compareDataSizes) const {
     return true;
 }
 
+bool MetaData::equalsIncludingDefinitions(const MetaData& other) const {
+    if (!equals(other)) {
+        return false;
+    }
+
+    for (size_t i = 0; i < size(); ++i) {
+        if (at(i)->missingValue() != other[i]->missingValue() || at(i)->bitfieldDef() != other[i]->bitfieldDef()) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 bool MetaData::compatible(const MetaData& other) const {
 
     // Normal case will be equality --> try O[N] check first.
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index e3e7645..f33ac2b 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -54,6 +54,8 @@ public:
     bool operator==(const MetaData&) const;
     bool equals(const MetaData& md, bool compareDataSizes = true) const;
 
+    /// As operator==(), but the missing values and bitfield definitions of the columns must agree as well
+    bool equalsIncludingDefinitions(const MetaData&) const;
     bool equalsIncludingConstants(const MetaData&, const std::vector<std::string>& constColumns) const;
 
     bool operator!=(const MetaData& other) const { return !(*this == other); }
-- 
2.43.0


From 0ce20636614a4834466647e263de6dc2710bd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 39/85] fix: check the sizes of bitfield members in text to be
 imported

---
 src/odc/csv/TextReaderIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..75529b5 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -107,7 +107,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (!(size > 0))
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
-- 
2.43.0


From 7b600a52c58af311eff5d77e01279aa75b6268a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 40/85] fix: do not keep the end of the previous string when
 NULL is imported from text

---
 src/odc/csv/TextReaderIterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 75529b5..6aae173 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -207,6 +207,10 @@ bool TextReaderIterator::next() {
         const std::string& v(S::trim(values[i]));
         if (S::upper(v) == "NULL") {
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+
+            // n.b. Don't keep the end of a long string from the row before
+            for (size_t d = 1; d < columns_[i]->dataSizeDoubles(); ++d)
+                lastValues_[columnOffsets_[i] + d] = 0;
         }
         else {
             api::ColumnType typ(columns()[i]->type());
-- 
2.43.0


From 5ab769c29267397eacde1953780faf939ebb9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 41/85] fix: do not end the import of text at a blank line

---
 src/odc/csv/TextReaderIterator.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 6aae173..f3a60f3 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -191,16 +191,19 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // n.b. Blank lines are skipped. Only the end of the input ends the data.
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
+    do {
+        if (!std::getline(*in_, line)) {
+            noMore_ = true;
+            return false;
+        }
+        line = S::trim(line);
+    } while (line.empty());
+
     std::vector<std::string> values(S::split(delimiter_, line));
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From aa7e0d24167717f426df4d1ae4e2d6d03c656e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 42/85] fix: reject text with several columns of the same name

---
 src/odc/csv/TextReaderIterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index f3a60f3..d25a781 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -145,6 +145,10 @@ void TextReaderIterator::parseHeader() {
         const std::string columnType(
             S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end()))));
 
+        for (const core::Column* other : columns_)
+            if (other->name() == columnName)
+                throw UserError(std::string("Column '") + columnName + "' is defined more than once");
+
         if (!S::startsWith(columnType, "BITFIELD")) {
             LOG_DEBUG_LIB(LibOdc) << "TextReaderIterator::parseHeader: adding column " << columns_.size() << " '"
                                   << columnName << "' : " << columnType << std::endl;
-- 
2.43.0


From 690cb3fc65511eb20d7330b9d305a80945b54507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 43/85] fix: use the delimiter given to odc import without a
 query

---
 src/odc/tools/ImportTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..f8b3001 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -80,7 +80,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From 3953c48eb480735ce44519fccbb2d00c8f285075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 44/85] fix: reject text that is not an integer in INTEGER and
 BITFIELD columns

---
 src/odc/csv/TextReaderIterator.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index d25a781..3aded64 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -14,7 +14,11 @@
 /// @author Piotr Kuchta, Oct 2010
 
 #include <algorithm>
+#include <cerrno>
+#include <cstdint>
+#include <cstdlib>
 #include <fstream>
+#include <limits>
 
 #include "eckit/filesystem/PathName.h"
 #include "eckit/log/Log.h"
@@ -190,6 +194,21 @@ void TextReaderIterator::initRowBuffer() {
         lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();
 }
 
+namespace {
+
+// n.b. Translator<std::string, long> gives zero for text which isn't a number
+long parseInteger(const std::string& s) {
+    char* end;
+    errno      = 0;
+    long value = ::strtol(s.c_str(), &end, 10);
+    if (s.empty() || *end != 0 || errno != 0 || value < std::numeric_limits<int32_t>::min() ||
+        value > std::numeric_limits<int32_t>::max())
+        throw UserError(std::string("Not an integer value: '") + s + "'");
+    return value;
+}
+
+}  // namespace
+
 bool TextReaderIterator::next() {
     newDataset_ = false;
     if (noMore_)
@@ -264,7 +283,7 @@ bool TextReaderIterator::next() {
 
                 case api::INTEGER:
                 case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));
+                    lastValues_[columnOffsets_[i]] = static_cast<double>(parseInteger(v));
                     break;
 
                 default:
-- 
2.43.0


From 23deabd51c6b51d8b4222a0db5637cb002cb5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 45/85] fix: query tables without rows

---
 src/odc/sql/TODATableIterator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..aae479a 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -63,7 +63,8 @@ TODATableIterator<READER>::TODATableIterator(
     metadataUpdateCallback_(metadataUpdateCallback),
     firstRow_(true) {
 
-    if (it_ != end_)
+    // n.b. The columns are known even if there are no rows
+    if (it_->columns().size() != 0)
         updateMetaData();
 }
 
-- 
2.43.0


From 5e58c7405992c36215130e396f5c2c90be830259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 46/85] fix: split rows by full key values, keep all files'
 data and columns when the input changes

---
 src/odc/WriterDispatchingIterator.cc | 248 ++++++++++++++-------------
 src/odc/WriterDispatchingIterator.h  |   7 +-
 2 files changed, 133 insertions(+), 122 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..d294857 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -8,8 +8,15 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
+#include <cstring>
+#include <limits>
+#include <memory>
+#include <sstream>
+
 #include "eckit/log/Log.h"
 #include "eckit/log/Timer.h"
+#include "eckit/utils/StringTools.h"
 #include "eckit/utils/Translator.h"
 
 #include "odc/Comparator.h"
@@ -37,15 +44,14 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     properties_(),
     dispatchedIndexes_(),
     values2iteratorIndex_(),
-    lastDispatch_(maxOpenFiles, -1),
-    iteratorIndex2fileName_(maxOpenFiles),
+    lastDispatch_(),
+    iteratorIndex2fileName_(),
     lastDispatchedValues_(),
-    lastIndex_(),
+    lastIndex_(-1),
     initialized_(false),
     append_(append),
     refCount_(0),
     iterators_(),
-    files_(),
     templateParameters_(),
     maxOpenFiles_(maxOpenFiles),
     filesCreated_() {}
@@ -84,48 +90,32 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::setBitfieldColumn(size_t i
 template <typename WRITE_ITERATOR, typename OWNER>
 std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(const double* values,
                                                                                unsigned long count) {
-    // n.b. Duplicated from eckit::sql::expression::function::FunctionEQ::trimStringInDouble.
-    // Provided as static lambda because this .cc file is included in the header and even when the
-    // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
-    // a warning.
-    //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
-        len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
-            ;
-        for (; len > 0 && isspace(p[len - 1]); --len)
-            ;
-        size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
-            ++p;
-            --len;
-        }
-    };
     std::string fileName(outputFileTemplate_);
     int diff(0);
     for (TemplateParameters::iterator it(templateParameters_.begin()); it != templateParameters_.end(); ++it) {
         TemplateParameter& p(*(*it));
 
-        // TODO: if values collected can be of different type then integer,
-        // then below code must be updated:
-        // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        const Column& column(*columns_[p.columnIndex]);
+        const double* value = &values[columnOffsets_[p.columnIndex]];
         std::string s;
-        if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
-            size_t len(0);
-            trimStringInDouble(sp, len);
-            s = std::string(sp, len);
-            while (s.find("/") != std::string::npos) {
-                std::string old(s);
-                size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
-                // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
-                // << std::endl;
+        if (column.type() == api::STRING) {
+            const char* sp(reinterpret_cast<const char*>(value));
+            s = eckit::StringTools::trim(std::string(sp, ::strnlen(sp, column.dataSizeDoubles() * sizeof(double))));
+            for (size_t pos = s.find("/"); pos != std::string::npos; pos = s.find("/", pos)) {
+                s.replace(pos, 1, "__SLASH__");
             }
         }
+        else if (*value >= std::numeric_limits<int>::min() && *value <= std::numeric_limits<int>::max() &&
+                 *value == int(*value)) {
+            s = eckit::Translator<int, std::string>()(int(*value));
+        }
         else {
-            s = eckit::Translator<int, std::string>()(int(d));
+            // n.b. enough digits that different values have different names
+            std::ostringstream ss;
+            ss.precision(column.type() == api::REAL ? std::numeric_limits<float>::max_digits10
+                                                    : std::numeric_limits<double>::max_digits10);
+            ss << *value;
+            s = ss.str();
         }
 
         fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
@@ -144,26 +134,34 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
     Values dispatchedValues;
-    for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
-
-    if (dispatchedValues == lastDispatchedValues_)
-        return lastIndex_;
+    for (size_t i(0); i < dispatchedIndexes_.size(); ++i) {
+        const size_t index = dispatchedIndexes_[i];
+        dispatchedValues.append(reinterpret_cast<const char*>(&values[columnOffsets_[index]]),
+                                columns_[index]->dataSizeDoubles() * sizeof(double));
+    }
 
-    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
-    size_t iteratorIndex((p != values2iteratorIndex_.end())
-                             ? p->second
-                             : createIterator(dispatchedValues, generateFileName(values, count)));
+    if (lastIndex_ == -1 || dispatchedValues != lastDispatchedValues_) {
+        Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
+        if (p == values2iteratorIndex_.end()) {
+
+            // n.b. Different values can give the same name of a file, and must then share the iterator.
+            const std::string fileName(generateFileName(values, count));
+            std::vector<std::string>::iterator f(
+                std::find(iteratorIndex2fileName_.begin(), iteratorIndex2fileName_.end(), fileName));
+            const int index = (f != iteratorIndex2fileName_.end()) ? f - iteratorIndex2fileName_.begin()
+                                                                    : createIterator(fileName);
+            p = values2iteratorIndex_.insert(std::make_pair(dispatchedValues, index)).first;
+        }
+        lastDispatchedValues_ = dispatchedValues;
+        lastIndex_            = p->second;
+    }
 
-    lastDispatchedValues_        = dispatchedValues;
-    lastIndex_                   = iteratorIndex;
-    lastDispatch_[iteratorIndex] = nrows_;
-    return iteratorIndex;
+    lastDispatch_[lastIndex_] = nrows_;
+    return lastIndex_;
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
-int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
-                                                                     const std::string& fileName) {
+int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::string& fileName) {
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -185,44 +183,34 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         delete iterators_[iteratorIndex];
         iterators_[iteratorIndex] = 0;
 
-        Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
+        for (Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin()); vit != values2iteratorIndex_.end();) {
             if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+                values2iteratorIndex_.erase(vit++);
+            else
+                ++vit;
+        }
+    }
+    else {
+        iterators_.push_back(0);
+        iteratorIndex2fileName_.push_back(std::string());
+        lastDispatch_.push_back(nrows_);
     }
 
     std::string operation;
-    // bool append = false;
-    if (append_ || !eckit::PathName(fileName).exists()) {
-        filesCreated_[fileName] = 1;
-        operation               = "creating";
+    bool append = append_;
+    if (filesCreated_.find(fileName) != filesCreated_.end()) {
+        append    = true;
+        operation = "appending";
     }
     else {
-        if (filesCreated_.find(fileName) == filesCreated_.end()) {
-            filesCreated_[fileName] = 1;
-            operation               = "overwriting";
-        }
-        else {
-            append_ = true;
-            filesCreated_[fileName]++;
-            operation = "appending";
-        }
+        operation = (append_ || !eckit::PathName(fileName).exists()) ? "creating" : "overwriting";
     }
+    filesCreated_[fileName]++;
 
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
-    if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
-        files_.push_back(fileName);
-    }
-    else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
-        files_[iteratorIndex]     = fileName;
-        // ASSERT(files_[iteratorIndex] == fileName);
-    }
-    values2iteratorIndex_[dispatchedValues] = iteratorIndex;
-    iteratorIndex2fileName_[iteratorIndex]  = fileName;
+    iterators_[iteratorIndex]              = iteratorsOwner_.createWriteIterator(fileName, append);
+    iteratorIndex2fileName_[iteratorIndex] = fileName;
 
     // Prop. metadata
     iterators_[iteratorIndex]->columns(columns());
@@ -265,19 +253,33 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     int32_t numDoubles = rowDataSizeDoubles();
     int32_t count      = columns().size();
 
-    lastValues_    = new double[numDoubles];
-    nextRow_       = new double[numDoubles];
+    lastValues_    = new double[numDoubles]();
+    nextRow_       = new double[numDoubles]();
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
-    nrows_ = 0;
+    // The rows that follow are to be written with these columns
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        iterators_[i]->flush();
+        iterators_[i]->columns(columns());
+        iterators_[i]->writeHeader();
+    }
+
+    parseTemplateParameters();
+}
+
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flush() {
+    for (size_t i = 0; i < iterators_.size(); ++i)
+        iterators_[i]->flush();
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -297,6 +299,9 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
     dispatchedIndexes_.clear();
     for (size_t i(0); i < templateParameters_.size(); ++i)
         dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+
+    values2iteratorIndex_.clear();
+    lastIndex_   = -1;
     initialized_ = true;
 }
 
@@ -323,8 +328,7 @@ size_t WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::rowDataSizeDoubles() co
 
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeRow(const double* values, unsigned long count) {
-    if (!initialized_)
-        parseTemplateParameters();
+    ASSERT(initialized_);
 
     WRITE_ITERATOR& wi = dispatch(values, count);
     int rc             = wi.writeRow(values, count);
@@ -414,9 +418,7 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     // Copy columns from the input iterator.
     columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    writeHeader();
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -426,15 +428,9 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (it->isNewDataset() && !columns().equalsIncludingDefinitions(it->columns())) {
             columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
+            writeHeader();
         }
 
         const double* data(it->data());
@@ -450,9 +446,11 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     const std::map<std::string, size_t>& resetColumnSizeDoubles) {
-    for (size_t i = 0; i < iterators_.size(); ++i) {
-        iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
+    for (const auto& kv : resetColumnSizeDoubles) {
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
     }
+
+    writeHeader();
 }
 
 
@@ -466,16 +464,17 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
 
     // Copy columns from the input iterator.
     columns(it->columns());
-
-    vector<Reader*> readers;
-    vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
-        readers.push_back(reader);
-        iterators.push_back(make_pair(reader->begin(), reader->end()));
+    writeHeader();
+
+    typedef Reader::iterator I;
+    vector<std::unique_ptr<Reader>> readers;
+    map<string, std::pair<I, I>> iterators;
+    for (map<string, int>::iterator f(filesCreated_.begin()); f != filesCreated_.end(); ++f) {
+        readers.emplace_back(new Reader(f->first));
+        iterators.insert(make_pair(f->first, make_pair(readers.back()->begin(), readers.back()->end())));
     }
 
-    vector<size_t> rowsRead(files_.size());
+    map<string, size_t> rowsRead;
 
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
@@ -487,16 +486,15 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     for (; it != end; ++i) {
         if (it->isNewDataset() && columns() != it->columns()) {
             columns(it->columns());
-            parseTemplateParameters();
+            writeHeader();
         }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+        const std::string outFileName(generateFileName(it->data(), it->columns().size()));
 
         size_t n(columns().size());
-        typedef Reader::iterator I;
-        std::pair<I, I>& its(iterators[fileIndex]);
-        I &sIt(its.first), sEnd(its.second);
+        ASSERT(iterators.find(outFileName) != iterators.end());
+        std::pair<I, I>& its(iterators.find(outFileName)->second);
+        I &sIt(its.first), &sEnd(its.second);
 
         const MetaData& sMetaData(sIt->columns());
         try {
@@ -508,25 +506,33 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
             bool compareDataSizes = false;
             ASSERT(sMetaData.equals(columns(), compareDataSizes));
 
-            ++rowsRead[fileIndex];
+            ++rowsRead[outFileName];
             const double* const originalData(it->data());
             const double* const outputData(sIt->data());
             comparator.compare(n, originalData, outputData, columns(), sMetaData);
         }
         catch (...) {
             ++numberOfDifferences;
-            Log::info() << "Row " << i << " of input (" << rowsRead[fileIndex] << " of " << outFileName
+            Log::info() << "Row " << i << " of input (" << rowsRead[outFileName] << " of " << outFileName
                         << ") not correct." << endl
                         << endl;
         }
         ++it;
-        ++sIt;
+        if (sIt != sEnd)
+            ++sIt;
     }
     Log::info() << "Number of rows: " << i << ". Total number of differences: " << numberOfDifferences << std::endl;
     ASSERT(!(it != end));
 
-    for (size_t j = 0; j < readers.size(); ++j)
-        delete readers[j];
+    for (map<string, std::pair<I, I>>::iterator i(iterators.begin()); i != iterators.end(); ++i) {
+        if (i->second.first != i->second.second) {
+            ++numberOfDifferences;
+            Log::info() << "Unexpected rows at the end of " << i->first << endl;
+        }
+    }
+
+    if (numberOfDifferences)
+        throw SeriousBug("Split: the output files differ from the input", Here());
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -549,6 +555,10 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
         delete *it;
     }
     iterators_.clear();
+    iteratorIndex2fileName_.clear();
+    lastDispatch_.clear();
+    values2iteratorIndex_.clear();
+    lastIndex_ = -1;
 
     return rc;
 }
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..560837b 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -38,7 +38,7 @@ class TemplateParameters;
 
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
-    typedef std::vector<double> Values;
+    typedef std::string Values;
     typedef std::map<Values, int> Values2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
@@ -94,6 +94,8 @@ public:
     // protected:
     void writeHeader();
 
+    void flush();
+
     int writeRow(const double* values, unsigned long count);
 
     // If we are encoding strings, and the relevant string column size changes, we need
@@ -107,7 +109,7 @@ protected:
     /// Find iterator data should be dispatched to.
     WRITE_ITERATOR& dispatch(const double* values, unsigned long count);
     int dispatchIndex(const double* values, unsigned long count);
-    int createIterator(const Values& dispatchedValues, const std::string& fileName);
+    int createIterator(const std::string& fileName);
 
     std::string generateFileName(const double* values, unsigned long count);
 
@@ -143,7 +145,6 @@ private:
     int refCount_;
 
     Iterators iterators_;
-    std::vector<eckit::PathName> files_;
 
     TemplateParameters templateParameters_;
     int maxOpenFiles_;
-- 
2.43.0


From 2a9af81aa4ef5d570879b882839318a390d0fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 47/85] fix: follow the types and the members of bitfields when
 they change between frames of a query

---
 src/odc/sql/ODAOutput.cc         |  79 ++++++++++++++---------
 src/odc/sql/ODAOutput.h          |   1 +
 src/odc/sql/SQLSelectOutput.cc   |   2 +-
 src/odc/sql/TODATable.cc         | 107 +++++++++++++++++++++----------
 src/odc/sql/TODATable.h          |   3 +
 src/odc/sql/TODATableIterator.cc |   2 +
 src/odc/sql/Types.cc             |  10 +++
 src/odc/sql/Types.h              |   8 +++
 8 files changed, 147 insertions(+), 65 deletions(-)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index b5c0168..2755f2e 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -90,37 +90,11 @@ void ODAOutput<WRITER>::initUpdateTypes(eckit::sql::SQLSelect& sql) {
     if (!initted_) {
         initted_ = true;
         it_      = writer_->begin();
-        it_->setNumberOfColumns(columns.size());
-        columnSizes_.resize(columns.size());
-        missingValues_.resize(columns.size());
-
-        for (size_t i = 0; i < columns.size(); ++i) {
-
-            SQLExpression& c(*columns[i]);
-            api::ColumnType typ = sqlToOdbType(*c.type());
-
-            columnSizes_[i] = sizeof(double);
-            if (typ == BITFIELD) {
-                it_->setBitfieldColumn(i, c.title(), typ, c.bitfieldDef());
-            }
-            else {
-                it_->setColumn(i, c.title(), typ);
-                if (typ == STRING) {
-                    size_t maxlen   = c.type()->size();
-                    columnSizes_[i] = maxlen;
-                    ASSERT(maxlen % sizeof(double) == 0);
-                    it_->columns()[i]->dataSizeDoubles(maxlen / sizeof(double));
-                }
-            }
-            missingValues_[i] = it_->missingValue(i);
-        }
-
-        it_->writeHeader();
-
-        LOG_DEBUG_LIB(LibOdc) << " => ODAOutput: " << std::endl << it_->columns() << std::endl;
+        setColumns(columns);
     }
     else {
 
+        bool changed = false;
         std::map<std::string, size_t> resetColumnSizeDoubles;
 
         for (size_t i = 0; i < columns.size(); ++i) {
@@ -128,10 +102,12 @@ void ODAOutput<WRITER>::initUpdateTypes(eckit::sql::SQLSelect& sql) {
             SQLExpression& c(*columns[i]);
             api::ColumnType typ = sqlToOdbType(*c.type());
 
-            ASSERT(typ == it_->columns()[i]->type());
             ASSERT(c.title() == it_->columns()[i]->name());
 
-            if (typ == STRING) {
+            if (typ != it_->columns()[i]->type() || bitfieldDef(c) != it_->columns()[i]->bitfieldDef()) {
+                changed = true;
+            }
+            else if (typ == STRING) {
                 size_t maxlen = c.type()->size();
                 ASSERT(maxlen % sizeof(double) == 0);
                 size_t sizeDoubles = maxlen / sizeof(double);
@@ -145,14 +121,55 @@ void ODAOutput<WRITER>::initUpdateTypes(eckit::sql::SQLSelect& sql) {
             }
         }
 
+        // The data that follows is not described by the current columns
+
+        if (changed) {
+            (**it_).flush();
+            setColumns(columns);
+        }
+
         // And if we _do_ need to adjust the column sizes...
 
-        if (!resetColumnSizeDoubles.empty()) {
+        else if (!resetColumnSizeDoubles.empty()) {
             it_->flushAndResetColumnSizes(resetColumnSizeDoubles);
         }
     }
 }
 
+template <typename WRITER>
+void ODAOutput<WRITER>::setColumns(const expression::Expressions& columns) {
+
+    it_->setNumberOfColumns(0);
+    it_->setNumberOfColumns(columns.size());
+    columnSizes_.resize(columns.size());
+    missingValues_.resize(columns.size());
+
+    for (size_t i = 0; i < columns.size(); ++i) {
+
+        SQLExpression& c(*columns[i]);
+        api::ColumnType typ = sqlToOdbType(*c.type());
+
+        columnSizes_[i] = sizeof(double);
+        if (typ == BITFIELD) {
+            it_->setBitfieldColumn(i, c.title(), typ, bitfieldDef(c));
+        }
+        else {
+            it_->setColumn(i, c.title(), typ);
+            if (typ == STRING) {
+                size_t maxlen   = c.type()->size();
+                columnSizes_[i] = maxlen;
+                ASSERT(maxlen % sizeof(double) == 0);
+                it_->columns()[i]->dataSizeDoubles(maxlen / sizeof(double));
+            }
+        }
+        missingValues_[i] = it_->missingValue(i);
+    }
+
+    it_->writeHeader();
+
+    LOG_DEBUG_LIB(LibOdc) << " => ODAOutput: " << std::endl << it_->columns() << std::endl;
+}
+
 // Direct output functions removed in order output
 
 template <typename WRITER>
diff --git a/src/odc/sql/ODAOutput.h b/src/odc/sql/ODAOutput.h
index 8fc6bc8..bf43fc0 100644
--- a/src/odc/sql/ODAOutput.h
+++ b/src/odc/sql/ODAOutput.h
@@ -65,6 +65,7 @@ private:  // methods
     virtual unsigned long long count() override;
 
     void initUpdateTypes(eckit::sql::SQLSelect&);
+    void setColumns(const eckit::sql::expression::Expressions&);
 
     // Overridden (and removed) functions
 
diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..84ba7ea 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -180,7 +180,7 @@ void SQLSelectOutput::updateTypes(SQLSelect& sql) {
         metaData_[i]->name(column->title());
         metaData_[i]->type<core::SameByteOrder>(sqlToOdbType(*column->type()));
         metaData_[i]->hasMissing(column->hasMissingValue());
-        metaData_[i]->bitfieldDef(column->bitfieldDef());
+        metaData_[i]->bitfieldDef(bitfieldDef(*column));
         metaData_[i]->dataSizeDoubles(columnSizesDoubles_.back());
 
         // n.b. missing value in the target can be different than for the source. And it can change in the source
diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..9e7db26 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -8,11 +8,15 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
+#include <map>
+#include <memory>
 #include <sstream>
 
 #include "eckit/io/FileHandle.h"
 #include "eckit/sql/SQLColumn.h"
 #include "eckit/sql/SQLTableFactory.h"
+#include "eckit/sql/type/SQLBit.h"
 #include "eckit/sql/type/SQLBitfield.h"
 #include "eckit/utils/StringTools.h"
 #include "eckit/utils/Translator.h"
@@ -61,6 +65,63 @@ class ODAFactory : public eckit::sql::SQLTableFactoryBase {
 
 ODAFactory odaFactoryInstance;
 
+// The types of the members of eckit's SQLBitfield are shared by all bitfields with a column and a member of the same
+// name, although the offsets and the sizes of the members may be different.
+
+class Bitfield : public type::SQLBitfield {
+    mutable std::map<std::string, std::unique_ptr<type::SQLBit>> members_;
+
+    const type::SQLType* subType(const std::string& name) const override {
+
+        // <column>.<member>[@<table>], or just the column
+        const std::string::size_type dot = name.find('.');
+        if (dot == std::string::npos)
+            return this;
+        const std::string member = name.substr(dot + 1, name.find('@', dot) - dot - 1);
+
+        if (std::find(fields().begin(), fields().end(), member) == fields().end())
+            throw UserError("Bitfield member \"" + name + "\" not found", Here());
+
+        std::unique_ptr<type::SQLBit>& bit(members_[member]);
+        if (!bit)
+            bit.reset(new type::SQLBit(name, mask(member), shift(member)));
+        return bit.get();
+    }
+
+    Bitfield(const std::string& name, const BitfieldDef& def) : SQLBitfield(name, def.first, def.second) {}
+
+public:
+
+    static const type::SQLType& lookup(const BitfieldDef& def) {
+        std::ostringstream name;
+        name << "odc::Bitfield[";
+        for (size_t i = 0; i < def.first.size(); ++i)
+            name << def.first[i] << ":" << def.second[i] << ";";
+        name << "]";
+        if (!exists(name.str()))
+            registerType(new Bitfield(name.str(), def));
+        return SQLType::lookup(name.str());
+    }
+};
+
+const type::SQLType& sqlType(const Column& column, size_t sizeDoubles) {
+
+    switch (column.type()) {
+        case INTEGER:
+            return type::SQLType::lookup("integer", sizeDoubles);
+        case STRING:
+            return type::SQLType::lookup("string", sizeDoubles);
+        case REAL:
+            return type::SQLType::lookup("real", sizeDoubles);
+        case DOUBLE:
+            return type::SQLType::lookup("double", sizeDoubles);
+        case BITFIELD:
+            return Bitfield::lookup(column.bitfieldDef());
+        default:
+            throw SeriousBug("Unknown type: " + Translator<int, std::string>()(column.type()), Here());
+    }
+}
+
 }  // namespace
 
 //---------------------------------------------------------------------------------------------------------------------
@@ -92,39 +153,8 @@ void TODATable<READER>::populateMetaData() {
     for (size_t i = 0; i < count; i++) {
         Column& column(*it->columns()[i]);
 
-        const std::string name(column.name());
-        bool hasMissing(column.hasMissing());
-        double missing(column.missingValue());
-        BitfieldDef bitfieldDef(column.bitfieldDef());
-
-        std::string sqlType;
-        size_t typeSizeDoubles = it->dataSizeDoubles(i);
-
-        switch (column.type()) {
-            case INTEGER:
-                sqlType = "integer";
-                break;
-            case STRING:
-                sqlType = "string";
-                break;
-            case REAL:
-                sqlType = "real";
-                break;
-            case DOUBLE:
-                sqlType = "double";
-                break;
-            case BITFIELD: {
-                std::string typeSignature =
-                    type::SQLBitfield::make("Bitfield", bitfieldDef.first, bitfieldDef.second, "DummyTypeAlias");
-                addColumn(name, i, type::SQLType::lookup(typeSignature), hasMissing, missing, true, bitfieldDef);
-                continue;
-            }
-            default:
-                throw SeriousBug("Unknown type: " + Translator<int, std::string>()(column.type()), Here());
-        }
-
-        addColumn(name, i, type::SQLType::lookup(sqlType, typeSizeDoubles), hasMissing, missing,
-                  column.type() == BITFIELD, bitfieldDef);
+        addColumn(column.name(), i, sqlType(column, it->dataSizeDoubles(i)), column.hasMissing(), column.missingValue(),
+                  column.type() == BITFIELD, column.bitfieldDef());
     }
 }
 
@@ -232,6 +262,17 @@ const SQLColumn& TODATable<READER>::column(const std::string& name) const {
     return *column;
 }
 
+template <typename READER>
+void TODATable<READER>::updateColumnType(const SQLColumn& sqlColumn, const Column& column, size_t sizeDoubles) const {
+
+    const bool isString = sqlColumn.type().getKind() == type::SQLType::stringType;
+    if (isString != (column.type() == STRING)) {
+        throw UserError("Column \"" + sqlColumn.name() + "\" changes between strings and numbers", Here());
+    }
+
+    const_cast<SQLColumn&>(sqlColumn).updateType(sqlType(column, sizeDoubles));
+}
+
 template <typename READER>
 SQLTableIterator* TODATable<READER>::iterator(
     const std::vector<std::reference_wrapper<const eckit::sql::SQLColumn>>& columns,
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..2e7c2e1 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -36,6 +36,9 @@ public:
 
     const READER& oda() const;
 
+    /// Follow the type (or the members of a bitfield) of a column where it is different in the next frame
+    void updateColumnType(const eckit::sql::SQLColumn& sqlColumn, const core::Column& column, size_t sizeDoubles) const;
+
 private:  // methods
 
     void populateMetaData();
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index aae479a..4959b7c 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -117,6 +117,8 @@ void TODATableIterator<READER>::updateMetaData() {
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
 
+        parent_.updateColumnType(col, *md[idx], it_->dataSizeDoubles(idx));
+
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
         columnsHaveMissing_.push_back(it_->hasMissing(idx));
diff --git a/src/odc/sql/Types.cc b/src/odc/sql/Types.cc
index 90bd979..5eaae56 100644
--- a/src/odc/sql/Types.cc
+++ b/src/odc/sql/Types.cc
@@ -9,6 +9,8 @@
  */
 
 #include "eckit/exception/Exceptions.h"
+#include "eckit/sql/expression/SQLExpression.h"
+#include "eckit/sql/type/SQLBitfield.h"
 #include "eckit/sql/type/SQLType.h"
 #include "eckit/utils/Translator.h"
 
@@ -46,6 +48,14 @@ ColumnType sqlToOdbType(const SQLType& t) {
     return IGNORE;
 }
 
+eckit::sql::BitfieldDef bitfieldDef(const eckit::sql::expression::SQLExpression& e) {
+
+    if (e.type()->getKind() != SQLType::bitmapType)
+        return eckit::sql::BitfieldDef();
+
+    const SQLBitfield* type = dynamic_cast<const SQLBitfield*>(e.type());
+    return type ? type->bitfieldDef() : e.bitfieldDef();
+}
 
 //----------------------------------------------------------------------------------------------------------------------
 
diff --git a/src/odc/sql/Types.h b/src/odc/sql/Types.h
index a08b276..067cc35 100644
--- a/src/odc/sql/Types.h
+++ b/src/odc/sql/Types.h
@@ -14,10 +14,15 @@
 #ifndef odc_sql_Types_H
 #define odc_sql_Types_H
 
+#include "eckit/sql/SQLTypedefs.h"
+
 #include "odc/api/ColumnType.h"
 
 namespace eckit {
 namespace sql {
+namespace expression {
+class SQLExpression;
+}
 namespace type {
 class SQLType;
 }
@@ -31,6 +36,9 @@ namespace sql {
 
 odc::api::ColumnType sqlToOdbType(const eckit::sql::type::SQLType& t);
 
+/// The members of the values of an expression. n.b. these can change between the frames of the source
+eckit::sql::BitfieldDef bitfieldDef(const eckit::sql::expression::SQLExpression& e);
+
 //----------------------------------------------------------------------------------------------------------------------
 
 }  // namespace sql
-- 
2.43.0


From 83a6596047e43a0c9c4ce5a8c6e4813ca1ef1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 48/85] fix: ordered query results with strings wider than
 those of the last frame

---
 src/odc/sql/ODAOutput.cc       | 86 +++++++++++++++++++++-------------
 src/odc/sql/ODAOutput.h        |  3 +-
 src/odc/sql/SQLSelectOutput.cc | 57 ++++++++++++++++++++--
 src/odc/sql/SQLSelectOutput.h  |  4 ++
 4 files changed, 113 insertions(+), 37 deletions(-)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index 2755f2e..9b43866 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -61,6 +61,10 @@ void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
 template <typename WRITER>
 bool ODAOutput<WRITER>::output(const expression::Expressions& results) {
     size_t nCols(results.size());
+
+    // n.b. rows that were cached (e.g. to order them) can have other types than the current part of the source
+    updateColumns(results);
+
     for (col_ = 0; col_ < nCols; ++col_) {
         results[col_]->output(*this);
     }
@@ -90,54 +94,70 @@ void ODAOutput<WRITER>::initUpdateTypes(eckit::sql::SQLSelect& sql) {
     if (!initted_) {
         initted_ = true;
         it_      = writer_->begin();
-        setColumns(columns);
+
+        std::vector<std::string> names;
+        for (size_t i = 0; i < columns.size(); ++i) {
+            names.push_back(columns[i]->title());
+        }
+        setColumns(names, columns);
     }
     else {
+        for (size_t i = 0; i < columns.size(); ++i) {
+            ASSERT(columns[i]->title() == it_->columns()[i]->name());
+        }
+        updateColumns(columns);
+    }
+}
 
-        bool changed = false;
-        std::map<std::string, size_t> resetColumnSizeDoubles;
+template <typename WRITER>
+void ODAOutput<WRITER>::updateColumns(const expression::Expressions& columns) {
 
-        for (size_t i = 0; i < columns.size(); ++i) {
+    bool changed = false;
+    std::map<std::string, size_t> resetColumnSizeDoubles;
 
-            SQLExpression& c(*columns[i]);
-            api::ColumnType typ = sqlToOdbType(*c.type());
+    for (size_t i = 0; i < columns.size(); ++i) {
 
-            ASSERT(c.title() == it_->columns()[i]->name());
+        const SQLExpression& c(*columns[i]);
+        const Column& current(*it_->columns()[i]);
+        api::ColumnType typ = sqlToOdbType(*c.type());
 
-            if (typ != it_->columns()[i]->type() || bitfieldDef(c) != it_->columns()[i]->bitfieldDef()) {
-                changed = true;
-            }
-            else if (typ == STRING) {
-                size_t maxlen = c.type()->size();
-                ASSERT(maxlen % sizeof(double) == 0);
-                size_t sizeDoubles = maxlen / sizeof(double);
-                if (sizeDoubles > it_->columns()[i]->dataSizeDoubles()) {
-                    columnSizes_[i]                   = maxlen;
-                    resetColumnSizeDoubles[c.title()] = sizeDoubles;
-                }
-            }
-            else {
-                ASSERT(it_->columns()[i]->dataSizeDoubles() == 1);
+        if (typ != current.type() || (typ == BITFIELD && bitfieldDef(c) != current.bitfieldDef())) {
+            changed = true;
+        }
+        else if (typ == STRING) {
+            size_t maxlen = c.type()->size();
+            ASSERT(maxlen % sizeof(double) == 0);
+            size_t sizeDoubles = maxlen / sizeof(double);
+            if (sizeDoubles > current.dataSizeDoubles()) {
+                columnSizes_[i]                        = maxlen;
+                resetColumnSizeDoubles[current.name()] = sizeDoubles;
             }
         }
+        else {
+            ASSERT(current.dataSizeDoubles() == 1);
+        }
+    }
 
-        // The data that follows is not described by the current columns
+    // The data that follows is not described by the current columns
 
-        if (changed) {
-            (**it_).flush();
-            setColumns(columns);
+    if (changed) {
+        std::vector<std::string> names;
+        for (size_t i = 0; i < columns.size(); ++i) {
+            names.push_back(it_->columns()[i]->name());
         }
+        (**it_).flush();
+        setColumns(names, columns);
+    }
 
-        // And if we _do_ need to adjust the column sizes...
+    // And if we _do_ need to adjust the column sizes...
 
-        else if (!resetColumnSizeDoubles.empty()) {
-            it_->flushAndResetColumnSizes(resetColumnSizeDoubles);
-        }
+    else if (!resetColumnSizeDoubles.empty()) {
+        it_->flushAndResetColumnSizes(resetColumnSizeDoubles);
     }
 }
 
 template <typename WRITER>
-void ODAOutput<WRITER>::setColumns(const expression::Expressions& columns) {
+void ODAOutput<WRITER>::setColumns(const std::vector<std::string>& names, const expression::Expressions& columns) {
 
     it_->setNumberOfColumns(0);
     it_->setNumberOfColumns(columns.size());
@@ -146,15 +166,15 @@ void ODAOutput<WRITER>::setColumns(const expression::Expressions& columns) {
 
     for (size_t i = 0; i < columns.size(); ++i) {
 
-        SQLExpression& c(*columns[i]);
+        const SQLExpression& c(*columns[i]);
         api::ColumnType typ = sqlToOdbType(*c.type());
 
         columnSizes_[i] = sizeof(double);
         if (typ == BITFIELD) {
-            it_->setBitfieldColumn(i, c.title(), typ, bitfieldDef(c));
+            it_->setBitfieldColumn(i, names[i], typ, bitfieldDef(c));
         }
         else {
-            it_->setColumn(i, c.title(), typ);
+            it_->setColumn(i, names[i], typ);
             if (typ == STRING) {
                 size_t maxlen   = c.type()->size();
                 columnSizes_[i] = maxlen;
diff --git a/src/odc/sql/ODAOutput.h b/src/odc/sql/ODAOutput.h
index bf43fc0..8f2aec1 100644
--- a/src/odc/sql/ODAOutput.h
+++ b/src/odc/sql/ODAOutput.h
@@ -65,7 +65,8 @@ private:  // methods
     virtual unsigned long long count() override;
 
     void initUpdateTypes(eckit::sql::SQLSelect&);
-    void setColumns(const eckit::sql::expression::Expressions&);
+    void updateColumns(const eckit::sql::expression::Expressions&);
+    void setColumns(const std::vector<std::string>& names, const eckit::sql::expression::Expressions&);
 
     // Overridden (and removed) functions
 
diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 84ba7ea..394482f 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -72,6 +72,7 @@ void SQLSelectOutput::flush() {}
 
 bool SQLSelectOutput::output(const expression::Expressions& results) {
     ASSERT(results.size() == columnSizesDoubles_.size());
+    updateColumns(results);
     pos_ = out_;
     for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size(); currentColumn_++) {
         results[currentColumn_]->output(*this);
@@ -190,15 +191,65 @@ void SQLSelectOutput::updateTypes(SQLSelect& sql) {
         missingValues_.push_back(metaData_[i]->missingValue());
     }
 
+    allocate();
+}
+
+void SQLSelectOutput::updateColumns(const expression::Expressions& results) {
+
+    // n.b. rows that were cached (e.g. to order them) can have other types than the current part of the source
+
+    bool changed = false;
+
+    for (size_t i = 0; i < results.size(); i++) {
+
+        core::Column& column(*metaData_[i]);
+        const api::ColumnType type = sqlToOdbType(*results[i]->type());
+        size_t sizeDoubles         = results[i]->type()->size() / 8;
+        if (type == api::STRING)
+            sizeDoubles = std::max(sizeDoubles, columnSizesDoubles_[i]);
+
+        if (type != column.type() || sizeDoubles != columnSizesDoubles_[i] ||
+            (type == api::BITFIELD && bitfieldDef(*results[i]) != column.bitfieldDef())) {
+
+            // n.b. without a buffer of our own, wider strings are an error later on
+            if (!manageOwnBuffer_ && sizeDoubles != columnSizesDoubles_[i])
+                return;
+
+            const bool hasMissing = column.hasMissing();
+            column.type<core::SameByteOrder>(type);
+            column.hasMissing(hasMissing);
+            column.bitfieldDef(bitfieldDef(*results[i]));
+            column.dataSizeDoubles(sizeDoubles);
+            columnSizesDoubles_[i] = sizeDoubles;
+            missingValues_[i]      = column.missingValue();
+            changed                = true;
+        }
+    }
+
+    if (changed) {
+        offsets_.clear();
+        size_t offset = 0;
+        for (size_t size : columnSizesDoubles_) {
+            offsets_.push_back(offset);
+            offset += size;
+        }
+        isNewDataset_        = true;
+        newDatasetOutputted_ = false;
+        allocate();
+    }
+}
+
+void SQLSelectOutput::allocate() {
+
     requiredBufferSize_ = std::accumulate(columnSizesDoubles_.begin(), columnSizesDoubles_.end(), 0);
 
     // Buffer allocation if necessary
 
     if (manageOwnBuffer_) {
-        data_.resize(offset);
+        data_.resize(requiredBufferSize_);
         pos_ = out_     = &data_[0];
-        end_            = pos_ + offset;
-        bufferElements_ = offset;
+        end_            = pos_ + requiredBufferSize_;
+        bufferElements_ = requiredBufferSize_;
 
         // If a buffer is being provided at the time of doing each request, then we need to
         // test against the buffer size then, not now.
diff --git a/src/odc/sql/SQLSelectOutput.h b/src/odc/sql/SQLSelectOutput.h
index 21bf7d4..cb3470e 100644
--- a/src/odc/sql/SQLSelectOutput.h
+++ b/src/odc/sql/SQLSelectOutput.h
@@ -67,6 +67,10 @@ private:  // utility
 
     void outputNumber(double val, bool missing);
 
+    /// Ensure that the columns describe the row about to be output
+    void updateColumns(const eckit::sql::expression::Expressions&);
+    void allocate();
+
 private:  // methods (overrides)
 
     virtual void print(std::ostream&) const;
-- 
2.43.0


From 9467d003bcd530dc21d33b02e83d289567f40c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 49/85] fix: filter all tables of an aggregated frame with the
 empty query

---
 src/odc/api/Odb.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index c12bd15..b911d9d 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -428,7 +428,11 @@ public:
 
         bool includeHeader = true;
         buffer_            = tables_[0].readEncodedData(includeHeader);
-        return buffer_.size();
+
+        Length total(0);
+        for (const core::Table& table : tables_)
+            total += table.nextPosition() - table.startPosition();
+        return total;
     }
 
     void close() override {}
-- 
2.43.0


From 555496b17243f5c9f4e60f65af1ed2c0d0053580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 50/85] fix: sort all data of files with large tables in 'odc
 split -sort'

---
 src/odc/tools/SplitTool.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..d3a00bc 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -86,16 +86,18 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
         if (currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
-            r.push_back(make_pair(currentOffset, currentLength));
+            if (currentLength != Length(0))
+                r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
-    if (r.size() == 0 || r.back().first != currentOffset)
+    if (currentLength != Length(0))
         r.push_back(make_pair(currentOffset, currentLength));
     return r;
 }
-- 
2.43.0


From b369c7cbb044169394ceb7c6d4cc247390ca075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 51/85] fix: open the input of 'odc split -sort' only once

---
 src/odc/tools/SplitTool.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index d3a00bc..3c4b03c 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -128,7 +128,6 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
         AutoClose closer(h);
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
-- 
2.43.0


From 6b598d70709d0e210b9f24883df58ad2b37224f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 52/85] fix: keep the columns of all parts of the file in 'odc
 split -sort'

---
 src/odc/tools/SplitTool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 3c4b03c..99e3b47 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -61,6 +61,8 @@ void SplitTool::run() {
 }
 
 /**
+ * The tables of a chunk all have the same columns, so that all of these can be selected.
+ *
  * @param maxExpandedSize maximum size of the data in chunks after decoding
  */
 vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_t maxExpandedSize) {
@@ -74,6 +76,7 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
     Offset currentOffset(0);
     Length currentLength(0);
     size_t currentSize(0);
+    core::MetaData currentColumns;
 
     for (; it != end; ++it) {
         Offset offset(it->startPosition());
@@ -84,13 +87,16 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        bool sameColumns(it->columns().equalsIncludingDefinitions(currentColumns));
+        if (currentSize + size > maxExpandedSize || !sameColumns) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             if (currentLength != Length(0))
                 r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
             currentSize   = size;
+            if (!sameColumns)
+                currentColumns = it->columns();
         }
         else {
             currentLength += length;
-- 
2.43.0


From 24bbb5ab25eee9052ff92836cb880c0857387ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 53/85] fix: merge full strings and inputs whose columns
 change, report different numbers of rows

---
 src/odc/tools/MergeTool.cc | 63 +++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..a18e47f 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,9 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <algorithm>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -73,37 +76,61 @@ void MergeTool::run() {
         merge(inputFiles_, sql_, outputFile_);
 }
 
-template <typename T, typename I>
-void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
-    odc::Writer<> writer(outputFile);
-    odc::Writer<>::iterator out(writer.begin());
-
+template <typename I>
+MetaData mergeColumns(std::vector<std::pair<I, I>>& iterators) {
+    MetaData columns;
     for (size_t i = 0; i < iterators.size(); ++i) {
-        MetaData columns(iterators[i].first->columns());
+        const MetaData& in(iterators[i].first->columns());
 
-        for (size_t i = 0; i < columns.size(); ++i)
-            if (out->columns().hasColumn(columns[i]->name()))
-                throw eckit::UserError(std::string("Column '") + columns[i]->name() +
+        for (size_t j = 0; j < in.size(); ++j)
+            if (columns.hasColumn(in[j]->name()))
+                throw eckit::UserError(std::string("Column '") + in[j]->name() +
                                        "' occurs in more than one input file of merge.");
-        MetaData md(out->columns());
-        md += columns;
-        out->columns(md);
-        // out->columns() += columns;
+        columns += in;
     }
+    return columns;
+}
+
+template <typename T, typename I>
+void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
+    odc::Writer<> writer(outputFile);
+    odc::Writer<>::iterator out(writer.begin());
 
+    out->columns(mergeColumns(iterators));
     out->writeHeader();
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
     for (;;) {
+        size_t ended    = 0;
+        bool newDataset = false;
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
+            if (!(iterators[ii].first != iterators[ii].second)) {
+                Log::info() << "Input file number " << ii << " ended." << std::endl;
+                ++ended;
+            }
+            else if (iterators[ii].first->isNewDataset())
+                newDataset = true;
+        }
+        if (ended == iterators.size())
+            return;
+        if (ended != 0)
+            throw eckit::UserError("The input files of merge have different numbers of rows.");
+
+        if (newDataset) {
+            MetaData columns(mergeColumns(iterators));
+            if (!out->columns().equalsIncludingDefinitions(columns)) {
+                (**out).flush();
+                out->columns(columns);
+                out->writeHeader();
+            }
+        }
+
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
-            I& inEnd(iterators[ii].second);
-            if (!(in != inEnd))
-                return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
+            for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                std::copy_n(&(*in)[cn], in->dataSizeDoubles(cn), &out->data(i));
             }
             ++in;
         }
-- 
2.43.0


From 6004af4b8156d0b262400478ac9937fc48e11c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 54/85] fix: do not compare the flags of differently divided
 frames when compact and fixrowsize verify

---
 src/odc/tools/CompactTool.cc      | 5 ++++-
 src/odc/tools/FixedSizeRowTool.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..1bf9b47 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,10 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    // Frames in the source/output will have different sizes, so the hasMissing() value may differ.
+    // Only compare the values
+    bool skipTestingHaveMissing = true;
+    odc::Comparator comparator(skipTestingHaveMissing);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..abb0c0f 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,10 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    // Frames in the source/output will have different sizes, so the hasMissing() value may differ.
+    // Only compare the values
+    bool skipTestingHaveMissing = true;
+    odc::Comparator comparator(skipTestingHaveMissing);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From ae727a890a50ccfd313343d9bba786a03a443a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 55/85] fix: write rows of the same size in fixrowsize

---
 src/odc/WriterBufferingIterator.cc | 2 +-
 src/odc/WriterBufferingIterator.h  | 5 +++++
 src/odc/tools/FixedSizeRowTool.cc  | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 4125916..c6f296d 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -230,7 +230,7 @@ int WriterBufferingIterator::doWriteRow(core::DataStream<core::SameByteOrder>& s
 
     // BUG: First row may not be properly encoded if it is zero.
     uint16_t k = 0;
-    for (; k < columns().size(); ++k) {
+    for (; !fixedSizeRows_ && k < columns().size(); ++k) {
         if (::memcmp(&values[columnOffsets_[k]], &lastValues_[columnOffsets_[k]], columnByteSizes_[k]) != 0)
             break;
     }
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 12ac7ac..f74361b 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -107,6 +107,9 @@ public:
     size_t rowsBufferSize() { return rowsBufferSize_; }
     void rowsBufferSize(size_t n) { rowsBufferSize_ = n; }
 
+    /// Encode all columns of every row, including those which have not changed since the row before
+    void fixedSizeRows(bool fixed) { fixedSizeRows_ = fixed; }
+
     void flush();
 
     std::vector<eckit::PathName> outputFiles();
@@ -171,6 +174,8 @@ private:
 
     bool openDataHandle_;
 
+    bool fixedSizeRows_ = false;
+
     friend class IteratorProxy<WriterBufferingIterator, Owner>;
 };
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index abb0c0f..5638f7a 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -42,6 +42,7 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator it  = in.begin();
     odc::Reader::iterator end = in.end();
     odc::Writer<>::iterator outIt(out.begin());
+    (**outIt).fixedSizeRows(true);
     outIt->pass1(it, end);
 
     odc::Reader outReader(outFile);
-- 
2.43.0


From d9d62b2b1b5144891093c35f718094ed3da932be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 56/85] fix: compare integers exactly, and infinite values as
 equal to themselves

---
 src/odc/Comparator.cc | 3 +++
 src/odc/Comparator.h  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 2f2641f..8e0fe19 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -167,6 +167,9 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                     }
                     case INTEGER:
                     case BITFIELD:
+                        if (*pdata1 != *pdata2)
+                            raiseNotEqual(column, *pdata1, *pdata2);
+                        break;
                     case DOUBLE:
                         if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))
                             raiseNotEqual(column, *pdata1, *pdata2);
diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..9ea62e4 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -68,6 +68,10 @@ public:
     inline static double err(double A, double B) {
         double relativeError;
 
+        // n.b. the difference of infinite values is not a number
+        if (A == B)
+            return 0;
+
         if (fabs(A) <= maxAbsoluteError || fabs(B) <= maxAbsoluteError)
             relativeError = fabs(A - B);
         else if (fabs(B) > fabs(A))
-- 
2.43.0


From 01fdcbf1be5caae9b95b012039368b22e2b74cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 57/85] fix: do not compare missing values with the option
 -dontCheckMissing of compare

---
 src/odc/Comparator.cc        | 9 ++++++---
 src/odc/Comparator.h         | 5 ++++-
 src/odc/tools/CompareTool.cc | 6 ++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 8e0fe19..33b57b1 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -41,8 +41,11 @@ public:
 
 namespace odc {
 
-Comparator::Comparator(bool skipTestingHaveMissing) :
-    skipTestingHaveMissing_(skipTestingHaveMissing), nRow_(0), NaN_isOK_(Resource<bool>("$odc_NAN_IS_OK", false)) {}
+Comparator::Comparator(bool skipTestingHaveMissing, bool skipMissing) :
+    skipTestingHaveMissing_(skipTestingHaveMissing),
+    skipMissing_(skipMissing),
+    nRow_(0),
+    NaN_isOK_(Resource<bool>("$odc_NAN_IS_OK", false)) {}
 
 
 void Comparator::compare(const PathName& p1, const PathName& p2) {
@@ -141,7 +144,7 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                 isMissing2                      = (*punned_val2 == *punned_missing2);
             }
 
-            if (isMissing1 != isMissing2) {
+            if (isMissing1 != isMissing2 && !skipMissing_) {
                 raiseNotEqual(column, *pdata1, *pdata2);
             }
 
diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 9ea62e4..8ec58e8 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -37,7 +37,9 @@ const double maxRelativeError = 1e-9;
 class Comparator {
 public:
 
-    Comparator(bool skipTestingHaveMissing = false);
+    /// @param skipTestingHaveMissing do not compare whether columns are flagged as having missing values
+    /// @param skipMissing do not compare values which are missing in either of the files
+    Comparator(bool skipTestingHaveMissing = false, bool skipMissing = false);
 
     void operator()() { run(); }
     void run();
@@ -88,6 +90,7 @@ public:
 private:
 
     bool skipTestingHaveMissing_;
+    bool skipMissing_;
     long nRow_;
     bool NaN_isOK_;
 };
diff --git a/src/odc/tools/CompareTool.cc b/src/odc/tools/CompareTool.cc
index 8d77eb5..029e73b 100644
--- a/src/odc/tools/CompareTool.cc
+++ b/src/odc/tools/CompareTool.cc
@@ -70,8 +70,10 @@ void CompareTool::run() {
         Log::info() << "excludedColumns:" << excludedColumns << std::endl;
     }
 
-    bool checkMissing = !optionIsSet("-dontCheckMissing");
-    odc::Comparator(checkMissing).compare(it1, end1, it2, end2, file1_, file2_, excludedColumnsTypes, excludedColumns);
+    // The frames of the files may be different, and so may be the hasMissing() values. Only compare the values
+    bool skipTestingHaveMissing = true;
+    bool skipMissing            = optionIsSet("-dontCheckMissing");
+    odc::Comparator(skipTestingHaveMissing, skipMissing).compare(it1, end1, it2, end2, file1_, file2_, excludedColumnsTypes, excludedColumns);
 }
 
 }  // namespace tool
-- 
2.43.0


From d20240abf0dbef8bc144c93819225b35220cf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 58/85] fix: join frames with strings whatever missing value
 their columns declare

---
 src/odc/core/MetaData.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 110fd5b..b6cc462 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -235,7 +235,9 @@ bool MetaData::equalsIncludingDefinitions(const MetaData& other) const {
     }
 
     for (size_t i = 0; i < size(); ++i) {
-        if (at(i)->missingValue() != other[i]->missingValue() || at(i)->bitfieldDef() != other[i]->bitfieldDef()) {
+        // n.b. There are no missing strings
+        if ((at(i)->type() != api::STRING && at(i)->missingValue() != other[i]->missingValue()) ||
+            at(i)->bitfieldDef() != other[i]->bitfieldDef()) {
             return false;
         }
     }
-- 
2.43.0


From 7509201247c34191bf7652d95c721abfdcefc179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 59/85] fix: set values in files with string columns wider than
 8 bytes (odc set)

---
 src/odc/ODAUpdatingIterator.cc | 30 ++++++++++++++++++++++--------
 src/odc/ODAUpdatingIterator.h  |  2 ++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..8cb7ce7 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -26,29 +26,41 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     columnIndices_(columns.size()),
     values_(values),
     data_(0),
+    rowDataSizeDoubles_(0),
     refCount_(0),
     noMore_(false) {
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
-    update();
+    copyRow();
 }
 
 template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. string columns may be wider than one double
+
+    rowDataSizeDoubles_ = 0;
+    for (const auto& column : md)
+        rowDataSizeDoubles_ += column->dataSizeDoubles();
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = new double[rowDataSizeDoubles_];
 
     for (size_t i = 0; i < columns_.size(); ++i)
         columnIndices_[i] = md.columnIndex(columns_[i]);
 }
 
+template <typename T>
+void ODAUpdatingIterator<T>::copyRow() {
+    std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
+    update();
+}
+
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), columnIndices_(), values_(), data_(0), rowDataSizeDoubles_(0), refCount_(0), noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +69,11 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnIndices_.size(); ++i) {
+        double* cell = data_ + ii_->dataOffset(columnIndices_[i]);
+        std::fill(cell, cell + ii_->columns()[columnIndices_[i]]->dataSizeDoubles(), 0);
+        *cell = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,8 +91,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
-        update();
+        copyRow();
     }
     noMore_ = !r;
     return r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..8a450e9 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -56,6 +56,7 @@ private:
     ODAUpdatingIterator(const ODAUpdatingIterator&);
     ODAUpdatingIterator& operator=(const ODAUpdatingIterator&);
 
+    void copyRow();
     void update();
     void updateIndices();
 
@@ -68,6 +69,7 @@ private:
     const std::vector<double> values_;
 
     double* data_;
+    size_t rowDataSizeDoubles_;
 
 public:
 
-- 
2.43.0


From c3d79dba44f2cd5a79d4f535c2e781b87ee03343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 60/85] fix: mdset ignored long constant strings, values with
 '=' and bitfield definitions without an error

---
 src/odc/tools/MDSetTool.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..6cf6c9b 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -77,13 +77,17 @@ void MDSetTool::run() {
             Column& c(*md[md.columnIndex(columns[i])]);
             Log::info() << "" << columns[i] << ": " << c << endl;
 
-            if (types[i].size() && types[i] != "NONE")
-                c.type(Column::type(types[i]));
-            if (bitfieldDefs[i].first.size())
+            if (bitfieldDefs[i].first.size()) {
+                if (c.type() != api::BITFIELD)
+                    throw UserError("Column '" + columns[i] + "' is not a bitfield");
                 c.bitfieldDef(bitfieldDefs[i]);
+            }
+            else if (types[i].size() && types[i] != "NONE")
+                c.type(Column::type(types[i]));
             if (values[i].size() && values[i] != "NONE") {
                 Codec& codec(c.coder());
-                if (codec.name().find("constant") == std::string::npos) {
+                // n.b. a long_constant_string does not hold its value in the minimum
+                if (codec.name().find("constant") == std::string::npos || codec.name() == "long_constant_string") {
                     stringstream ss;
                     ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                     throw UserError(ss.str());
@@ -125,17 +129,21 @@ void MDSetTool::parseUpdateList(const std::string& s, std::vector<std::string>&
                                 std::vector<eckit::sql::BitfieldDef>& bitfieldDefs) {
     std::vector<std::string> assignments(S::split(",", s));
     for (size_t i = 0; i < assignments.size(); ++i) {
-        vector<string> assignment(S::split("=", assignments[i]));
-        string value(assignment.size() == 2 ? assignment[1] : "NONE");
-        vector<string> columnNameAndType(S::split(":", assignment[0]));
-        string type(columnNameAndType.size() == 2 ? columnNameAndType[1] : "NONE");
-        string column(columnNameAndType[0]);
+        // n.b. the value may contain '=', and the type may be a bitfield definition [name:size;...]
+        const size_t equals = assignments[i].find('=');
+        const string target(assignments[i].substr(0, equals));
+        string value(equals != string::npos ? assignments[i].substr(equals + 1) : "NONE");
+        const size_t colon = target.find(':');
+        string type(colon != string::npos ? target.substr(colon + 1) : "NONE");
+        string column(target.substr(0, colon));
 
         eckit::sql::BitfieldDef bf;
         if (type.size() && type[0] == '[' && type[type.size() - 1] == ']') {
             std::vector<std::string> parts(StringTools::split(";", type.substr(1, type.size() - 2)));
             for (size_t p = 0; p < parts.size(); ++p) {
                 std::vector<std::string> field(S::split(":", parts[p]));
+                if (field.size() != 2 || atoi(field[1].c_str()) <= 0)
+                    throw UserError("Invalid bitfield definition '" + parts[p] + "'");
                 bf.first.push_back(field[0]);
                 bf.second.push_back(atoi(field[1].c_str()));
             }
-- 
2.43.0


From fb1645fffad74a57752567df61854463c22de617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 61/85] fix: mdset took failed writes for success

---
 src/odc/tools/MDSetTool.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 6cf6c9b..22a3499 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -51,6 +51,14 @@ void MDSetTool::usage(const std::string& name, std::ostream& o) {
 
 MDSetTool::MDSetTool(int argc, char* parameters[]) : Tool(argc, parameters) {}
 
+static void write(DataHandle& out, const void* data, long size) {
+    if (out.write(data, size) != size) {
+        std::stringstream ss;
+        ss << out;
+        throw WriteError(ss.str());
+    }
+}
+
 void MDSetTool::run() {
     if (parameters().size() != 4) {
         Log::error() << "Usage: ";
@@ -108,17 +116,18 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        write(*outHandle, encodedData.data(), sizeOfEncodedData);
     }
+    outHandle->close();
 }
 
 //
-- 
2.43.0


From c1ae3d2b16fd02342a84491e2518b36a7ed73786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 62/85] fix: text output of tools that could not be written was
 taken for success

---
 src/odc/tools/LSTool.cc                | 3 +++
 src/odc/tools/SQLTool.cc               | 3 +++
 src/odc/tools/ToolRunnerApplication.cc | 6 ++++++
 src/odc/tools/XYVTool.cc               | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/src/odc/tools/LSTool.cc b/src/odc/tools/LSTool.cc
index 5da0829..374d42e 100644
--- a/src/odc/tools/LSTool.cc
+++ b/src/odc/tools/LSTool.cc
@@ -104,6 +104,9 @@ void LSTool::run() {
 
     unsigned long long n = 0;
     n                    = printData(db, *out);
+    if (!out->flush())
+        throw WriteError(optionArgument("-o", std::string("standard output")));
+
     Log::info() << "Selected " << n << " row(s)." << std::endl;
 }
 
diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..21e2c6a 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -142,6 +142,9 @@ void SQLTool::run() {
     eckit::sql::SQLParser parser;
     parser.parseString(session, sql);
     session.statement().execute();
+
+    if (outStream && !outStream->flush())
+        throw WriteError(optionArgument("-o", std::string("")));
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/tools/ToolRunnerApplication.cc b/src/odc/tools/ToolRunnerApplication.cc
index bbd0024..5afdd23 100644
--- a/src/odc/tools/ToolRunnerApplication.cc
+++ b/src/odc/tools/ToolRunnerApplication.cc
@@ -12,6 +12,8 @@
 ///
 /// @author Piotr Kuchta, ECMWF, Feb 2009
 
+#include <iostream>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 
@@ -50,6 +52,10 @@ void ToolRunnerApplication::run() {
 
     tool_->run();
 
+    if (!std::cout.flush())
+        throw eckit::WriteError("standard output");
+
+
     if (deleteTool_) {
         delete tool_;
         tool_ = 0;
diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index f32966e..2f2904a 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -58,6 +58,8 @@ void XYVTool::run() {
         out << (*it)[0] << "\t" << (*it)[1] << "\t" << (*it)[2] << std::endl;
     }
     out.close();
+    if (!out)
+        throw WriteError(outputFile);
 }
 
 }  // namespace tool
-- 
2.43.0


From d5e2103cda2561fc8b9a5c19db51a3f34ab80901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 63/85] fix: report failed writes of remaining rows instead of
 terminating, and do not write the rows again

---
 src/odc/Indexer.cc                   |  2 ++
 src/odc/IteratorProxy.h              |  6 ++++-
 src/odc/WriterBufferingIterator.cc   | 34 +++++++++++++++++++---------
 src/odc/WriterBufferingIterator.h    |  3 ++-
 src/odc/WriterDispatchingIterator.cc |  7 ++++--
 src/odc/sql/ODAOutput.cc             |  5 +++-
 src/odc/sql/ODAOutput.h              |  2 +-
 src/odc/tools/MergeTool.cc           |  4 +++-
 src/odc/tools/SplitTool.cc           |  1 +
 9 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..10a3762 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -110,6 +110,8 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
             nRows = 0;
         }
     }
+
+    writer->close();
 }
 
 }  // namespace odc
diff --git a/src/odc/IteratorProxy.h b/src/odc/IteratorProxy.h
index 03d4bba..53348d4 100644
--- a/src/odc/IteratorProxy.h
+++ b/src/odc/IteratorProxy.h
@@ -24,6 +24,8 @@
 
 #include <string.h>
 
+#include <type_traits>
+
 #include "eckit/log/Log.h"
 #include "eckit/sql/SQLTypedefs.h"
 #include "odc/api/ColumnType.h"
@@ -85,6 +87,7 @@ class MetaData;
 //----------------------------------------------------------------------------------------------------------------------
 
 class Reader;
+class WriterBufferingIterator;
 
 template <typename ITERATOR, typename O, typename DATA>
 class IteratorProxy;
@@ -178,7 +181,8 @@ public:
             ++iter_->refCount_;
     }
 
-    ~IteratorProxy() {
+    /// @note Destroying the last handle of a writer writes the remaining rows, which can fail
+    ~IteratorProxy() noexcept(!std::is_same<ITERATOR, WriterBufferingIterator>::value) {
         if (iter_ && (--iter_->refCount_ == 0))
             delete iter_;
     }
diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index c6f296d..3fa2382 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -13,6 +13,8 @@
 ///
 /// @author Piotr Kuchta, Feb 2009
 
+#include <exception>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -76,12 +78,22 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
         open();
 }
 
-WriterBufferingIterator::~WriterBufferingIterator() {
-    close();
+WriterBufferingIterator::~WriterBufferingIterator() noexcept(false) {
+    std::exception_ptr error;
+    const bool unwinding = std::uncaught_exceptions() > 0;
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        Log::error() << "Error writing " << handle() << ": " << e.what() << std::endl;
+        error = std::current_exception();
+    }
     delete[] lastValues_;
     delete[] nextRow_;
     delete[] columnOffsets_;
     delete[] columnByteSizes_;
+    if (error && !unwinding)
+        std::rethrow_exception(error);
 }
 
 unsigned long WriterBufferingIterator::gatherStats(const double* values, unsigned long count) {
@@ -342,15 +354,7 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    // n.b. ASSERT evaluates a failing condition again, so write outside of it
-    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
-    ASSERT(headerWritten == long(encodedHeader.second));
-    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
-    ASSERT(dataWritten == encodedStream.position());
-
-    LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
-
-    // Reset the write buffers
+    // Reset the write buffers. n.b. before writing, so that rows which fail to be written are not written again
 
     nextRowInBuffer_ = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
 
@@ -359,6 +363,14 @@ void WriterBufferingIterator::flush() {
 
     columns_.resetCodecs<SameByteOrder>();
     columns_.resetStats();
+
+    // n.b. ASSERT evaluates a failing condition again, so write outside of it
+    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
+    ASSERT(dataWritten == encodedStream.position());
+
+    LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 }
 
 
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index f74361b..02b83e2 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -52,7 +52,8 @@ public:
     WriterBufferingIterator(Owner& owner, eckit::DataHandle&, bool openDataHandle,
                             const odc::sql::TableDef* tableDef = 0);
 
-    ~WriterBufferingIterator();
+    /// @note Throws if the rows still to be written cannot be (see close())
+    ~WriterBufferingIterator() noexcept(false);
 
     int open();
 
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index d294857..dc55c06 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -180,6 +180,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::
                               << iteratorIndex2fileName_[iteratorIndex] << "' "
                               << " (oldest row: " << oldestRow << "), nrows_=" << nrows_ << std::endl;
 
+        iterators_[iteratorIndex]->close();
         delete iterators_[iteratorIndex];
         iterators_[iteratorIndex] = 0;
 
@@ -551,9 +552,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::close()" << std::endl;
     int rc = 0;
     for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {
-        rc |= (*it)->close();
-        delete *it;
+        if (*it)
+            rc |= (*it)->close();
     }
+    for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it)
+        delete *it;
     iterators_.clear();
     iteratorIndex2fileName_.clear();
     lastDispatch_.clear();
diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index 9b43866..b7ab9f4 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -33,7 +33,7 @@ template <typename WRITER>
 ODAOutput<WRITER>::ODAOutput(WRITER* writer) : writer_(writer), it_(nullptr), col_(0), count_(0), initted_(false) {}
 
 template <typename WRITER>
-ODAOutput<WRITER>::~ODAOutput() {}
+ODAOutput<WRITER>::~ODAOutput() noexcept {}
 
 template <typename WRITER>
 void ODAOutput<WRITER>::print(std::ostream& s) const {
@@ -56,6 +56,9 @@ void ODAOutput<WRITER>::flush() {}
 template <typename WRITER>
 void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
     sql.outputFiles((**it_).outputFiles());
+
+    // n.b. not left to the destructor, which cannot report that writing the remaining rows failed
+    it_->close();
 }
 
 template <typename WRITER>
diff --git a/src/odc/sql/ODAOutput.h b/src/odc/sql/ODAOutput.h
index 8f2aec1..f54b177 100644
--- a/src/odc/sql/ODAOutput.h
+++ b/src/odc/sql/ODAOutput.h
@@ -34,7 +34,7 @@ public:
 
     ODAOutput(WRITER*);
     //	ODAOutput(WRITER*, const MetaData&);
-    virtual ~ODAOutput();  // Change to virtual if base class
+    virtual ~ODAOutput() noexcept;  // Change to virtual if base class
 
 private:  // methods
 
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index a18e47f..c1072c5 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -112,7 +112,7 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
                 newDataset = true;
         }
         if (ended == iterators.size())
-            return;
+            break;
         if (ended != 0)
             throw eckit::UserError("The input files of merge have different numbers of rows.");
 
@@ -137,6 +137,8 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
 
         ++out;
     }
+
+    out->close();
 }
 
 void MergeTool::merge(const std::vector<PathName>& inputFiles, const PathName& outputFile) {
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 99e3b47..37eeea2 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -138,6 +138,7 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
+    outIt->close();
 }
 
 void SplitTool::split(const PathName& inFile, const std::string& outFileTemplate, size_t maxOpenFiles, bool verify) {
-- 
2.43.0


From d229e44d56c329e00a25f74234a62cc604b4afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 64/85] fix: odc index failed on every file, and made several
 entries for one seqno of a block

---
 src/odc/Indexer.cc | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 10a3762..06c0e0b 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -10,6 +10,7 @@
 #include "odc/Indexer.h"
 
 #include <cstddef>
+#include <map>
 #include <utility>
 #include <vector>
 
@@ -77,37 +78,26 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Length blockLength(offsets[i].second);
 
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
         AutoClose closer(h);
 
-        int prevSeqno(-1);
-        int nRows(0);
+        // One entry for each seqno of the block, in order of their first occurrence
 
-        odc::Select in("select seqno;", h);
+        std::vector<int> seqnos;
+        std::map<int, int> nRows;
+
+        odc::Select in("select seqno;", h);  // n.b. opens the handle
         for (odc::Select::iterator it(in.begin()), end(in.end()); it != end; ++it) {
             int seqno((*it)[0]);
-            if (seqno == prevSeqno)
-                ++nRows;
-            else {
-                if (nRows > 0) {
-                    (*writer)[0] = blockBegin;
-                    (*writer)[1] = blockLength;
-                    (*writer)[2] = prevSeqno;
-                    (*writer)[3] = nRows;
-                    ++writer;
-                    nRows = 0;
-                }
-                prevSeqno = seqno;
-                ++nRows;
-            }
+            if (nRows[seqno]++ == 0)
+                seqnos.push_back(seqno);
         }
-        if (nRows > 0) {
+
+        for (size_t j(0); j < seqnos.size(); ++j) {
             (*writer)[0] = blockBegin;
             (*writer)[1] = blockLength;
-            (*writer)[2] = prevSeqno;
-            (*writer)[3] = nRows;
+            (*writer)[2] = seqnos[j];
+            (*writer)[3] = nRows[seqnos[j]];
             ++writer;
-            nRows = 0;
         }
     }
 
-- 
2.43.0


From ab5cd0bc0d6826b2b885027a57cea64185d6e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 65/85] fix: odc sql -length without -offset was ignored, and
 -offset without -length read nothing

---
 src/odc/tools/SQLTool.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 21e2c6a..03c2b6f 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -123,10 +123,17 @@ void SQLTool::run() {
             NOTIMP;  // Is this working?
             /// parser.parseString(session, sql, &fh, config);
         }
-        else if (offset_ == eckit::Offset(0)) {
+        else if (!optionIsSet("-offset") && !optionIsSet("-length")) {
             implicitTableDH.reset(new FileHandle(inputFile_));
         }
         else {
+            // n.b. without a length, process everything from the offset onwards
+            const long long offset = offset_;
+            const long long size   = PathName(inputFile_).size();
+            if (offset < 0 || offset > size)
+                throw UserError("The offset is outside of " + inputFile_);
+            if (!optionIsSet("-length"))
+                length_ = size - offset;
             implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length_));
         }
 
-- 
2.43.0


From e85b323924a659c71144e3ebb7662860b3b37475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 66/85] fix: odc xyv wrote the latitude in the column of x
 (longitude) and vice versa

---
 src/odc/tools/XYVTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index 2f2904a..eba6b21 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -55,7 +55,7 @@ void XYVTool::run() {
 
     odc::Select oda(select);
     for (odc::Select::iterator it = oda.begin(); it != oda.end(); ++it) {
-        out << (*it)[0] << "\t" << (*it)[1] << "\t" << (*it)[2] << std::endl;
+        out << (*it)[1] << "\t" << (*it)[0] << "\t" << (*it)[2] << std::endl;  // n.b. x (lon) first
     }
     out.close();
     if (!out)
-- 
2.43.0


From 593bd14b9427d5e386e7d8edbf99c9365d985d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 67/85] fix: odc_next_frame_aggregated used the mode and row
 limit of the reader's first call for all calls

---
 src/odc/api/Odb.cc | 16 +++++++++++++---
 src/odc/api/Odb.h  |  6 ++++++
 src/odc/api/odc.cc |  4 ++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index b911d9d..6727e36 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -94,6 +94,7 @@ public:  // methods
 
     void restart();
     Frame next();
+    Frame next(bool aggregated, long rowlimit);
 
 private:  // members
 
@@ -123,6 +124,10 @@ void ReaderImpl::restart() {
 }
 
 Frame ReaderImpl::next() {
+    return next(aggregated_, rowlimit_);
+}
+
+Frame ReaderImpl::next(bool aggregated, long rowlimit) {
 
     std::vector<core::Table> tables;
 
@@ -143,7 +148,7 @@ Frame ReaderImpl::next() {
     tables.emplace_back(*it);
     long nrows = tables.back().rowCount();
 
-    if (aggregated_) {
+    if (aggregated) {
         while (true) {
             auto it_next = it;
             ++it_next;
@@ -151,7 +156,7 @@ Frame ReaderImpl::next() {
                 break;
 
             long next_nrows = nrows + it_next->rowCount();
-            if (rowlimit_ >= 0 && next_nrows > rowlimit_)
+            if (rowlimit >= 0 && next_nrows > rowlimit)
                 break;
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
@@ -162,7 +167,7 @@ Frame ReaderImpl::next() {
         }
     }
 
-    ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
+    ASSERT(rowlimit < 0 || nrows <= rowlimit);
 
     it_    = it;
     first_ = false;
@@ -218,6 +223,11 @@ Frame Reader::next() {
     return impl_->next();
 }
 
+Frame Reader::next(bool aggregated, long rowlimit) {
+    ASSERT(impl_);
+    return impl_->next(aggregated, rowlimit);
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 // Shim for decoding
diff --git a/src/odc/api/Odb.h b/src/odc/api/Odb.h
index ae02300..9415995 100644
--- a/src/odc/api/Odb.h
+++ b/src/odc/api/Odb.h
@@ -300,6 +300,12 @@ public:  // methods
      * \returns Next frame
      */
     Frame next();
+    /** Advances to the next frame in the stream, setting aside how the reader was constructed
+     * \param aggregated Whether to aggregate compatible data into a logical frame
+     * \param rowlimit Maximum number of rows to aggregate into one logical frame
+     * \returns Next frame
+     */
+    Frame next(bool aggregated, long rowlimit = -1);
 
 private:  // members
 
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index d971299..54cda50 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -412,7 +412,7 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        frame->frame_              = r.impl_->next();
+        frame->frame_              = r.impl_->next(false);
         frame->propertiesMemoised_ = false;
         frame->propertiesIndex_.clear();
 
@@ -430,7 +430,7 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        frame->frame_              = r.impl_->next();
+        frame->frame_              = r.impl_->next(true, maximum_rows);
         frame->propertiesMemoised_ = false;
         frame->propertiesIndex_.clear();
 
-- 
2.43.0


From d52155c566da9b2b7ca94a587d1586a1ce246c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 68/85] fix: queries with a row buffer of the caller failed
 where strings become narrower

---
 src/odc/sql/SQLSelectOutput.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 394482f..a8cdba1 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -50,14 +50,17 @@ void SQLSelectOutput::resetBuffer(double* out, size_t count) {
 
     // The fortran interface doesn't pass in the buffer size, so just assume it is correct
     // if the size is specified to be zero
+    // n.b. the rows can become smaller and larger later on, the size of the buffer is what the first one requires. Rows
+    //      which are too large for it are an error when they are written to it
     if (count == 0)
-        count = requiredBufferSize_;
+        count = bufferElements_ ? bufferElements_ : requiredBufferSize_;
+    else
+        ASSERT(count >= requiredBufferSize_);
 
     ASSERT(!manageOwnBuffer_);
     out_ = pos_     = out;
     end_            = out_ + count;
     bufferElements_ = count;
-    ASSERT(bufferElements_ >= requiredBufferSize_);
 }
 
 void SQLSelectOutput::print(std::ostream& s) const {
@@ -77,7 +80,7 @@ bool SQLSelectOutput::output(const expression::Expressions& results) {
     for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size(); currentColumn_++) {
         results[currentColumn_]->output(*this);
     }
-    ASSERT(pos_ == end_);
+    ASSERT(pos_ == out_ + requiredBufferSize_ && pos_ <= end_);
     count_++;
 
     if (isNewDataset_) {
@@ -144,6 +147,7 @@ void SQLSelectOutput::outputString(const char* s, size_t len, bool missing) {
 
 
 void SQLSelectOutput::prepare(SQLSelect& sql) {
+    bufferElements_ = 0;
     updateTypes(sql);
 }
 
@@ -199,6 +203,7 @@ void SQLSelectOutput::updateColumns(const expression::Expressions& results) {
     // n.b. rows that were cached (e.g. to order them) can have other types than the current part of the source
 
     bool changed = false;
+    size_t total = requiredBufferSize_;
 
     for (size_t i = 0; i < results.size(); i++) {
 
@@ -211,9 +216,10 @@ void SQLSelectOutput::updateColumns(const expression::Expressions& results) {
         if (type != column.type() || sizeDoubles != columnSizesDoubles_[i] ||
             (type == api::BITFIELD && bitfieldDef(*results[i]) != column.bitfieldDef())) {
 
-            // n.b. without a buffer of our own, wider strings are an error later on
-            if (!manageOwnBuffer_ && sizeDoubles != columnSizesDoubles_[i])
-                return;
+            // n.b. without a buffer of our own, strings which do not fit in are an error later on
+            total += sizeDoubles - columnSizesDoubles_[i];
+            if (!manageOwnBuffer_ && total > bufferElements_)
+                break;
 
             const bool hasMissing = column.hasMissing();
             column.type<core::SameByteOrder>(type);
-- 
2.43.0


From 340d4e61dfd5ba58a8fe003e2e39ef381fc89a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 69/85] fix: optional arguments of calls of the Fortran
 interface were remembered and used in later calls that omit them

---
 src/odc/api/odc.f90 | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index dba8aec..de49aea 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -726,9 +726,11 @@ contains
         integer(c_long), intent(in), optional :: maximum_rows
         integer :: err
 
-        integer(c_long) :: l_maximum_rows = -1
-        logical :: l_aggregated = .false.
+        integer(c_long) :: l_maximum_rows
+        logical :: l_aggregated
 
+        l_maximum_rows = -1
+        l_aggregated = .false.
         if (present(aggregated)) l_aggregated = aggregated
         if (present(maximum_rows)) then
             l_maximum_rows = maximum_rows
@@ -876,7 +878,9 @@ contains
         class(odc_decoder), intent(inout) :: decoder
         logical, intent(in), optional :: column_major
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
+
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         err = odc_new_decoder(decoder%impl)
         if (err == ODC_SUCCESS) then
@@ -916,8 +920,10 @@ contains
         real(dp), intent(inout), target :: data(:,:)
         logical, intent(in), optional :: column_major
         integer(c_long) :: width, height
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
         integer :: err
+
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -992,9 +998,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(stride)) l_stride = stride
         if (present(data)) l_data = data
@@ -1075,8 +1085,9 @@ contains
         integer(c_long) :: width, height
         integer(c_int) :: columnMajorWidth
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
 
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -1121,7 +1132,9 @@ contains
         integer :: err
 
 
-        integer(c_int) :: l_element_size = 0
+        integer(c_int) :: l_element_size
+
+        l_element_size = 0
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
 
@@ -1138,9 +1151,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
         if (present(stride)) l_stride = stride
-- 
2.43.0


From 30977a144577c3e0700f16cd12ec5d400016bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 70/85] fix: a failed write in encoder%encode ended the program
 instead of being reported

---
 src/odc/api/odc.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index de49aea..de06717 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -1187,11 +1187,13 @@ contains
         integer(c_long) :: written
         integer, pointer :: fortran_unit
         character(c_char), pointer :: fortran_buffer(:)
+        integer :: status
 
         call c_f_pointer(context, fortran_unit)
         call c_f_pointer(buffer, fortran_buffer, [length])
-        write(fortran_unit) fortran_buffer
+        write(fortran_unit, iostat=status) fortran_buffer
         written = length
+        if (status /= 0) written = -1
     end function
 
     function encoder_encode(encoder, outunit, bytes_written) result(err)
-- 
2.43.0


From ba0b73e9d49073a30018eac2beb3e8b744ffb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 71/85] fix: array sections given to set_data of the Fortran
 interface were read and written in the wrong places

---
 src/odc/api/odc.f90 | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index de06717..83dad05 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -932,6 +932,12 @@ contains
             width = size(data, 1) * double_size
             height = size(data, 2)
         end if
+        ! n.b. only the extents of the array are passed on. Its elements must follow each other in memory
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
+
         err = odc_decoder_set_data_array(decoder%impl, c_loc(data), width, height, l_column_major)
     end function
 
@@ -1098,6 +1104,12 @@ contains
             height = size(data, 2)
             columnMajorWidth = 0
         end if
+        ! n.b. only the extents of the array are passed on. Its elements must follow each other in memory
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
+
         err = odc_encoder_set_data_array(encoder%impl, c_loc(data), width, height, columnMajorWidth)
     end function
 
-- 
2.43.0


From b1b1b75a1c322559b3f72254013c0a20c75dc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 72/85] fix: odc_decoder_data_array returned the array of the
 previous decode with the size of the one set since

---
 src/odc/api/odc.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 54cda50..a23f167 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -644,12 +644,13 @@ int odc_decoder_data_array(const odc_decoder_t* decoder, const void** data, long
         ASSERT(decoder);
 
         if (data) {
-            if (decoder->ownedData) {
-                (*data) = decoder->ownedData.get();
+            // n.b. an array set after decoding replaces the one we have allocated, whose size is not known any more
+            if (decoder->externalData) {
+                (*data) = decoder->externalData;
             }
             else {
-                ASSERT(decoder->externalData);
-                (*data) = decoder->externalData;
+                ASSERT(decoder->ownedData);
+                (*data) = decoder->ownedData.get();
             }
         }
 
-- 
2.43.0


From 597a34b4a0a4f0dcf3e0951eb8152820b58a2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 73/85] fix: odc_decoder_column_set_data_size after a decode
 wrote outside the array laid out before

---
 src/odc/api/odc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index a23f167..ec2be35 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -687,6 +687,10 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
         ASSERT(element_size >= 0 && element_size % 8 == 0);
 
         auto& cd(decoder->columnData[col]);
+        // The array has been laid out for the previous size
+        if (cd.inArray && cd.elemSize != size_t(element_size)) {
+            reset_decoder_layout(decoder);
+        }
         cd.elemSize = element_size;
     });
 }
-- 
2.43.0


From 944409cda4e5d6caff5566c9c09b3b3c2240a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 74/85] fix: leading columns not stored in the first row: span
 left out the missing value, string cells kept old bytes

---
 src/odc/core/Table.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 3b907f9..de82036 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -10,6 +10,7 @@
 
 #include "odc/core/Table.h"
 
+#include <algorithm>
 #include <bitset>
 #include <functional>
 
@@ -205,6 +206,9 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
+            if (metadata[col]->type() == api::STRING) {
+                ::memset((*facades[col])[0], 0, facades[col]->dataSize());
+            }
             *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
         }
     }
@@ -447,6 +451,18 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
 
+        // Columns which are not stored in the first row start with the missing value (see decode)
+
+        if (rowCount == 0) {
+            for (int col = 0; col < std::min<long>(startCol, ncols); col++) {
+                if (visitColumn[col]) {
+                    std::fill(decodeBufferVec.begin(), decodeBufferVec.end(), 0);
+                    decodeBuffer[0] = decoders[col].get().missingValue();
+                    columnValues[col]->addValue(decodeBuffer);
+                }
+            }
+        }
+
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
-- 
2.43.0


From 67645cf585d75daab591eb051f60c17f94e8de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 75/85] fix: a header buffer smaller than the fixed part of a
 header overflowed

---
 src/odc/core/Header.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index f8b4b0b..f49539f 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -187,7 +187,7 @@ std::pair<eckit::Buffer, size_t> serializeHeaderInternal(size_t dataSize, size_t
 
     constexpr size_t initial_header_size = 9 + 8 + 4 + 32 + 4;
 
-    eckit::Buffer buffer(ODBAPISettings::instance().headerBufferSize());
+    eckit::Buffer buffer(std::max(ODBAPISettings::instance().headerBufferSize(), initial_header_size));
     bool serialised           = false;
     char* variableHeaderStart = 0;
     int32_t variableHeaderSize;
-- 
2.43.0


From 734cdc7326b8ce594c4a36831abb7f7b155119e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 76/85] fix: a rows buffer of no rows crashed instead of being
 an error

---
 src/odc/WriterBufferingIterator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 3fa2382..8d7dde7 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -160,6 +160,7 @@ void WriterBufferingIterator::allocBuffers() {
 }
 
 void WriterBufferingIterator::allocRowsBuffer() {
+    ASSERT(rowsBufferSize_ > 0);
     rowDataSizeDoubles_ = rowDataSizeDoublesInternal();
     rowByteSize_        = rowDataSizeDoubles() * sizeof(double);
     rowsBuffer_         = Buffer(rowsBufferSize_ * rowByteSize_);
-- 
2.43.0


From 0d84e2810c76a7d418eb8ad51ea48e190a03a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 77/85] fix: ODC_INTEGERS_AS_DOUBLES=0 made the tools take
 integers for other values

---
 src/odc/tools/ToolRunnerApplication.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/tools/ToolRunnerApplication.cc b/src/odc/tools/ToolRunnerApplication.cc
index 5afdd23..63597a6 100644
--- a/src/odc/tools/ToolRunnerApplication.cc
+++ b/src/odc/tools/ToolRunnerApplication.cc
@@ -17,6 +17,7 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 
+#include "odc/ODBAPISettings.h"
 #include "odc/tools/Tool.h"
 #include "odc/tools/ToolFactory.h"
 #include "odc/tools/ToolRunnerApplication.h"
@@ -50,6 +51,9 @@ void ToolRunnerApplication::run() {
         throw eckit::UserError(std::string("Unknown command: ") + argv(1), Here());
     }
 
+    // n.b. the tools work on rows in which integers are doubles
+    ODBAPISettings::instance().treatIntegersAsDoubles(true);
+
     tool_->run();
 
     if (!std::cout.flush())
-- 
2.43.0


From 3545fbaef264b8ceeb2797d5dbeca156a890ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 78/85] fix: integers that do not fit the format were silently
 altered when encoded

---
 src/odc/codec/Integer.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..8a4d080 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -11,6 +11,10 @@
 #ifndef odc_core_codec_Integer_H
 #define odc_core_codec_Integer_H
 
+#include <limits>
+#include <sstream>
+#include <type_traits>
+
 #include "odc/core/Codec.h"
 
 /// @note We have some strange behaviour in here. In particular, we support BOTH decoding
@@ -66,6 +70,13 @@ private:  // methods
     void gatherStats(const double& v) override {
         static_assert(sizeof(ValueType) == sizeof(v), "unsafe casting check");
         const ValueType& val(reinterpret_cast<const ValueType&>(v));
+        // n.b. the range of the values is stored as double
+        constexpr int64_t maxExact = int64_t(1) << std::numeric_limits<double>::digits;
+        if (std::is_integral<ValueType>::value && (val < -maxExact || val > maxExact) && val != castedMissingValue_) {
+            std::stringstream ss;
+            ss << "Integer value " << val << " cannot be encoded exactly";
+            throw eckit::UserError(ss.str(), Here());
+        }
         core::Codec::gatherStats(val);
     }
 
@@ -136,6 +147,14 @@ private:  // methods
         static_assert(sizeof(ValueType) == sizeof(d), "unsafe casting check");
 
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
+        // n.b. bitfields may make use of all of the bits
+        if (this->type_ == api::INTEGER && !(val >= std::numeric_limits<InternalValueType>::min() &&
+                                             val <= std::numeric_limits<InternalValueType>::max())) {
+            std::stringstream ss;
+            ss << "Integer value " << std::fixed << val << " cannot be encoded in " << 8 * sizeof(InternalValueType)
+               << " bits";
+            throw eckit::UserError(ss.str(), Here());
+        }
         InternalValueType s = val;
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
-- 
2.43.0


From 1d6ee88b300483548de56548a84cfaf1f4296d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:59 +0000
Subject: [PATCH 79/85] fix: the verification of split took rows of frames with
 other missing values for different

---
 src/odc/WriterDispatchingIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index dc55c06..f7ba0fb 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -485,7 +485,7 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     unsigned long numberOfDifferences(0);
     long long i(0);
     for (; it != end; ++i) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (it->isNewDataset() && !columns().equalsIncludingDefinitions(it->columns())) {
             columns(it->columns());
             writeHeader();
         }
-- 
2.43.0


From f78479172c0817d57d07ffc830dd5b73b045854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 80/85] fix: constant strings in the other byte order were
 reversed when the header buffer had to grow

---
 src/odc/codec/Constant.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 3c9fd8e..e5a7bcf 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -157,11 +157,21 @@ void CodecConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
 
 template <typename ByteOrder>
 void CodecConstantString<ByteOrder>::save(core::DataStream<ByteOrder>& ds) {
+    // n.b. If the stream is full this throws, and is called again with a larger one.
+    const double min = this->min_;
+    const double max = this->max_;
     ByteOrder::swap(this->min_);
     ByteOrder::swap(this->max_);
-    core::DataStreamCodec<ByteOrder>::save(ds);
-    ByteOrder::swap(this->min_);
-    ByteOrder::swap(this->max_);
+    try {
+        core::DataStreamCodec<ByteOrder>::save(ds);
+    }
+    catch (...) {
+        this->min_ = min;
+        this->max_ = max;
+        throw;
+    }
+    this->min_ = min;
+    this->max_ = max;
 }
 
 template <typename ByteOrder>
-- 
2.43.0


From 2802395f6d739bdf692c996cb1817f56a61110a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 81/85] fix: merge -S with a file but no query after it read
 past its arguments

---
 src/odc/tools/MergeTool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index c1072c5..1f8f8ab 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -56,6 +56,8 @@ MergeTool::MergeTool(int ac, char* av[]) : Tool(ac, av), inputFiles_(), sql_(),
     for (size_t i = 1; i < parameters().size(); ++i) {
         inputFiles_.push_back(PathName(parameters()[i]));
         if (sqlFiltering_) {
+            if (i + 1 == parameters().size())
+                throw UserError("Expected a select statement after " + parameters()[i]);
             std::string s(parameters()[++i]);
             sql_.push_back(StringTool::isSelectStatement(s) ? s : StringTool::readFile(s));
         }
-- 
2.43.0


From 2d65d8eb5274d9937e91882529f3ae4244c9385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:03 +0000
Subject: [PATCH 82/85] fix: decoding several frames with no threads left them
 undecoded

---
 src/odc/api/Odb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 6727e36..a5b1cb8 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -381,7 +381,7 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
         for (core::Table& t : tables_) {
             size_t rows = t.rowCount();
             core::DecodeTarget&& subTarget(target.slice(rowOffset, rows));
-            if (nthreads == 1) {
+            if (nthreads <= 1) {
                 t.decode(subTarget);
             }
             else {
-- 
2.43.0


From 99c469295069aa5a21743977b421f276b116b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:03 +0000
Subject: [PATCH 83/85] fix: encode() with no rows per frame wrote empty frames
 without end

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index a5b1cb8..5a3d057 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -683,6 +683,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
 
     ASSERT(columns.size() == data.size());
     ASSERT(data.size() > 0);
+    ASSERT(maxRowsPerFrame > 0);
 
     size_t ncols = data.size();
     size_t nrows = data[0].nelem();
-- 
2.43.0


From e35883f47486cecea1685c858db59e820cdf19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 84/85] fix: encoding for the first time in several threads at
 once raced for the default codecs

---
 src/odc/codec/CodecOptimizer.cc | 38 ++++++++++++++++++---------------
 src/odc/codec/CodecOptimizer.h  |  2 +-
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.cc b/src/odc/codec/CodecOptimizer.cc
index 96eb9fa..c8df981 100644
--- a/src/odc/codec/CodecOptimizer.cc
+++ b/src/odc/codec/CodecOptimizer.cc
@@ -24,25 +24,29 @@ namespace codec {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-std::map<api::ColumnType, std::string> CodecOptimizer::defaultCodec_;
+static std::map<api::ColumnType, std::string> defaultCodecs() {
+    std::map<api::ColumnType, std::string> codecs;
+    codecs[api::REAL]     = "short_real2";
+    codecs[api::DOUBLE]   = "long_real";
+    codecs[api::STRING]   = "chars";
+    codecs[api::INTEGER]  = "int32";
+    codecs[api::BITFIELD] = "int32";
+
+    typedef eckit::StringTools S;
+    std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
+
+    for (size_t i = 0; i < mappings.size(); ++i) {
+        std::vector<std::string> a(S::split(":", mappings[i]));
+        ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
+        codecs[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
+    }
+    return codecs;
+}
 
 CodecOptimizer::CodecOptimizer() {
-    if (defaultCodec_.empty()) {
-        defaultCodec_[api::REAL]     = "short_real2";
-        defaultCodec_[api::DOUBLE]   = "long_real";
-        defaultCodec_[api::STRING]   = "chars";
-        defaultCodec_[api::INTEGER]  = "int32";
-        defaultCodec_[api::BITFIELD] = "int32";
-
-        typedef eckit::StringTools S;
-        std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
-
-        for (size_t i = 0; i < mappings.size(); ++i) {
-            std::vector<std::string> a(S::split(":", mappings[i]));
-            ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
-            defaultCodec_[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
-        }
-    }
+    // n.b. Encoding may be first used from several threads at once
+    static const std::map<api::ColumnType, std::string> codecs(defaultCodecs());
+    defaultCodec_ = codecs;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index cc528fd..1910feb 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -35,7 +35,7 @@ public:
 
 private:
 
-    static std::map<api::ColumnType, std::string> defaultCodec_;
+    std::map<api::ColumnType, std::string> defaultCodec_;
 };
 
 template <typename ByteOrder>
-- 
2.43.0


From e86d330eac5d57d729559538d8eeacee7ba3d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 85/85] fix: descriptions of errors were shared between threads

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index ec2be35..b38d709 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -98,7 +98,7 @@ struct odc_encoder_t {
 
 /* Error handling */
 
-static std::string g_current_error_str;
+static thread_local std::string g_current_error_str;
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
-- 
2.43.0

