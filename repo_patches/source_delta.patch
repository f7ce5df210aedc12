From e5910913f0cb6694a2434d8b769128bb3279f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 001/102] fix: a tiny negative value no longer becomes a
 positive 8-bit float

---
 src/types/quarter_float.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 9f8a0cf..8d1e3ee 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -100,8 +100,11 @@ namespace happyml {
         const uint32_t prepped_bits = (sign << 7) | (clamped_exponent << 3) | (clamped_mantissa & 0x7);
         const uint32_t special_case_tiny =
                 encoded_value && (!prepped_bits && adjusted_exponent >= (-12 + bias)); // -5 rounds nearest
+        // 0b10000000 is reserved for the special (positive) tiny value, so a negative value that is too small
+        // to represent becomes 0 rather than a positive number.
+        const uint32_t negative_zero = prepped_bits == 0b10000000;
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
-                                     (!special_case_tiny) * prepped_bits;
+                                     (!special_case_tiny && !negative_zero) * prepped_bits;
 
         return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
-- 
2.43.0


From 84d9f4d26aa55213ee768dd652d04b87d76338da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 002/102] fix: every NaN stays NaN as an 8-bit float

---
 src/types/quarter_float.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 8d1e3ee..427825c 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -105,11 +105,13 @@ namespace happyml {
         const uint32_t negative_zero = prepped_bits == 0b10000000;
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
                                      (!special_case_tiny && !negative_zero) * prepped_bits;
+        // any payload, not only the default one
+        const uint32_t is_nan = (encoded_value & 0x7FFFFFFF) > FLOAT_INF;
 
-        return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
+        return is_nan * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
                + (encoded_value == FLOAT_NEG_INF) * QUARTER_NEG_INFINITY +
-               ((encoded_value != FLOAT_NEG_NAN && encoded_value != FLOAT_POS_NAN) && (encoded_value != FLOAT_INF) &&
+               (!is_nan && (encoded_value != FLOAT_INF) &&
                 (encoded_value != FLOAT_NEG_INF)) *
                result_bits;
     }
-- 
2.43.0


From 39952fe87ca00d1d3391ae489b81020dc1b52621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 003/102] fix: a three-operand tensor view reads its third
 operand

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..b248a37 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 370daf67c8b831083e86cfc259496ab639078912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 004/102] fix: getRowValues reads the requested channel

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index b248a37..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From f480fd0fa30fb97ca3df9c273a3f23182930a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 005/102] fix: the euclidean norm of an all-zero tensor is
 zero, not NaN

---
 src/types/base_tensors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..9047040 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,9 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0.0) {
+                return 0.0f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 8729bb14e7718ba76538b47e2d01ab0d23c60e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 006/102] fix: full cross-correlation pads by kernel size - 1
 for every kernel size

---
 .../full_2d_cross_correlation_tensor_view.hpp        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..b636261 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -25,14 +25,10 @@ namespace happyml {
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 49c83f9575b0574b5fd9af5b31ac0eb7ee1d4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 007/102] fix: matrix division multiplies rows by columns of
 the inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From 9b4e5b51ffda6f4d907ea5ae381dbcb613f22fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 008/102] fix: standardization uses the running element count
 for its mean

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From fb671d2ab92eb979c5b3eddd68bc9dd8941a17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 009/102] fix: standardizing a constant column no longer
 divides by zero

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index 6b67367..8760bbd 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -33,7 +33,7 @@ namespace happyml {
         }
 
         explicit StandardizeTensorView(const shared_ptr<BaseTensor> &tensor, float mean, float std_dev)
-                : BaseTensorUnaryOperatorView(tensor), mean_(mean), std_dev_(std_dev) {
+                : BaseTensorUnaryOperatorView(tensor), mean_(mean), std_dev_(std_dev == 0.0f ? 1.0f : std_dev) {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-- 
2.43.0


From 969a3b0843141b4db1a3181da72bee51e1a925a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 010/102] fix: normalizing a constant column no longer divides
 by zero

---
 src/types/tensor_views/normalize_tensor_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..7c3b7fe 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -27,7 +27,8 @@ namespace happyml {
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float val = child_->getValue(row, column, channel);
-            return (val - min_val_) / val_range_;
+            // every value of a constant column is the minimum
+            return val_range_ == 0.0f ? val - min_val_ : (val - min_val_) / val_range_;
         }
 
         void printMaterializationPlan() override {
-- 
2.43.0


From f7aa8620867f698fae9bec518c24d56aff59831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 011/102] fix: a random tensor with an empty range is constant,
 not NaN

---
 src/types/tensor_impls/tensor_from_random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_impls/tensor_from_random.hpp b/src/types/tensor_impls/tensor_from_random.hpp
index 4550852..4ea72b7 100644
--- a/src/types/tensor_impls/tensor_from_random.hpp
+++ b/src/types/tensor_impls/tensor_from_random.hpp
@@ -80,7 +80,7 @@ namespace happyml {
             // then forcing it into a range. I picked a few constants that I felt gave a reasonable looking distribution.
             const double offset = (((double) channel * channel_size) + ((double) row * (double) cols) +
                                    (((double) column + 1.0) * range_const) + seed_const) * 3.14159265358979323846;
-            return (float) (max_value - fmod(offset, range));
+            return range == 0.0f ? max_value : (float) (max_value - fmod(offset, range));
         }
 
         [[nodiscard]] float get_min_value() const {
-- 
2.43.0


From d7772505f50345c5786a531861dd936ce6000468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 012/102] fix: matrix inversion pivots on the largest entry

---
 .../tensor_views/inverse_tensor_view.hpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/types/tensor_views/inverse_tensor_view.hpp b/src/types/tensor_views/inverse_tensor_view.hpp
index 5359561..a05cea7 100644
--- a/src/types/tensor_views/inverse_tensor_view.hpp
+++ b/src/types/tensor_views/inverse_tensor_view.hpp
@@ -28,19 +28,17 @@ namespace happyml {
 
             // Perform Gauss-Jordan elimination
             for (size_t i = 0; i < n; i++) {
-                if (mat[i][i] == 0) {
-                    size_t row_to_swap = i;
-                    for (size_t j = i + 1; j < n; j++) {
-                        if (mat[j][i] != 0) {
-                            row_to_swap = j;
-                            break;
-                        }
-                    }
-                    if (row_to_swap == i) {
-                        throw runtime_error("Matrix is not invertible");
+                // dividing by a tiny pivot would destroy the precision of the result, so use the largest one
+                size_t row_to_swap = i;
+                for (size_t j = i + 1; j < n; j++) {
+                    if (std::abs(mat[j][i]) > std::abs(mat[row_to_swap][i])) {
+                        row_to_swap = j;
                     }
-                    swap(mat[i], mat[row_to_swap]);
                 }
+                if (mat[row_to_swap][i] == 0) {
+                    throw runtime_error("Matrix is not invertible");
+                }
+                swap(mat[i], mat[row_to_swap]);
 
                 float pivot = mat[i][i];
                 for (size_t j = i; j < 2 * n; j++) {
-- 
2.43.0


From 4ed117126ef2b4bea8b5c968b618628ba3db44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 013/102] fix: text that merely starts with a number is not a
 number

---
 src/training_data/data_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..0403239 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,7 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From 46c2f329abe6b4f389958d8c0c55f99c4e998863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 014/102] fix: the delimited writer keeps quotes that are part
 of a value

---
 src/util/file_writer.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..d954916 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -74,12 +74,7 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
-                        stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-                        string_replace_all(stripped_column, "\"", "\"\"");
-                        auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-                        stripped_column = "\"" + encoded_column + "\"";
-                    } else if (!isFloat(stripped_column)) { // check if it is a number
+                    if (!isFloat(stripped_column)) { // check if it is a number
                         // it is not a number, so we need to encode it
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From 7c5f5336fd90a582acbbaa6c375c5acb5a2d718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 015/102] fix: the delimited reader unquotes a field only once

---
 src/util/file_reader.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..46d1820 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -183,12 +183,6 @@ namespace happyml {
 
         string decode(string &current_word) const {
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
-- 
2.43.0


From 55b957db04f74dab636ac16d06ddf5fcdcf9bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 016/102] fix: decoding text keeps characters that are not an
 escape sequence

---
 src/util/text_encoder_decoder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/text_encoder_decoder.hpp b/src/util/text_encoder_decoder.hpp
index ba58896..9ad03f8 100644
--- a/src/util/text_encoder_decoder.hpp
+++ b/src/util/text_encoder_decoder.hpp
@@ -43,7 +43,7 @@ namespace happyml {
                         } else if (str[i] == '_') {
                             decoded << "<_";
                         } else {
-                            decoded << '<' << str[i];
+                            decoded << "<_" << str[i];
                         }
                     } else if (str[i] == '~' && i + 2 < str.size()) {
                         ++i;
@@ -54,7 +54,7 @@ namespace happyml {
                             decoded << '\n';
                             ++i; // Move past the '>'
                         } else {
-                            decoded << '<' << str[i];
+                            decoded << "<~" << str[i];
                         }
                     } else {
                         decoded << '<' << str[i];
-- 
2.43.0


From 31157bd737fe9f7ad098ec818eacb3dd0a1bfafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 017/102] fix: an empty file in a directory no longer ends
 reading the directory

---
 src/util/file_reader.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 46d1820..00e4b9f 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -74,22 +74,23 @@ namespace happyml {
                     if (getline(stream, line)) {
                         next_line = line;
                     } else {
-                        stream.close();
-                        current_file++;
-                        if (current_file < filenames.size()) {
+                        has_next = false;
+                        next_line = "";
+                        // continue with the next file that has a line to offer
+                        while (!has_next && current_file + 1 < filenames.size()) {
+                            stream.close();
+                            current_file++;
                             stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
+                            if (skip_header && !getline(stream, line)) {
+                                continue;
                             }
                             if (getline(stream, line)) {
                                 next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
+                                has_next = true;
                             }
-                        } else {
-                            has_next = false;
-                            next_line = "";
+                        }
+                        if (!has_next) {
+                            stream.close();
                         }
                     }
                 }
@@ -104,9 +105,7 @@ namespace happyml {
     private:
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            getline(stream, line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From 582cdc0830caaa12598bd592d39b6027f8071439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 018/102] fix: splitting a text file neither repeats words nor
 starts with an empty cell

---
 src/util/dataset_utils.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..fe2110c 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -98,22 +98,23 @@ namespace happyml {
         std::string cell;
 
         int near_limit = character_limit * 4 / 5;
-        bool write_cell;
         while (std::getline(input_file, token, ' ')) {
-            if (cell.length() + token.length() + 1 <= character_limit) {
-                cell += " " + token;
-                auto token_len = token.length();
-                write_cell = (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.'));
-            } else {
-                write_cell = true;
+            if (!cell.empty() && cell.length() + token.length() + 1 > character_limit) {
+                delimitedTextFileWriter.writeRecord({cell});
+                cell.clear();
+            }
+            if (!cell.empty()) {
+                cell += " ";
             }
-            if (write_cell) {
+            cell += token;
+            auto token_len = token.length();
+            if (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.')) {
                 delimitedTextFileWriter.writeRecord({cell});
-                cell = token;
+                cell.clear();
             }
         }
 
-        if (!cell.empty()) {
+        if (!strip(cell).empty()) {
             delimitedTextFileWriter.writeRecord({cell});
         }
 
-- 
2.43.0


From 6f3328ad513f6eece0cab730e7c94e4e5bf1413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 019/102] fix: sorting no longer overwrites and deletes files
 called chunk_N.txt beside its input

---
 src/util/text_file_sorter.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..e0b6ab5 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,8 +26,6 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
-
             std::ifstream input(file_name);
 
             if (!input.is_open()) {
@@ -52,7 +50,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = chunk_file_name(result_file_name, chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +66,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = chunk_file_name(result_file_name, chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +77,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -87,18 +85,22 @@ namespace happyml {
         }
 
     private:
+        static std::string chunk_file_name(const std::string &result_file_name, size_t chunk) {
+            return result_file_name + ".chunk_" + std::to_string(chunk) + ".txt";
+        }
+
         static void sort_chunk(std::vector<std::string> &lines) {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
             std::vector<std::ifstream> chunk_files(num_chunks);
 
             for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+                std::string chunk_path = chunk_file_name(output_file, i);
 
                 chunk_files[i].open(chunk_path);
 
-- 
2.43.0


From cc289147974c14080fa5e35e85064b336ebba706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 020/102] fix: sorting reports failure instead of dropping the
 lines of a chunk it cannot open

---
 src/util/text_file_sorter.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index e0b6ab5..e8a0e1d 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -77,11 +77,11 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            bool merged = merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
-            return true;
+            return merged;
         }
 
     private:
@@ -93,7 +93,7 @@ namespace happyml {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static bool merge_chunks(const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
@@ -105,7 +105,8 @@ namespace happyml {
                 chunk_files[i].open(chunk_path);
 
                 if (!chunk_files[i]) {
-                    break;
+                    std::cerr << "Error opening chunk file." << std::endl;
+                    return false;
                 }
 
                 std::string line;
@@ -152,9 +153,11 @@ namespace happyml {
                 }
             }
             output.close();
+            bool written = !output.fail();
             for (auto &chunk_file: chunk_files) {
                 chunk_file.close();
             }
+            return written;
         }
     };
 }
-- 
2.43.0


From 6ab0fdfec78852724057183e7b7ee482dccdb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 021/102] fix: column groups that share their boundary column
 overlap

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index fe2110c..1574da3 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -31,7 +31,7 @@ namespace happyml {
 
             size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
 
-            if (prev_endIndex > curr->start_index_) {
+            if (prev_endIndex >= curr->start_index_) {
                 return true;
             }
         }
-- 
2.43.0


From 69ad5330bd86e8bc976a1309f899a132b1029152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 022/102] fix: renormalizing a dataset uses each column's own
 metadata

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 00e4b9f..fe9481d 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -258,19 +258,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->min_value, renormalize_given_metadata_[given_offset]->max_value,
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
+                given_offset++;
                 given_tensors.push_back(next_tensor);
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
+                expected_offset++;
                 expected_tensors.push_back(next_tensor);
             }
             return {given_tensors, expected_tensors};
-- 
2.43.0


From de189661ee69b7c5d30067ff647ad5191a29b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 023/102] fix: a split of a dataset is drawn from all of its
 rows

---
 src/training_data/training_dataset.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..4f18b31 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -79,7 +79,9 @@ namespace happyml {
                 throw std::runtime_error("Could not open file: " + file_path);
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
-            split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            if (split > -1.0f && split < 1.0f) {
+                split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            }
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
@@ -97,7 +99,9 @@ namespace happyml {
                 throw std::runtime_error("Could not open file: " + file_path);
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
-            split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            if (split > -1.0f && split < 1.0f) {
+                split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            }
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
@@ -136,8 +140,8 @@ namespace happyml {
             auto shuffled_offset = shuffler_ != nullptr ? shuffler_->getShuffledIndex(current_offset_) : current_offset_;
             // we have to shuffle an extra time because we are splitting the dataset and the original data may be ordered
             // we want our split to have a fair distribution of data. The split shuffler is never reshuffled.
-            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset);
-            auto pair = reader_.readRow(shuffled_offset + first_record_offset_);
+            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset + first_record_offset_);
+            auto pair = reader_.readRow(split_shuffled_offset);
             current_offset_++;
             auto result = make_shared<TrainingPair>(pair.first, pair.second);
             return result;
-- 
2.43.0


From 0b972e2c77b7bd697212377e3bcc21abea76575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 024/102] fix: a row with too few columns is refused instead of
 read out of bounds

---
 src/training_data/training_dataset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 4f18b31..37c35eb 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -346,6 +346,13 @@ namespace happyml {
         while (reader.hasNext()) {
             records_updated++;
             auto record = reader.nextRecord();
+            for (const auto &columns: {given_columns, expected_columns}) {
+                for (const auto &column: columns) {
+                    if (column->start_index_ + column->source_column_count_ > record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " has only " + to_string(record.size()) + " columns.");
+                    }
+                }
+            }
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
-- 
2.43.0


From 6f88c6c25c80d790784dd8dbffb2b232942dfa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 025/102] fix: standardized columns are normalized with the
 range of the standardized values

---
 src/util/dataset_utils.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 1574da3..7038683 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -174,6 +174,19 @@ namespace happyml {
         return next_metadata;
     }
 
+    // Values are standardized before they are normalized, so the range has to be the range of the standardized values.
+    void set_normalization_range(const shared_ptr<BinaryColumnMetadata> &metadata,
+                                 const shared_ptr<StandardizationAndNormalizationValues> &values) {
+        double min_value = values->min_value;
+        double max_value = values->max_value;
+        if (metadata->is_standardized) {
+            min_value = (min_value - values->mean_result) / values->standard_deviation;
+            max_value = (max_value - values->mean_result) / values->standard_deviation;
+        }
+        metadata->min_value = (float) min_value;
+        metadata->max_value = (float) max_value;
+    }
+
     void normalize_and_standardize_dataset(const string &raw_binary_file,
                                            const string &dataset_path) {
 
@@ -238,8 +251,7 @@ namespace happyml {
                     given_metadata[i]->mean = (float) given_standardization_values[i]->mean_result;
                     given_metadata[i]->standard_deviation = (float) given_standardization_values[i]->standard_deviation;
                     given_metadata[i]->is_normalized = is_numeric_value;
-                    given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
-                    given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
+                    set_normalization_range(given_metadata[i], given_standardization_values[i]);
                 }
             }
             if (expected_has_numbers) {
@@ -249,8 +261,7 @@ namespace happyml {
                     expected_metadata[i]->mean = (float) expected_standardization_values[i]->mean_result;
                     expected_metadata[i]->standard_deviation = (float) expected_standardization_values[i]->standard_deviation;
                     expected_metadata[i]->is_normalized = is_numeric_value;
-                    expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
-                    expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
+                    set_normalization_range(expected_metadata[i], expected_standardization_values[i]);
                 }
             }
         }
-- 
2.43.0


From d484661eb94b47f0b714c2b68b8637f82af5802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 026/102] fix: a dataset keeps the number of source columns of
 each column group

---
 src/util/dataset_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 7038683..883d75f 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -201,6 +201,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getGivenTensorPurpose(i),
                                                                                         binaryDatasetReader.getGivenTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_given_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_given_metadata(i)->source_column_count;
             given_metadata.emplace_back(next_metadata);
             given_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (given_metadata[i]->purpose == 'N') {
@@ -216,6 +217,7 @@ namespace happyml {
                                                                                         binaryDatasetReader.getExpectedTensorPurpose(i),
                                                                                         binaryDatasetReader.getExpectedTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_expected_name(i));
+            next_metadata->source_column_count = binaryDatasetReader.get_expected_metadata(i)->source_column_count;
             expected_metadata.emplace_back(next_metadata);
             expected_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (expected_metadata[i]->purpose == 'N') {
-- 
2.43.0


From 732c35172a6476867a644bcf4eab77b1ba3b4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 027/102] fix: tsv and txt datasets are read from their path,
 not their URL, and do not overwrite a csv beside them

---
 .../statements/create_dataset_statement.hpp   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..a5f7946 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -16,6 +16,20 @@
 
 namespace happyml {
 
+    // Removes a temporary file, however the scope is left.
+    struct TemporaryFile {
+        explicit TemporaryFile(string file_path) : path(std::move(file_path)) {}
+
+        TemporaryFile(const TemporaryFile &) = delete;
+
+        ~TemporaryFile() {
+            error_code ignored;
+            filesystem::remove(path, ignored);
+        }
+
+        const string path;
+    };
+
     class CreateDatasetStatement : public ExecutableStatement {
     public:
         CreateDatasetStatement(string name,
@@ -101,16 +115,20 @@ namespace happyml {
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
-            string current_location = base_file_path + ".csv";
+            string source_location = location_.substr(index_of_start_of_file_name);
+            string current_location = source_location;
+            TemporaryFile converted(base_file_path + ".converted.csv");
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                current_location = converted.path;
+                if (!convert_txt_to_csv(source_location, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                current_location = converted.path;
+                if (!convert_tsv_to_csv(source_location, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
-- 
2.43.0


From 82abdc9cbe7b6d80a1d7b988d6b0cd4839b6adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 028/102] fix: a failed create dataset leaves no temporary
 files behind

---
 src/lang/statements/create_dataset_statement.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index a5f7946..d1fce6b 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -174,7 +174,8 @@ namespace happyml {
             if(verbose_) {
                 cout << "Moving given columns before expected columns and dropping unused columns. This aids in deduping." << endl;
             }
-            auto organized_location = base_file_path + ".given-expected.csv";
+            TemporaryFile organized(base_file_path + ".given-expected.csv");
+            const auto &organized_location = organized.path;
             if (!update_column_positions(current_location, organized_location, given_column_groups, expected_column_groups, has_header)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
@@ -183,7 +184,8 @@ namespace happyml {
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
             }
-            auto sorted_location = base_file_path + ".sorted.csv";
+            TemporaryFile sorted(base_file_path + ".sorted.csv");
+            const auto &sorted_location = sorted.path;
             if (!FileSorter::sort(organized_location, sorted_location, false)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not sort the given-expected file.");
@@ -194,6 +196,7 @@ namespace happyml {
             }
 
             string new_dataset_path = context->get_dataset_path(name_);
+            TemporaryFile raw(new_dataset_path + "/raw.bin");
 
             if(verbose_) {
                 cout << "Converting to binary and deduping." << endl;
-- 
2.43.0


From d28261ea215160b41f0a0fe5e6c83b3fa02ec6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 029/102] fix: an interrupted create dataset no longer leaves a
 truncated dataset under its name

---
 src/util/dataset_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 883d75f..8d14619 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -268,8 +268,10 @@ namespace happyml {
             }
         }
 
+        // The dataset appears under its name only once it is complete.
         auto new_dataset_path = dataset_path + "/dataset.bin";
-        BinaryDatasetWriter binaryDatasetWriter(new_dataset_path, given_metadata, expected_metadata, 0);
+        auto incomplete_dataset_path = new_dataset_path + ".tmp";
+        BinaryDatasetWriter binaryDatasetWriter(incomplete_dataset_path, given_metadata, expected_metadata, 0);
         size_t row_count = binaryDatasetReader.rowCount();
         for (size_t index = 0; index < row_count; ++index) {
             auto row = binaryDatasetReader.readRow(index);
@@ -289,6 +291,7 @@ namespace happyml {
         }
         binaryDatasetWriter.close();
         binaryDatasetReader.close();
+        filesystem::rename(incomplete_dataset_path, new_dataset_path);
     }
 
 
-- 
2.43.0


From 66442565379403f1b1ef184c47cd468b14b77d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 030/102] fix: a split of a dataset and its complement share no
 row

---
 src/training_data/training_dataset.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 37c35eb..0ca2205 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -85,10 +85,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = rows_in_fraction(reader_.rowCount(), split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = rows_in_fraction(reader_.rowCount(), 1.0f + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -105,10 +105,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = rows_in_fraction(reader_.rowCount(), split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = rows_in_fraction(reader_.rowCount(), 1.0f + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -174,6 +174,11 @@ namespace happyml {
 
 
     private:
+        // Fractions count in steps of 1/10000, so that a split and its complement agree on where the split is.
+        static size_t rows_in_fraction(size_t row_count, float fraction) {
+            return row_count * static_cast<size_t>(llround(fraction * 10000.0)) / 10000;
+        }
+
         BinaryDatasetReader reader_;
         size_t current_offset_ = 0;
         size_t first_record_offset_ = 0;
-- 
2.43.0


From c8bfeb3f9791479ef20fd43e0ea4978b0d770986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 031/102] fix: a dataset file that ends inside its header is
 refused

---
 src/util/file_reader.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index fe9481d..f10138b 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -435,6 +435,12 @@ namespace happyml {
             number_of_rows_ = static_cast<size_t>(filesystem::file_size(path_) - header_size_) / row_size_;
         }
 
+        void requireHeader() {
+            if (!binaryFile_) {
+                throw runtime_error("The header of " + path_ + " is incomplete.");
+            }
+        }
+
         shared_ptr<BinaryColumnMetadata> readColumnMetadata() {
             shared_ptr<BinaryColumnMetadata> metadata = make_shared<BinaryColumnMetadata>();
             binaryFile_.read(reinterpret_cast<char *>(&metadata->purpose), sizeof(char));
@@ -470,26 +476,32 @@ namespace happyml {
             binaryFile_.read(reinterpret_cast<char *>(&portableChannels), sizeof(uint64_t));
             metadata->channels = portableBytes(portableChannels);
 
+            requireHeader();
             uint64_t portable_label_count;
             binaryFile_.read(reinterpret_cast<char *>(&portable_label_count), sizeof(uint64_t));
+            requireHeader();
             size_t label_count = portableBytes(portable_label_count);
             for (size_t next_label = 0; next_label < label_count; next_label++) {
                 uint64_t label_length;
                 binaryFile_.read(reinterpret_cast<char *>(&label_length), sizeof(uint64_t));
+                requireHeader();
                 auto portable_label_length = portableBytes(label_length);
                 auto label_length_streamsize = static_cast<streamsize>(portable_label_length);
                 vector<char> char_array(label_length_streamsize, 0);
                 binaryFile_.read(char_array.data(), label_length_streamsize);
+                requireHeader();
                 string label(char_array.data(), label_length_streamsize);
                 metadata->ordered_labels.push_back(label);
             }
 
             uint64_t column_name_length;
             binaryFile_.read(reinterpret_cast<char *>(&column_name_length), sizeof(uint64_t));
+            requireHeader();
             auto portable_column_name_length = portableBytes(column_name_length);
             auto column_name_length_streamsize = static_cast<streamsize>(portable_column_name_length);
             std::vector<char> column_name_char_array(column_name_length_streamsize, 0);
             binaryFile_.read(column_name_char_array.data(), column_name_length_streamsize);
+            requireHeader();
             string column_name(column_name_char_array.begin(), column_name_char_array.end());
             metadata->name = column_name;
 
-- 
2.43.0


From 822cf00badcbb31a21f0b58a204df00f455a1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 032/102] fix: writing a dataset or a delimited file reports
 storage errors

---
 src/util/file_writer.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index d954916..976a7ce 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -42,7 +42,9 @@ namespace happyml {
             if (!stream_.is_open()) {
                 throw runtime_error("File is closed.");
             }
-            stream_ << line << endl;
+            if (!(stream_ << line << endl)) {
+                throw runtime_error("Could not write to " + filename_);
+            }
         }
 
         bool is_open() {
@@ -137,7 +139,7 @@ namespace happyml {
         }
 
         ~BinaryDatasetWriter() {
-            close();
+            finish();
         }
 
         bool is_open() {
@@ -145,9 +147,9 @@ namespace happyml {
         }
 
         void close() {
-            if (binaryFile_.is_open()) {
-                binaryFile_.flush();
-                binaryFile_.close();
+            finish();
+            if (!binaryFile_) {
+                throw runtime_error("Could not write the whole dataset.");
             }
         }
 
@@ -172,6 +174,9 @@ namespace happyml {
             for (const auto &tensor: expected_tensors) {
                 tensor->save(binaryFile_, false);
             }
+            if (!binaryFile_) {
+                throw runtime_error("Could not write a dataset row.");
+            }
             return true;
         }
 
@@ -181,6 +186,13 @@ namespace happyml {
         vector<shared_ptr<BinaryColumnMetadata>> expected_metadata_;
         shared_ptr<LruCache < size_t, bool>> lru_cache_;
 
+        void finish() {
+            if (binaryFile_.is_open()) {
+                binaryFile_.flush();
+                binaryFile_.close();
+            }
+        }
+
         void writeHeader() {
             uint64_t number_of_given = given_metadata_.size();
             if (number_of_given == 0) {
-- 
2.43.0


From 22eb90d22843f6aed1f08bff8182ac3b0928c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 033/102] fix: sorting reports storage errors instead of
 dropping lines

---
 src/util/text_file_sorter.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index e8a0e1d..18080b1 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -40,6 +40,7 @@ namespace happyml {
                 std::getline(input, header);
             }
 
+            bool complete = true;
             size_t chunk_counter = 0;
             std::vector<std::string> chunk_paths;
             while (std::getline(input, line)) {
@@ -57,6 +58,7 @@ namespace happyml {
                         chunk_output << sorted_line << '\n';
                     }
                     chunk_output.close();
+                    complete = complete && !chunk_output.fail();
 
                     ++chunk_counter;
                     lines.clear();
@@ -73,13 +75,16 @@ namespace happyml {
                     chunk_output << sorted_line << '\n';
                 }
                 chunk_output.close();
+                complete = complete && !chunk_output.fail();
                 ++chunk_counter;
             }
 
+            complete = complete && !input.bad();
             input.close();
-            bool merged = merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            bool merged = complete && merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
-                std::filesystem::remove(chunk_path);
+                std::error_code ignored;
+                std::filesystem::remove(chunk_path, ignored);
             }
             return merged;
         }
@@ -155,6 +160,7 @@ namespace happyml {
             output.close();
             bool written = !output.fail();
             for (auto &chunk_file: chunk_files) {
+                written = written && !chunk_file.bad();
                 chunk_file.close();
             }
             return written;
-- 
2.43.0


From 8194abf08c8122be211b74ccbf79dcea150ef246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 034/102] fix: an error while reading a file is reported
 instead of taken for its end

---
 src/util/file_reader.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index f10138b..7214b8f 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -74,6 +74,7 @@ namespace happyml {
                     if (getline(stream, line)) {
                         next_line = line;
                     } else {
+                        requireReadable();
                         has_next = false;
                         next_line = "";
                         // continue with the next file that has a line to offer
@@ -88,6 +89,7 @@ namespace happyml {
                                 next_line = line;
                                 has_next = true;
                             }
+                            requireReadable();
                         }
                         if (!has_next) {
                             stream.close();
@@ -103,9 +105,17 @@ namespace happyml {
         }
 
     private:
+        // an error while reading is not the end of the file
+        void requireReadable() {
+            if (stream.bad()) {
+                throw runtime_error("Could not read " + filenames[current_file]);
+            }
+        }
+
         void skipHeader() {
             string line;
             getline(stream, line);
+            requireReadable();
         }
 
         vector<string> filenames;
@@ -276,6 +286,9 @@ namespace happyml {
                 expected_offset++;
                 expected_tensors.push_back(next_tensor);
             }
+            if (!binaryFile_) {
+                throw runtime_error("Could not read row " + to_string(index) + " of " + path_);
+            }
             return {given_tensors, expected_tensors};
         }
 
-- 
2.43.0


From 87cbd8a67b559a84f8adb36f6d0892c70cae4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 035/102] fix: create dataset does not report failure once the
 dataset exists

---
 src/lang/statements/create_dataset_statement.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index d1fce6b..9dff6a5 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -219,10 +219,6 @@ namespace happyml {
 
             normalize_and_standardize_dataset(raw_location,
                                               new_dataset_path);
-            if (!filesystem::remove(raw_location)) {
-                return make_shared<ExecutionResult>(false, false,
-                                                    "Could not remove the clean dataset file.");
-            }
             return make_shared<ExecutionResult>(false, true, "Created.");
         }
 
-- 
2.43.0


From 3218ef0c6a2e1378258d5aecdb03b4ad0b0714cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:38 +0000
Subject: [PATCH 036/102] fix: a delimited file that cannot be opened is not an
 empty dataset

---
 src/util/dataset_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 8d14619..4b711a7 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -361,6 +361,9 @@ namespace happyml {
 
 
         DelimitedTextFileReader delimitedTextFileReader(delimited_file_path, delimiter, header_row);
+        if (!delimitedTextFileReader.is_open()) {
+            throw runtime_error("Could not read " + delimited_file_path);
+        }
 
         vector<shared_ptr<BinaryColumnMetadata>> given_metadata;
         vector<shared_ptr<BinaryColumnMetadata>> expected_metadata;
-- 
2.43.0


From e78728a61eb2d8399a69f35a06e02a3138f71ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 037/102] fix: a statement that ends early is a syntax error,
 not an exception

---
 src/lang/parser/parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..6db5753 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,12 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            try {
+                return parseCodeBlock(lexResult->getMatchStream());
+            } catch (const exception &e) {
+                // the text ended in the middle of a statement, or a value could not be converted
+                return generateError(string("Malformed statement: ") + e.what() + " near ", lexResult->getMatchStream()->previous());
+            }
         }
 
     private:
-- 
2.43.0


From 5a1ff0beb2db08a76656f6390e87ad136fb724bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 038/102] fix: exit ends a script

---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 3ff459b53603bb52414b6801cdb4cd49dd016e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 039/102] fix: an empty line does not read before the start of
 the line

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..5a202fa 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -75,7 +75,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From f397cbbd22df19ff89d6c18ec0e2eae19567da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 040/102] fix: the language is case-insensitive throughout

---
 src/lang/parser/parser.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 6db5753..399a750 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -57,7 +57,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -65,10 +65,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
@@ -98,7 +98,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -154,13 +154,13 @@ namespace happyml {
             }
             stream->consume(3); // :// that follows the https or file
             stringstream url;
-            url << scheme->getValue() << "://";
+            url << asLower(scheme->getValue()) << "://";
             auto nextLabel = stream->peek()->getLabel();
             // TODO: this is a bit of a hack, but it works for now. Keywords aren't currently allowed in
             //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
             //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
             //  if we didn't do this check, we'd keep going for the rest of the file.
-            while ("raw" == stream->peek()->getValue() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
+            while ("_raw" == nextLabel || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
                    || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
                    || "_underscore" == nextLabel) {
                 url << stream->next()->getValue();
@@ -199,16 +199,16 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
                         test_dataset_name = stream->next()->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -221,7 +221,7 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -260,7 +260,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From a9d6fd1ea1e1c4ced5e64875230284bf15c96f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 041/102] fix: help does not swallow the statement after it

---
 src/lang/parser/parser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 399a750..1aabb60 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -52,8 +52,12 @@ namespace happyml {
             return make_shared<ParseResult>(error_message.str(), false);
         }
 
+        static bool startsStatement(const string &label) {
+            return "_help" == label || "_print" == label || "_create" == label || "_execute" == label || "_exit" == label;
+        }
+
         static shared_ptr<ParseResult> parseHelpStatement(const shared_ptr<TokenStream> &stream) {
-            if (!stream->hasNext()) {
+            if (!stream->hasNext() || startsStatement(stream->peek()->getLabel())) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-- 
2.43.0


From be5acbe02f774a76e6f5be92947271eaa329ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 042/102] fix: a column group without values is refused instead
 of dividing by zero

---
 src/lang/statements/create_dataset_statement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 9dff6a5..02b7c83 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -86,6 +86,10 @@ namespace happyml {
                 } else if (columnGroup->data_type_ == "text" && !has_text) {
                     has_text = true;
                 }
+                if (columnGroup->source_column_count_ == 0) {
+                    return make_shared<ExecutionResult>(false, false,
+                                                        "create dataset's columns must have at least one row, column, and channel.");
+                }
                 if (columnGroup->use_ != "expected" && columnGroup->use_ != "given") {
                     return make_shared<ExecutionResult>(false, false,
                                                         "create dataset's use must be one of: expected or given.");
-- 
2.43.0


From 2b22469a455e681cacf1f000fc44a09ec54ec28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 043/102] fix: a script that cannot be opened is an error

---
 src/lang/interpreter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 5a202fa..bc10164 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -50,6 +50,9 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open()) {
+                    throw runtime_error("Could not open script " + filePath);
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
-- 
2.43.0


From de13bade6d90973bdc00041a3a3d8af21871f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 044/102] fix: a path may contain words that are keywords

---
 src/lang/parser/parser.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 1aabb60..34ed164 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -56,6 +56,10 @@ namespace happyml {
             return "_help" == label || "_print" == label || "_create" == label || "_execute" == label || "_exit" == label;
         }
 
+        static bool isKeyword(const shared_ptr<Token> &token) {
+            return "_" + asLower(token->getValue()) == token->getLabel();
+        }
+
         static shared_ptr<ParseResult> parseHelpStatement(const shared_ptr<TokenStream> &stream) {
             if (!stream->hasNext() || startsStatement(stream->peek()->getLabel())) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
@@ -160,14 +164,16 @@ namespace happyml {
             stringstream url;
             url << asLower(scheme->getValue()) << "://";
             auto nextLabel = stream->peek()->getLabel();
-            // TODO: this is a bit of a hack, but it works for now. Keywords aren't currently allowed in
-            //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
-            //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
-            //  if we didn't do this check, we'd keep going for the rest of the file.
+            // A keyword is part of the url only when it directly follows what is already there, otherwise
+            //  we'd keep going for the rest of the file.
+            size_t end_of_url = stream->previous()->getOffset() + stream->previous()->getLength();
             while ("_raw" == nextLabel || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
                    || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
-                   || "_underscore" == nextLabel) {
-                url << stream->next()->getValue();
+                   || "_underscore" == nextLabel
+                   || (stream->peek()->getOffset() == end_of_url && isKeyword(stream->peek()))) {
+                auto part = stream->next();
+                end_of_url = part->getOffset() + part->getLength();
+                url << part->getValue();
                 if (!stream->hasNext()) {
                     break;
                 }
-- 
2.43.0


From 493cb5a00adb29f65f080fd172375ddfff01f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 045/102] fix: a command that fails does not end an interactive
 session

---
 src/lang/interpreter.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index bc10164..be81c3b 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -85,7 +85,12 @@ namespace happyml {
                 } else {
                     // Add the line to the buffer and interpret the command
                     fullLine += nextLine;
-                    const bool done = interpretCommands(fullLine, "cli");
+                    bool done = false;
+                    try {
+                        done = interpretCommands(fullLine, "cli");
+                    } catch (const exception &e) {
+                        cerr << e.what() << endl;
+                    }
                     if (done) {
                         break;
                     }
-- 
2.43.0


From 4a18be8db355b9c29d6bed1a88acb0298c607767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:05 +0000
Subject: [PATCH 046/102] fix: an image is printed with the brightness of its
 pixels

---
 src/training_data/data_decoder.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a3ed2d9..ec32daf 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -182,14 +182,15 @@ namespace happyml {
                             grayScale += 0.299f * red + 0.587f * green + 0.114f * blue;
                             grayScale /= 2.0f;
                         }
-                    } else if (channels == 1) {
-                        grayScale = tensor->getValue(row, col, 0);
-                        if (row + 1 < rows) {
-                            grayScale += tensor->getValue(row + 1, col, 0);
-                            grayScale /= 2.0f;
+                    } else {
+                        for (size_t channel = 0; channel < channels; channel++) {
+                            grayScale += tensor->getValue(row, col, channel);
+                            if (row + 1 < rows) {
+                                grayScale += tensor->getValue(row + 1, col, channel);
+                            }
                         }
+                        grayScale /= (float) (channels * (row + 1 < rows ? 2 : 1));
                     }
-                    grayScale /= (float) (channels * (row + 1 < rows ? 2 : 1));
                     // Normalize the grayscale value to range [0, 1]
                     grayScale = (grayScale < 0.0f) ? 0.0f : ((grayScale > 1.0f) ? 1.0f : grayScale);
                     largest_value = max(largest_value, grayScale);
-- 
2.43.0


From b65beb51160afe844dc03b6271572ce85642d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 047/102] fix: the last, smaller batch of an epoch counts as a
 batch of its own in the training loss

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..2812841 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -487,7 +487,7 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        size_t currentBatch = (current_record + batchSize - 1) / batchSize;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer);
                         }
-- 
2.43.0


From 848149419bb2ea771aeebeeb3d121ab6468cbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 048/102] fix: the derivative of the mean absolute error is the
 sign of the error

---
 src/ml/losses/mae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..75c7e54 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,7 +33,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float original) {
+                return (float) (original > 0.0f) - (float) (original < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
-- 
2.43.0


From 1bd8469ceaf754c8d5771465dc0c5e223c4631d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 049/102] fix: the derivative of the smooth mean absolute error
 points away from the truth for large errors

---
 src/ml/losses/smae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..6453a23 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float original) {
+                return (float) (original > 0.0f) - (float) (original < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From bc2e8f33ce25a7e46d0974e41682037a7dd31f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 050/102] fix: softmax passes the shortcut derivative of
 categorical cross-entropy on unchanged

---
 src/ml/activators/softmax_activation_function.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..734d73c 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_SOFTMAX_ACTIVATION_FUNCTION_HPP
 
 #include "../types/tensor_views/value_transform_with_double_tensor_view.hpp"
+#include "../../types/tensor_impls/uniform_tensor.hpp"
 #include "../../types/tensor_views/exponential_tensor_view.hpp"
 #include "../../types/tensor_views/scalar_subtract_tensor_view.hpp"
 
@@ -28,7 +29,7 @@ namespace happyml {
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
             // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            return std::make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From ad324643122a7fa7c7f1e1633966ad4c3f5687e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 051/102] fix: flattening a tensor with several channels can be
 undone when learning

---
 src/ml/layers/flatten_layer.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..5f999ec 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -18,7 +18,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +28,30 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            if (originalChannels == 1) {
+                return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            }
+            // a reshape keeps the number of channels, so we give each channel its part of the flattened error.
+            vector<vector<vector<float>>> input_error(originalChannels, vector<vector<float>>(originalRows, vector<float>(originalCols)));
+            size_t offset = 0;
+            for (auto &channel: input_error) {
+                for (auto &row: channel) {
+                    for (auto &value: row) {
+                        value = output_error->getValue(offset++);
+                    }
+                }
+            }
+            return {make_shared<FullTensor>(input_error)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
-- 
2.43.0


From 4405e597a72bd8d21fd232b08682b12eefef2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 052/102] fix: a full layer flattens an input of one row and
 several channels

---
 src/ml/happyml_dsl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..44f010c 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -418,7 +418,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
-- 
2.43.0


From 6e9ef68ebde11fab7dbf95cde9f5f56e2de912d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 053/102] fix: a dropout layer keeps the shape of its input,
 which is the shape it promises to the next layer

---
 src/ml/happyml_dsl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 44f010c..be10b17 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -454,10 +454,6 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
-                        auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
-                        last_node = appendNode(last_node, flatten_node);
-                    }
                     string dropoutNodeLabel = asString(vertexUniqueId) + "_dropout";
                     next_node = make_shared<NeuralNetworkNode>(make_shared<DropoutLayer>(dropoutNodeLabel, inputShape, dropout_rate));
                 } else if (node_type == LayerType::convolution2dValid) {
-- 
2.43.0


From e4a0820dbab4fb24aa7cc02f4e764fd753ce84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 054/102] fix: the error of one of several outputs of a node
 counts once when they are averaged

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..8374e70 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -244,7 +244,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From 6f80aaa20f22199d3844826a424db3fc6a6c4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 055/102] fix: a node that feeds several nodes or outputs is
 updated once per batch

---
 src/ml/neural_network.hpp      | 3 ++-
 src/ml/neural_network_node.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 2812841..615e823 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -488,8 +488,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         size_t currentBatch = (current_record + batchSize - 1) / batchSize;
+                        std::unordered_set<void *> visited;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, visited);
                         }
                         batchLoss /= (float) batchOffset;
                         epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 8374e70..de556f4 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -183,12 +183,16 @@ namespace happyml {
             return clipped;
         }
 
-        void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+        // visited keeps nodes that several other nodes depend on from being applied more than once per batch
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From 13f1e5f940ff3ccbc25e182e5a04607c27bfabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 056/102] fix: the input error of a convolution keeps its
 channels apart

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..2ee5daa 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From eb25a8c419ac20ff8a6af4468d201988a3e2b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 057/102] fix: L2 regularization of a convolution is about its
 weights, not their error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 2ee5daa..fa5ee2a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -143,7 +143,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From b00b875e127d5f5719d246d630ef6bd10d166917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 058/102] fix: normalization passes back the derivative of
 standardizing its input

---
 src/ml/layers/normalization_layer.hpp         |  9 +++--
 .../standardize_derivative_tensor_view.hpp    | 37 +++++++++----------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..3ca446a 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -18,6 +18,7 @@ namespace happyml {
     public:
         explicit NormalizationLayer() {
             lastInput = nullptr;
+            lastNormalized = nullptr;
         }
 
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
@@ -30,7 +31,8 @@ namespace happyml {
 
             shared_ptr<StandardizeTensorView> normTensor = make_shared<StandardizeTensorView>(inputTensor);
             if (forTraining) {
-                lastInput = normTensor;
+                lastInput = inputTensor;
+                lastNormalized = normTensor;
             }
 #ifdef DEBUG_TRAIN_NAN
             if (normTensor->hasNaNOrInf()) {
@@ -48,7 +50,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastNormalized->get_mean(), lastNormalized->get_std_dev());
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
@@ -60,7 +62,8 @@ namespace happyml {
         }
 
     private:
-        shared_ptr<StandardizeTensorView> lastInput;
+        shared_ptr<BaseTensor> lastInput;
+        shared_ptr<StandardizeTensorView> lastNormalized;
     };
 
 }
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..f90e650 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -18,28 +18,24 @@ namespace happyml {
     public:
         explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+            // every standardized value depends on every input through the mean and the standard deviation, so
+            // every value of the derivative needs the average of d_output and of d_output * standardized.
+            double sum_d_output = 0.0;
+            double sum_d_output_by_standardized = 0.0;
+            const size_t total_elements = input->size();
+            for (size_t element = 0; element < total_elements; ++element) {
+                const double d_output_value = d_output->getValue(element);
+                sum_d_output += d_output_value;
+                sum_d_output_by_standardized += d_output_value * ((input->getValue(element) - mean) / std_dev);
+            }
+            average_d_output_ = (float) (sum_d_output / (double) total_elements);
+            average_d_output_by_standardized_ = (float) (sum_d_output_by_standardized / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            // get corresponding values
-            float d_output_value = child_->getValue(row, column, channel);
-            float input_value = input_->getValue(row, column, channel);
-
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
-
-            // return total gradient
-            return dx1 + dx2 + dx3;
+            const float d_output_value = child_->getValue(row, column, channel);
+            const float standardized = (input_->getValue(row, column, channel) - mean_) / std_dev_;
+            return (d_output_value - average_d_output_ - standardized * average_d_output_by_standardized_) / std_dev_;
         }
 
         void printMaterializationPlan() override {
@@ -51,7 +47,8 @@ namespace happyml {
         float mean_;
         float std_dev_;
         shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float average_d_output_;
+        float average_d_output_by_standardized_;
     };
 }
 
-- 
2.43.0


From 79ad45776a60c6b11dc489d4e3c1a8188795d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 059/102] fix: the filters of a convolution do not share the
 state of the optimizer

---
 src/ml/happyml_dsl.hpp                       |  6 +++++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index be10b17..2b5a962 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -459,9 +459,13 @@ namespace happyml {
                 } else if (node_type == LayerType::convolution2dValid) {
                     auto inputShape = inputShapes[0];
                     string c2dvLabel = asString(vertexUniqueId) + "_c2dv";
+                    vector<int> filter_registration_ids;
+                    for (size_t next_filter = 0; next_filter < filters; next_filter++) {
+                        filter_registration_ids.push_back(optimizer->registerForWeightChanges());
+                    }
                     auto c2d = make_shared<Convolution2dValidFunction>(c2dvLabel, inputShape, filters, kernel_size,
                                                                        bits,
-                                                                       optimizer->registerForWeightChanges(),
+                                                                       filter_registration_ids,
                                                                        use_l2_regularization,
                                                                        regularization_strength);
                     next_node = make_shared<NeuralNetworkNode>(c2d);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index fa5ee2a..50884af 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -17,11 +17,11 @@ namespace happyml {
     public:
         Convolution2dValidFunction(const string &label,
                                    vector<size_t> inputShape, size_t filters, size_t kernelSize, uint8_t bits,
-                                   int optimizer_registration_id,
+                                   const vector<int> &optimizer_registration_ids,
                                    bool use_l2_regularization,
                                    float regularization_strength) {
             this->label = label;
-            this->registration_id = optimizer_registration_id;
+            this->registration_ids = optimizer_registration_ids;
             this->inputShape = inputShape;
             this->kernelSize = kernelSize;
             this->outputShape = {inputShape[0] - kernelSize + 1, inputShape[1] - kernelSize + 1, filters};
@@ -30,7 +30,7 @@ namespace happyml {
             this->weights = {};
             this->regularization_strength = regularization_strength;
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
-                this->weights.push_back(make_shared<TensorFromXavier>(kernelSize, kernelSize, inputShape[2], optimizer_registration_id + next_weight_layer + 42));
+                this->weights.push_back(make_shared<TensorFromXavier>(kernelSize, kernelSize, inputShape[2], optimizer_registration_ids[0] + next_weight_layer + 42));
             }
         }
 
@@ -168,7 +168,7 @@ namespace happyml {
                 weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                     auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_ids[outputLayer],
                                                                                    weights[outputLayer],
                                                                                    loss_gradient);
                     weights[outputLayer] = materializeTensor(adjustedWeights, bits);
@@ -193,7 +193,7 @@ namespace happyml {
         }
 
     private:
-        int registration_id;
+        vector<int> registration_ids; // one per filter, since the optimizer tracks state for the weights of each filter
         queue<shared_ptr<BaseTensor>> lastInputs; // each input in a batch will queue in order during forward, and deque properly when back-propagating
         queue<vector<shared_ptr<BaseTensor>>> weight_changes;
         vector<shared_ptr<BaseTensor>> weights;
-- 
2.43.0


From cdee682131eb074957adff0367c089f0e99cf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 060/102] fix: a convolution learns from the average of a
 batch, as other layers do

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 50884af..32d3738 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -163,11 +163,20 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             const size_t filters = outputShape[2];
-            while (!weight_changes.empty()) {
+            if (!weight_changes.empty()) {
+                // like other layers, we learn from the average of the changes of the batch
+                const auto current_batch_size = weight_changes.size();
                 vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
                 weight_changes.pop();
+                while (!weight_changes.empty()) {
+                    for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
+                        weightChanges[outputLayer] = make_shared<AddTensorView>(weightChanges[outputLayer], weight_changes.front()[outputLayer]);
+                    }
+                    weight_changes.pop();
+                }
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
-                    auto loss_gradient = weightChanges[outputLayer];
+                    const auto loss_gradient = materializeTensor(
+                            make_shared<ScalarDivideTensorView>(weightChanges[outputLayer], (float) current_batch_size));
                     const auto adjustedWeights = optimizer->calculateWeightsChange(registration_ids[outputLayer],
                                                                                    weights[outputLayer],
                                                                                    loss_gradient);
-- 
2.43.0


From 09a03a3b9a3d213d1752e239d7130ada17abcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 061/102] fix: a concatenation takes its inputs in the order in
 which they were given

---
 src/ml/happyml_dsl.hpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 2b5a962..2bc17ec 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -371,8 +371,14 @@ namespace happyml {
                 edges.push_back(nne);
             }
 
+            void setConcatenatedLayers(const vector<shared_ptr<NNVertex>> &layers) {
+                this->concatenated_layers = vector<weak_ptr<NNVertex>>(layers.begin(), layers.end());
+            }
+
             void reset() {
                 this->first_node = nullptr;
+                this->last_node = nullptr;
+                this->concatenated_layers_connected = false;
             }
 
             shared_ptr<NeuralNetworkForTraining> build() {
@@ -514,11 +520,16 @@ namespace happyml {
                     last_node->setMaterialized(materialized);
                 }
 
+                this->last_node = last_node;
                 vector<string> edgeMetadata{"edge", asString(getVertexUniqueId())};
                 for (const auto &edge: edges) {
                     edgeMetadata.push_back(asString(edge->to->getVertexUniqueId()));
                     auto childNode = edge->to->buildLayer(nn, networkMetadata);
-                    last_node->add(childNode);
+                    if (edge->to->concatenated_layers.empty()) {
+                        last_node->add(childNode);
+                    } else {
+                        edge->to->connectConcatenatedLayers();
+                    }
                 }
                 if (edgeMetadata.size() > 2) {
                     networkMetadata.push_back(edgeMetadata);
@@ -526,6 +537,22 @@ namespace happyml {
                 return first_node;
             }
 
+            // The inputs of a concatenation have to be connected in the order in which they were given, which isn't
+            // always the order in which they are built, so we wait for the last of them.
+            void connectConcatenatedLayers() {
+                for (const auto &layer: concatenated_layers) {
+                    if (!layer.lock()->last_node) {
+                        return;
+                    }
+                }
+                if (!concatenated_layers_connected) {
+                    concatenated_layers_connected = true;
+                    for (const auto &layer: concatenated_layers) {
+                        layer.lock()->last_node->add(first_node);
+                    }
+                }
+            }
+
             shared_ptr<ActivationFunction> createActivationFunction() const {
                 shared_ptr<ActivationFunction> activationFunction;
                 switch (activation_type) {
@@ -660,6 +687,9 @@ namespace happyml {
             float norm_clipping_threshold;
             uint8_t bits;
             shared_ptr<NeuralNetworkNode> first_node;
+            shared_ptr<NeuralNetworkNode> last_node;
+            vector<weak_ptr<NNVertex>> concatenated_layers;
+            bool concatenated_layers_connected{};
             size_t kernel_size{};
             size_t filters{};
             bool producesOutput;
@@ -764,6 +794,7 @@ namespace happyml {
             auto concatenator = make_shared<NNVertex>(shared_from_this(),
                                                       LayerType::concatenate, input_shapes,
                                                       concat_shape_vector, nextVertexId());
+            concatenator->setConcatenatedLayers(previous_layers);
             // connect the input receptors to the concatenator:
             for (auto &inputReceptor: previous_layers) {
                 inputReceptor->addEdge(concatenator);
-- 
2.43.0


From b3ad059b8b57bf5c6c71c41f14384e9484d085a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 062/102] fix: a model that is loaded has the vertices,
 connections and knowledge it was saved with

---
 src/ml/happyml_dsl.hpp | 139 +++++++++++++++--------------------------
 1 file changed, 50 insertions(+), 89 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 2bc17ec..49ad7db 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -418,6 +418,9 @@ namespace happyml {
                 metadata_row.push_back(asString(getNormClippingThreshold()));
                 metadata_row.push_back(asString(getDropoutRate()));
                 metadata_row.push_back(asString(regularization_strength));
+                for (const auto &layer: concatenated_layers) {
+                    metadata_row.push_back(asString(layer.lock()->getVertexUniqueId()));
+                }
                 networkMetadata.push_back(metadata_row);
                 shared_ptr<BaseOptimizer> optimizer = nn->getOptimizer();
                 shared_ptr<NeuralNetworkNode> next_node;
@@ -783,6 +786,14 @@ namespace happyml {
             return add_concatenated_layer(new_input_receptors);
         }
 
+        // adds a vertex of a model that was saved before
+        void addSavedVertex(const shared_ptr<NNVertex> &vertex) {
+            if (vertex->doesAcceptInput()) {
+                inputReceptors.push_back(vertex);
+            }
+            vertexUniqueSequenceCounter = max(vertexUniqueSequenceCounter, vertex->getVertexUniqueId());
+        }
+
         shared_ptr<NNVertex> add_concatenated_layer(const vector<shared_ptr<NNVertex>> &previous_layers) {
             size_t total_input_width = 0;
             vector<vector<size_t>> input_shapes;
@@ -826,9 +837,7 @@ namespace happyml {
 
     void createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
                                   const vector<string> &vertexMetadata,
-                                  const shared_ptr<HappymlDSL::NNVertex> &parent,
                                   map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
                                   map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
@@ -871,74 +880,22 @@ namespace happyml {
         float regularization_strength = stof(vertexMetadata[current_metadata_offset]);
         current_metadata_offset++;
 
-        if (acceptsInput) {
-            if (inputShapes.size() > 1) {
-                throw runtime_error("An input layer can't have multiple inputs.");
-            }
-            if (producesOutput) {
-                if (filters > 0) {
-                    createdVertexes[vertexId] = dsl->addInputOutputLayer(inputShapes[0], filters, kernels, layerType,
-                                                                         activationType);
-                } else {
-                    createdVertexes[vertexId] = dsl->addInputOutputLayer(inputShapes[0], outputShape, layerType,
-                                                                         activationType);
-                }
-            } else {
-                if (filters > 0) {
-                    createdVertexes[vertexId] = dsl->addInputLayer(inputShapes[0], filters, kernels, layerType,
-                                                                   activationType);
-                } else {
-                    createdVertexes[vertexId] = dsl->addInputLayer(inputShapes[0], outputShape, layerType,
-                                                                   activationType);
-                }
-            }
+        if (acceptsInput && inputShapes.size() > 1) {
+            throw runtime_error("An input layer can't have multiple inputs.");
+        }
+        // a vertex keeps its id, because its knowledge is saved under it.
+        if (layerType == concatenate) {
+            createdVertexes[vertexId] = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes, outputShape, vertexId);
+        } else if (filters > 0) {
+            createdVertexes[vertexId] = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes[0], filters, kernels,
+                                                                          producesOutput, acceptsInput,
+                                                                          activationType, vertexId);
         } else {
-            if (!parent) {
-                throw runtime_error("missing parent");
-            }
-
-            if (layerType == concatenate) {
-                // a concatenated layer has multiple parents.
-
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
-                vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
-                for (const auto &edge_pair: edgeFromTo) {
-                    auto edge_to_ids = edge_pair.second;
-                    // if edge_to_ids contains vertexId, then we need to add the parent to the concatenated layer
-                    if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
-                        auto edge_from_id = edge_pair.first;
-                        if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
-                        }
-                        auto edge_from_vertex = createdVertexes[edge_from_id];
-                        all_parents.push_back(edge_from_vertex);
-                    }
-                }
-                if (!all_parents_exist) {
-                    return;
-                }
-                createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
-            } else if (filters > 0) {
-                createdVertexes[vertexId] = parent->addLayer(filters,
-                                                             kernels,
-                                                             layerType,
-                                                             producesOutput,
-                                                             activationType);
-            } else {
-                if (producesOutput && layerType != full) {
-                    throw runtime_error("output node type wasn't full");
-                }
-                createdVertexes[vertexId] = parent->addLayer(inputShapes[0],
-                                                             outputShape,
-                                                             layerType,
-                                                             producesOutput,
-                                                             activationType);
-            }
+            createdVertexes[vertexId] = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes[0], outputShape,
+                                                                          producesOutput, acceptsInput,
+                                                                          activationType, vertexId);
         }
+        dsl->addSavedVertex(createdVertexes[vertexId]);
         createdVertexes[vertexId]->setMaterialized(isMaterialized);
         createdVertexes[vertexId]->setUseBias(useBias);
         createdVertexes[vertexId]->setBits(bits);
@@ -949,20 +906,23 @@ namespace happyml {
         createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
         createdVertexes[vertexId]->setDropoutRate(dropout_rate);
 
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
+        if (layerType == concatenate) {
+            // the order of the concatenated layers matters, so it is saved (but models that were saved by older versions lack it.)
+            vector<shared_ptr<HappymlDSL::NNVertex>> concatenated_layers;
+            if (current_metadata_offset < vertexMetadata.size()) {
+                for (; current_metadata_offset < vertexMetadata.size(); current_metadata_offset++) {
+                    concatenated_layers.push_back(createdVertexes.at(stoul(vertexMetadata[current_metadata_offset])));
+                }
+            } else {
+                for (const auto &[from_id, to_ids]: edgeFromTo) {
+                    for (auto to_id: to_ids) {
+                        if (to_id == vertexId) {
+                            concatenated_layers.push_back(createdVertexes.at(from_id));
+                        }
+                    }
                 }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
             }
+            createdVertexes[vertexId]->setConcatenatedLayers(concatenated_layers);
         }
     }
 
@@ -1002,7 +962,6 @@ namespace happyml {
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
         map<uint32_t, vector<string>> vertexes;
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
@@ -1010,10 +969,6 @@ namespace happyml {
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
-                }
             } else {
                 uint32_t fromLabel = stoul(nextRecord[1]);
                 vector<uint32_t> toLabels;
@@ -1025,15 +980,21 @@ namespace happyml {
             }
         }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
+        // a vertex is always created after the ones it depends on, so its id is bigger than theirs.
+        for (const auto &[vertexId, vertexMetadata]: vertexes) {
             createVertexFromMetadata(dsl,
                                      vertexMetadata,
-                                     nullptr,
                                      createdVertexes,
-                                     vertexes,
                                      edgeFromTo);
         }
+        for (const auto &[fromId, toIds]: edgeFromTo) {
+            for (auto toId: toIds) {
+                if (createdVertexes.count(fromId) < 1 || createdVertexes.count(toId) < 1) {
+                    throw runtime_error("Bad model definition. Edge not found!");
+                }
+                createdVertexes[fromId]->addEdge(createdVertexes[toId]);
+            }
+        }
 
         auto resultNeuralNetwork = dsl->build();
         resultNeuralNetwork->loadKnowledge("default");
-- 
2.43.0


From 9bd9938b8a7cb05b7c9857188b1f8e7d97429bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 063/102] fix: a model saved beside an existing one takes its
 knowledge along

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 615e823..949b93d 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 70f7e8170ba364fdacc96005dcb061a8c70b3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 064/102] fix: what is saved beside something existing never
 replaces an earlier save

---
 src/ml/neural_network.hpp | 9 ++++++---
 src/util/data_util.hpp    | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 949b93d..5e9d8ce 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -222,9 +222,12 @@ namespace happyml {
                     auto canonicalModelPath = filesystem::canonical(modelPath);
                     cerr << "Model path " << canonicalModelPath
                          << " already existed, attempting to save to the new location: ";
-                    auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
-                            chrono::system_clock::now().time_since_epoch()).count());
-                    canonicalModelPath += "_" + ms;
+                    auto ms = chrono::duration_cast<chrono::milliseconds>(
+                            chrono::system_clock::now().time_since_epoch()).count();
+                    const string existingModelPath = canonicalModelPath.generic_string();
+                    do {
+                        canonicalModelPath = existingModelPath + "_" + std::to_string(ms++);
+                    } while (filesystem::exists(canonicalModelPath));
                     cerr << canonicalModelPath << endl;
                     modelPath = canonicalModelPath.generic_string();
                 } else {
diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 6ebc719..13a08f6 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -40,9 +40,12 @@ namespace happyml {
                 auto canonicalFullKnowledgePath = filesystem::canonical(fullKnowledgePath);
                 cerr << "Knowledge path " << canonicalFullKnowledgePath
                      << " already existed, attempting to save to the new location: ";
-                auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
-                        chrono::system_clock::now().time_since_epoch()).count());
-                canonicalFullKnowledgePath += "_" + ms;
+                auto ms = chrono::duration_cast<chrono::milliseconds>(
+                        chrono::system_clock::now().time_since_epoch()).count();
+                const string existingKnowledgePath = canonicalFullKnowledgePath.generic_string();
+                do {
+                    canonicalFullKnowledgePath = existingKnowledgePath + "_" + std::to_string(ms++);
+                } while (filesystem::exists(canonicalFullKnowledgePath));
                 cerr << canonicalFullKnowledgePath << endl;
                 fullKnowledgePath = canonicalFullKnowledgePath.generic_string();
             } else {
-- 
2.43.0


From aba93da6e2a84a71339808664d6c48b78631d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:56 +0000
Subject: [PATCH 065/102] fix: a convolution keeps its knowledge when loading
 another fails

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 32d3738..f5a7bab 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -43,13 +43,14 @@ namespace happyml {
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
-            this->weights = {};
+            vector<shared_ptr<BaseTensor>> loadedWeights;
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
                 auto matrix = make_shared<FullTensor>(path);
-                this->weights.push_back(matrix);
+                loadedWeights.push_back(matrix);
             }
+            this->weights = loadedWeights;
         }
 
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
-- 
2.43.0


From e6e4d9e5262aed495a29e5e6a7fb02318a29b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 066/102] fix: the derivative of the approximate sigmoid is the
 slope of the approximate sigmoid

---
 src/ml/activators/sigmoid_approx_activation_function.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ml/activators/sigmoid_approx_activation_function.hpp b/src/ml/activators/sigmoid_approx_activation_function.hpp
index a89a09d..37096a3 100644
--- a/src/ml/activators/sigmoid_approx_activation_function.hpp
+++ b/src/ml/activators/sigmoid_approx_activation_function.hpp
@@ -20,11 +20,10 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // result = sigmoid(x) * (1.0 - sigmoid(x))
+            // this is the slope of the approximation itself: 0.5 / (1 + |x|)^2
             auto transformFunction = [](float original) {
-                // todo: validate math.
-                auto sig = 0.5f * ((original / (1.0f + abs(original))) + 1);
-                return sig * (1.f - sig);
+                const float scale = 1.0f + abs(original);
+                return 0.5f / (scale * scale);
             };
             return std::make_shared<ValueTransformTensorView>(input, transformFunction);
         }
-- 
2.43.0


From b4aa61e28ce281e0ac32cd49e949d21f1b235ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 067/102] fix: the derivative of binary cross entropy stays
 finite for a saturated prediction

---
 src/ml/losses/binary_cross_entropy.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ml/losses/binary_cross_entropy.hpp b/src/ml/losses/binary_cross_entropy.hpp
index 32a762e..8740962 100644
--- a/src/ml/losses/binary_cross_entropy.hpp
+++ b/src/ml/losses/binary_cross_entropy.hpp
@@ -51,16 +51,18 @@ namespace happyml {
                                                        shared_ptr<BaseTensor> &prediction) override {
             // Derivative of binary cross-entropy = -(truth/prediction - (1 - truth) / (1 - prediction))
 
+            // the same limits as in compute_error: a saturated prediction must not give an infinite derivative
+            auto epsilon = 1e-8f;
+            auto clip_prediction = make_shared<ClipTensorView>(prediction, epsilon, 1.0f);
+            auto clip_one_minus_prediction = make_shared<ClipTensorView>(make_shared<ScalarSubtractTensorView>(1.0f, prediction), epsilon, 1.0f);
+
             // truth / prediction
-            auto truth_div_prediction = make_shared<ElementWiseDivideTensorView>(truth, prediction);
+            auto truth_div_prediction = make_shared<ElementWiseDivideTensorView>(truth, clip_prediction);
 
             // 1 - truth
             auto one_minus_truth = make_shared<ScalarSubtractTensorView>(1.0f, truth);
-            // 1 - prediction
-            auto one_minus_prediction = make_shared<ScalarSubtractTensorView>(1.0f, prediction);
-
             // (1 - truth) / (1 - prediction)
-            auto one_minus_truth_div_one_minus_prediction = make_shared<ElementWiseDivideTensorView>(one_minus_truth, one_minus_prediction);
+            auto one_minus_truth_div_one_minus_prediction = make_shared<ElementWiseDivideTensorView>(one_minus_truth, clip_one_minus_prediction);
 
             // truth/prediction - (1 - truth) / (1 - prediction)
             auto unscaled_derivative = make_shared<SubtractTensorView>(truth_div_prediction, one_minus_truth_div_one_minus_prediction);
-- 
2.43.0


From 366c3d4fc8e968469e797368f0f993474fd1aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:45 +0000
Subject: [PATCH 068/102] fix: a network can be trained a second time

---
 src/ml/exit_strategy.hpp  | 8 ++++++++
 src/ml/neural_network.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/ml/exit_strategy.hpp b/src/ml/exit_strategy.hpp
index b4d0485..c78a329 100644
--- a/src/ml/exit_strategy.hpp
+++ b/src/ml/exit_strategy.hpp
@@ -25,6 +25,9 @@ namespace happyml {
 
     class ExitStrategy {
     public:
+        // called when a training begins: what was learned about an earlier training no longer counts
+        virtual void restart() {}
+
         virtual bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
 
         virtual string whyDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
@@ -59,6 +62,11 @@ namespace happyml {
             lowestLoss = INFINITY;
         }
 
+        void restart() override {
+            lowestLossEpoch = 0;
+            lowestLoss = INFINITY;
+        }
+
         bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) override {
             if (loss + improvementTolerance <= lowestLoss) {
                 lowestLoss = min(loss, lowestLoss);
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 5e9d8ce..020f92a 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -446,6 +446,7 @@ namespace happyml {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
+            exitStrategy->restart();
             ElapsedTimer epochTimer;
             float epochTrainingLoss;
             float epochTestingLoss;
-- 
2.43.0


From 565f404cb51ce10f8e27cc3ae4f8f74ec0a9789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:45 +0000
Subject: [PATCH 069/102] fix: training that finds no finite loss keeps what it
 has instead of failing to load a checkpoint

---
 src/ml/neural_network.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 020f92a..e3e0c8d 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -582,7 +582,8 @@ namespace happyml {
             }
             // TODO: this is placeholder code until we actually save and formalize best loss,
             //  but it simulates the future results.
-            if (trainingRetentionPolicy == best) {
+            // without a single finite loss there is no checkpoint to go back to
+            if (trainingRetentionPolicy == best && isfinite(lowestLoss)) {
                 loadKnowledge(knowledgeCheckpointLabel);
                 removeKnowledge(knowledgeCheckpointLabel);
                 return result;
-- 
2.43.0


From 7673f5b4d96d0096c35882d9d23c75ac2d6ff118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 070/102] fix: a tensor file that is missing or truncated is
 refused

---
 src/types/tensor_impls/full_tensor.hpp    | 2 ++
 src/types/tensor_impls/half_tensor.hpp    | 2 ++
 src/types/tensor_impls/pixel_tensor.hpp   | 2 ++
 src/types/tensor_impls/quarter_tensor.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..65ad02a 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -119,6 +119,8 @@ namespace happyml {
         explicit FullTensor(const string &fileName) {
             try {
                 ifstream stream;
+                // a missing or truncated file must not become a tensor of arbitrary values
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/half_tensor.hpp b/src/types/tensor_impls/half_tensor.hpp
index a2b3cb0..bbf1ca4 100644
--- a/src/types/tensor_impls/half_tensor.hpp
+++ b/src/types/tensor_impls/half_tensor.hpp
@@ -56,6 +56,8 @@ namespace happyml {
         explicit HalfTensor(const string &fileName) {
             try {
                 ifstream stream;
+                // a missing or truncated file must not become a tensor of arbitrary values
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/pixel_tensor.hpp b/src/types/tensor_impls/pixel_tensor.hpp
index b3530fd..fe6979c 100644
--- a/src/types/tensor_impls/pixel_tensor.hpp
+++ b/src/types/tensor_impls/pixel_tensor.hpp
@@ -78,6 +78,8 @@ namespace happyml {
         explicit PixelTensor(const string &fileName) {
             try {
                 ifstream stream;
+                // a missing or truncated file must not become a tensor of arbitrary values
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/quarter_tensor.hpp b/src/types/tensor_impls/quarter_tensor.hpp
index 3f05ab3..7498cd9 100644
--- a/src/types/tensor_impls/quarter_tensor.hpp
+++ b/src/types/tensor_impls/quarter_tensor.hpp
@@ -59,6 +59,8 @@ namespace happyml {
             this->bias = bias;
             try {
                 ifstream stream;
+                // a missing or truncated file must not become a tensor of arbitrary values
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
-- 
2.43.0


From 422a7f9690f69767f86648cb449956bd7f00438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 071/102] fix: a knowledge that could not be written is
 reported

---
 src/ml/layers/bias_layer.hpp                 | 4 +++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 4 +++-
 src/ml/layers/fully_connected_layer.hpp      | 4 +++-
 src/types/base_tensors.hpp                   | 1 +
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index 05c07c5..df57952 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -32,7 +32,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            bias->save(path);
+            if (!bias->save(path)) {
+                throw runtime_error("Could not save knowledge: " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index f5a7bab..66fa14f 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
-                weights[next_weight_layer]->save(path);
+                if (!weights[next_weight_layer]->save(path)) {
+                    throw runtime_error("Could not save knowledge: " + path);
+                }
             }
         }
 
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index b41ce0f..b592da4 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            weights->save(path);
+            if (!weights->save(path)) {
+                throw runtime_error("Could not save knowledge: " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index 9047040..65733ab 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -156,6 +156,7 @@ namespace happyml {
         bool save(const string &fileName) {
             try {
                 ofstream stream;
+                stream.exceptions(ofstream::failbit | ofstream::badbit);
                 stream.open(fileName, std::ofstream::out | ios::binary | ios::trunc);
                 save(stream);
                 stream.close();
-- 
2.43.0


From e39d9c953085797f167f481f30f2ddde8de3301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 072/102] fix: a truncated model.config is refused

---
 src/ml/happyml_dsl.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 49ad7db..26a3fb1 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -841,6 +841,13 @@ namespace happyml {
                                   map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
+        const size_t fields_before_shapes = 10;
+        const size_t fields_after_inputs = 11; // output shape and everything up to the regularization strength
+        if (vertexMetadata.size() < fields_before_shapes ||
+            stoull(vertexMetadata[9]) < 1 || stoull(vertexMetadata[9]) > vertexMetadata.size() ||
+            vertexMetadata.size() < fields_before_shapes + 3 * stoull(vertexMetadata[9]) + fields_after_inputs) {
+            throw runtime_error("Invalid model.config has an incomplete vertex.");
+        }
         const uint32_t vertexId = stoul(vertexMetadata[1]);
         const auto acceptsInput = asBool(vertexMetadata[2]);
         const bool producesOutput = asBool(vertexMetadata[3]);
@@ -934,25 +941,25 @@ namespace happyml {
         auto configReader = make_shared<DelimitedTextFileReader>(configPath, ':');
 
         auto optimizerRecord = configReader->nextRecord();
-        if (optimizerRecord[0] != "optimizer") {
+        if (optimizerRecord.size() < 2 || optimizerRecord[0] != "optimizer") {
             throw runtime_error("Invalid model.config missing optimizer field.");
         }
         const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord[1]);
 
         auto learningRateRecord = configReader->nextRecord();
-        if (learningRateRecord[0] != "learningRate") {
+        if (learningRateRecord.size() < 2 || learningRateRecord[0] != "learningRate") {
             throw runtime_error("Invalid model.config missing learningRate field.");
         }
         float learningRate = stof(learningRateRecord[1]);
 
         auto biasLearningRateRecord = configReader->nextRecord();
-        if (biasLearningRateRecord[0] != "biasLearningRate") {
+        if (biasLearningRateRecord.size() < 2 || biasLearningRateRecord[0] != "biasLearningRate") {
             throw runtime_error("Invalid model.config missing biasLearningRate field.");
         }
         float biasLearningRate = stof(biasLearningRateRecord[1]);
 
         auto lossRecord = configReader->nextRecord();
-        if (lossRecord[0] != "loss") {
+        if (lossRecord.size() < 2 || lossRecord[0] != "loss") {
             throw runtime_error("Invalid model.config missing loss field.");
         }
         const LossType lossType = stringToLossType(lossRecord[1]);
@@ -966,6 +973,9 @@ namespace happyml {
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
             auto nextRecord = configReader->nextRecord();
+            if (nextRecord.size() < 2) {
+                throw runtime_error("Invalid model.config has an incomplete record.");
+            }
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
-- 
2.43.0


From 85709cf9e321cff39a81fc2f0b2190c51a151ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 073/102] fix: a dropout layer passes on the same amount in
 training and prediction

---
 src/ml/layers/dropout_layer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..81ead9e 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -26,16 +26,17 @@ namespace happyml {
                 seed_seq_++;
                 shared_ptr < BaseTensor > random_tensor = make_shared<TensorFromRandom>(input[0]->getShape(), 0.0f, 1.0f, seed_seq_);
                 shared_ptr < BaseTensor > zeros = make_shared<UniformTensor>(input[0]->getShape(), 0.0f);
-                shared_ptr < BaseTensor > ones = make_shared<UniformTensor>(input[0]->getShape(), 1.0f);
+                shared_ptr < BaseTensor > kept = make_shared<UniformTensor>(input[0]->getShape(), forward_scale_);
 
                 // Populate dropout_mask_ with random values from a uniform distribution between 0 and 1
-                // then set to 1 if value > dropout_rate_, else 0
-                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, ones, zeros, dropout_rate_);
+                // then set to the scale if value > dropout_rate_, else 0
+                // what is kept is scaled up, so that the layer passes on the same amount on average as it does without dropping.
+                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, kept, zeros, dropout_rate_);
 
                 // Multiply input by dropout_mask_
                 return make_shared<ElementWiseMultiplyTensorView>(input[0], dropout_mask_);
             }
-            return make_shared<ElementWiseMultiplyTensorView>(input[0], make_shared<UniformTensor>(input[0]->getShape(), forward_scale_));
+            return input[0];
         }
 
         std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &output_error) override {
-- 
2.43.0


From a01347191eb647ba1c742cebdea728e211f3dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 074/102] fix: a dropout layer has the rate it was asked to
 have

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 26a3fb1..8478d23 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -339,6 +339,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From b02b8e3ae339e8ca54f235aaf826353c34645444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 075/102] fix: binary accuracy compares every value of an
 output

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index e3e0c8d..3ec2bb9 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -302,7 +302,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (int j = 0; j < best_prediction->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 68a917ab213088b211d47ea8d09b5acd80f24b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 076/102] fix: hyperband keeps the better configurations

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..2dbb736 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2, because the first ones are kept
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From 8f761cfb665da577248d6b142b97d61ed5a32b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 077/102] fix: hyperband trains within the limits it was given

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From 6aecee1271883d2aeb1b749094c879eba3ec2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:45 +0000
Subject: [PATCH 078/102] fix: decoding the top categories refuses a category
 that does not exist, as decoding the best one does

---
 src/training_data/data_decoder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index ec32daf..f429600 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -128,6 +128,9 @@ namespace happyml {
             vector<string> result;
             result.reserve(categoryIndex.size());
             for (const auto &index: categoryIndex) {
+                if (index.getIndex() >= categoryLabels_.size()) {
+                    throw runtime_error("Category index out of bounds: " + to_string(index.getIndex()));
+                }
                 result.push_back(categoryLabels_[index.getIndex()]);
             }
             return result;
-- 
2.43.0


From dc81db38248259cd886f11a68632bf91f1ca0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 079/102] fix: a full layer has the output shape it was asked
 to have

---
 src/ml/happyml_dsl.hpp          |  6 ++++
 src/ml/layers/reshape_layer.hpp | 50 +++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)
 create mode 100644 src/ml/layers/reshape_layer.hpp

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 8478d23..27154c3 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -23,6 +23,7 @@
 #include "neural_network.hpp"
 #include "layers/activation_layer.hpp"
 #include "layers/flatten_layer.hpp"
+#include "layers/reshape_layer.hpp"
 #include "layers/normalization_layer.hpp"
 #include "layers/convolution_2d_valid_layer.hpp"
 #include "layers/concatenate_wide_layer.hpp"
@@ -488,6 +489,11 @@ namespace happyml {
                 }
                 last_node = appendNode(last_node, next_node);
 
+                if (node_type == LayerType::full && (outputShape[0] > 1 || outputShape[2] > 1)) {
+                    // a full layer calculates a single row
+                    last_node = appendNode(last_node, make_shared<NeuralNetworkNode>(make_shared<ReshapeLayer>(outputShape)));
+                }
+
                 if (use_bias) {
                     string biasLabel = asString(vertexUniqueId) + "_bias";
                     auto b = make_shared<BiasLayer>(biasLabel, outputShape, outputShape, bits, optimizer->registerForBiasChanges());
diff --git a/src/ml/layers/reshape_layer.hpp b/src/ml/layers/reshape_layer.hpp
new file mode 100644
index 0000000..c0dd1c4
--- /dev/null
+++ b/src/ml/layers/reshape_layer.hpp
@@ -0,0 +1,50 @@
+//
+// Created by Erik Hyrkas on 11/26/2022.
+// Copyright 2022. Usable under MIT license.
+//
+
+#ifndef HAPPYML_RESHAPE_LAYER_HPP
+#define HAPPYML_RESHAPE_LAYER_HPP
+
+namespace happyml {
+    // Gives a flat input the rows, columns and channels that the next layer or the output should have.
+    class ReshapeLayer : public BaseLayer {
+    public:
+        explicit ReshapeLayer(const vector<size_t> &outputShape) : outputShape(outputShape) {
+        }
+
+        shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
+            PROFILE_BLOCK(profileBlock);
+            if (input.size() != 1) {
+                throw runtime_error("Cannot reshape multiple inputs at the same time. Please merge.");
+            }
+            const auto &nextInput = input[0];
+            if (nextInput->size() != outputShape[0] * outputShape[1] * outputShape[2]) {
+                throw runtime_error("Cannot reshape an input to a different number of elements.");
+            }
+            if (outputShape[2] == 1) {
+                return make_shared<ReshapeTensorView>(nextInput, outputShape[0], outputShape[1]);
+            }
+            // a reshape view keeps the number of channels, so we give each channel its part of the flat input.
+            vector<vector<vector<float>>> result(outputShape[2], vector<vector<float>>(outputShape[0], vector<float>(outputShape[1])));
+            size_t offset = 0;
+            for (auto &channel: result) {
+                for (auto &row: channel) {
+                    for (auto &value: row) {
+                        value = nextInput->getValue(offset++);
+                    }
+                }
+            }
+            return make_shared<FullTensor>(result);
+        }
+
+        vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
+            PROFILE_BLOCK(profileBlock);
+            return {make_shared<RowFlattenTensorView>(output_error)};
+        }
+
+    private:
+        vector<size_t> outputShape;
+    };
+}
+#endif //HAPPYML_RESHAPE_LAYER_HPP
-- 
2.43.0


From f1c5850be8cdbed559bf86711f57e93cf76c893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:46 +0000
Subject: [PATCH 080/102] fix: values given to a task are encoded as a dataset
 would store them

---
 src/training_data/data_encoder.hpp | 64 ++++++++++++++++--------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 0403239..cbd2d17 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -78,33 +78,12 @@ namespace happyml {
         std::shared_ptr<BaseTensor> encode(const std::vector<HappyMLVariant> &text) {
             // purpose: 'I' (image), 'T' (text), 'N' (number), 'L' (label)
             if (metadata->purpose == 'I') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                return pixelTensor(floats);
+                // images are stored as a percentage of 255
+                return pixelTensor(toFloats(text, 255.f));
             } else if (metadata->purpose == 'T') {
                 throw runtime_error("Text encoding not implemented yet.");
             } else if (metadata->purpose == 'N') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                std::shared_ptr<BaseTensor> base_tensor = tensor(floats);
+                std::shared_ptr<BaseTensor> base_tensor = tensor(toFloats(text, 1.f));
                 if (metadata->is_standardized) {
                     base_tensor = make_shared<StandardizeTensorView>(base_tensor, metadata->mean, metadata->standard_deviation);
                 }
@@ -113,6 +92,7 @@ namespace happyml {
                 }
                 return base_tensor;
             } else if (metadata->purpose == 'L') {
+                requireCount(text, 1);
                 for (const auto &next_text: text) {
                     size_t column_offset = 0;
                     bool found = false;
@@ -130,11 +110,11 @@ namespace happyml {
                     vector<vector<vector<float>>> result;
                     result.resize(metadata->channels);
                     for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
+                        result[channel].resize(metadata->rows);
+                        for (size_t row = 0; row < metadata->rows; row++) {
+                            result[channel][row].resize(metadata->columns);
+                            for (size_t column = 0; column < metadata->columns; column++) {
+                                result[channel][row][column] = column == column_offset ? 1.f : 0.f;
                             }
                         }
                     }
@@ -147,6 +127,32 @@ namespace happyml {
         }
 
     private:
+        void requireCount(const std::vector<HappyMLVariant> &values, size_t count) {
+            if (values.size() != count) {
+                string error_message = "Expected " + to_string(count) + " values for column " + metadata->name + " but got " + to_string(values.size());
+                throw runtime_error(error_message);
+            }
+        }
+
+        // the order of the values is the order of the columns of a row of a dataset.
+        std::vector<std::vector<std::vector<float>>> toFloats(const std::vector<HappyMLVariant> &values, float scale) {
+            requireCount(values, metadata->channels * metadata->rows * metadata->columns);
+            std::vector<std::vector<std::vector<float>>> floats;
+            floats.resize(metadata->channels);
+            size_t offset = 0;
+            for (size_t channel = 0; channel < metadata->channels; channel++) {
+                floats[channel].resize(metadata->rows);
+                for (size_t row = 0; row < metadata->rows; row++) {
+                    floats[channel][row].resize(metadata->columns);
+                    for (size_t column = 0; column < metadata->columns; column++) {
+                        floats[channel][row][column] = values[offset].as_float() / scale;
+                        offset++;
+                    }
+                }
+            }
+            return floats;
+        }
+
         shared_ptr<BinaryColumnMetadata> metadata;
     };
 
-- 
2.43.0


From 7c6d2baa8332df7c84517da0049095493298d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:46 +0000
Subject: [PATCH 081/102] fix: text that merely starts with a number is not a
 number given to a task

---
 src/lang/happyml_variant.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/happyml_variant.hpp b/src/lang/happyml_variant.hpp
index 5a6e281..9070772 100644
--- a/src/lang/happyml_variant.hpp
+++ b/src/lang/happyml_variant.hpp
@@ -85,12 +85,18 @@ namespace happyml {
             } else if (type_ == Type::INT) {
                 return static_cast<float>(int_value_);
             } else if (type_ == Type::STRING) {
+                size_t used = 0;
+                float result = 0.0f;
                 try {
-                    return std::stof(string_value_);
+                    result = std::stof(string_value_, &used);
                 } catch (std::exception &e) {
+                    used = 0;
+                }
+                if (used == 0 || used != string_value_.size()) {
                     string error = "Cannot convert to float: " + string_value_;
                     throw std::runtime_error(error);
                 }
+                return result;
             } else if (type_ == Type::BOOL) {
                 return bool_value_ ? 1.0f : 0.0f;
             } else {
-- 
2.43.0


From d829245282d6aec3d0009b76e8ceb7ec6a254d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 082/102] fix: a dataset read in terms of another one has the
 labels of the other one

---
 src/util/file_reader.hpp | 54 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 7214b8f..9982768 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -226,7 +226,8 @@ namespace happyml {
                 close();
                 throw runtime_error("Incompatible expected metadata for renormalization");
             }
-
+            requireCompatible(given_metadata_, renormalize_given_metadata_);
+            requireCompatible(expected_metadata_, renormalize_expected_metadata_);
         }
 
         ~BinaryDatasetReader() {
@@ -261,6 +262,7 @@ namespace happyml {
             for (const auto &metadata: given_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_given_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -276,6 +278,7 @@ namespace happyml {
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -311,14 +314,16 @@ namespace happyml {
             if (index >= expected_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {expected_metadata_[index]->rows, expected_metadata_[index]->columns, expected_metadata_[index]->channels};
+            const auto &metadata = renormalize_expected_metadata_.empty() ? expected_metadata_[index] : renormalize_expected_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         vector<size_t> getGivenTensorDims(size_t index) {
             if (index >= given_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {given_metadata_[index]->rows, given_metadata_[index]->columns, given_metadata_[index]->channels};
+            const auto &metadata = renormalize_given_metadata_.empty() ? given_metadata_[index] : renormalize_given_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         size_t get_given_column_count() {
@@ -424,6 +429,49 @@ namespace happyml {
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_expected_metadata_;
 
 
+        // Each column must be one that can be expressed in terms of the other metadata.
+        void requireCompatible(const std::vector<shared_ptr<BinaryColumnMetadata>> &metadata,
+                               const std::vector<shared_ptr<BinaryColumnMetadata>> &renormalize_metadata) {
+            for (size_t i = 0; i < renormalize_metadata.size(); i++) {
+                const auto &from = metadata[i];
+                const auto &to = renormalize_metadata[i];
+                bool has_labels = from->purpose == 'L';
+                if (from->purpose != to->purpose || from->rows != to->rows || from->channels != to->channels ||
+                    (!has_labels && from->columns != to->columns)) {
+                    close();
+                    throw runtime_error("Column " + from->name + " of " + path_ + " is not of the kind it should be.");
+                }
+                if (has_labels) {
+                    for (const auto &label: from->ordered_labels) {
+                        if (std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label) == to->ordered_labels.end()) {
+                            close();
+                            throw runtime_error("Column " + from->name + " of " + path_ + " has the unknown label " + label);
+                        }
+                    }
+                }
+            }
+        }
+
+        // Datasets may have different labels or have them in a different order.
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &original_tensor,
+                                              const shared_ptr<BinaryColumnMetadata> &from,
+                                              const shared_ptr<BinaryColumnMetadata> &to) {
+            if (from->purpose != 'L' || from->ordered_labels == to->ordered_labels) {
+                return original_tensor;
+            }
+            vector<vector<vector<float>>> result(to->channels, vector<vector<float>>(to->rows, vector<float>(to->columns)));
+            for (size_t column = 0; column < from->columns; column++) {
+                auto found = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), from->ordered_labels[column]);
+                size_t to_column = found - to->ordered_labels.begin();
+                for (size_t channel = 0; channel < to->channels; channel++) {
+                    for (size_t row = 0; row < to->rows; row++) {
+                        result[channel][row][to_column] = original_tensor->getValue(row, column, channel);
+                    }
+                }
+            }
+            return make_shared<FullTensor>(result);
+        }
+
         void readHeader() {
             row_size_ = 0;
             uint64_t number_of_given;
-- 
2.43.0


From 54da2c805ad31884a0a2b7afa3238c41dfe344dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 083/102] fix: a task executed with a dataset predicts in terms
 of the dataset it was created with

---
 src/util/task_utils.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..a7ad52a 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -178,20 +178,21 @@ namespace happyml {
         auto loadedNeuralNetwork = loadNeuralNetworkForTraining(task_name,
                                                                 task_folder_path);
 
-        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        // the network works with values that are scaled and labeled as those of the dataset that the task was created with.
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
         vector<string> expected_column_names = reader.get_expected_names();
         auto given_metadata = reader.get_given_metadata();
-        auto expected_metadata = reader.get_expected_metadata();
         reader.close();
 
         vector<string> merged_headers = pretty_print_merge_headers(expected_column_names, given_column_names);
         vector<size_t> widths;
+        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
+        // we only predict, so what the dataset expects doesn't matter and it doesn't need to expect anything.
+        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, vector<shared_ptr<BinaryColumnMetadata>>{});
         cout << "Results: " << endl;
-        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, expected_metadata);
         auto nextRecord = dataset->nextRecord();
         while (nextRecord) {
             auto given_values = nextRecord->getGiven();
-- 
2.43.0


From 90658f634947ac0289524135fcf8811ff38ef9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 084/102] fix: a number given to a task can be a label

---
 src/lang/parser/parser.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 34ed164..fa01990 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -362,7 +362,9 @@ namespace happyml {
                         }
                         string data = token->getValue();
                         if ("_number" == label) {
-                            value = stof(data);
+                            // it stays text until we know whether its column has numbers or labels
+                            requireNumber(data);
+                            value = data;
                         } else if ("_string" == label) {
                             value = unescapeString(data);
                         } else {
@@ -380,7 +382,9 @@ namespace happyml {
                     string label = token->getLabel();
                     string data = token->getValue();
                     if ("_number" == label) {
-                        value = stof(data);
+                        // it stays text until we know whether its column has numbers or labels
+                        requireNumber(data);
+                        value = data;
                     } else if ("_string" == label) {
                         value = unescapeString(data);
                     } else {
@@ -404,6 +408,14 @@ namespace happyml {
             return inputs;
         }
 
+        static void requireNumber(const string &text) {
+            try {
+                stof(text);
+            } catch (exception &e) {
+                throw runtime_error("Invalid number " + text + " ");
+            }
+        }
+
         static string &unescapeString(string &original) {// check for quote type
             string quote_type = original.substr(0, 1);
             original = original.substr(1, original.size() - 2);
-- 
2.43.0


From 4201db9deb948dd4ac3c2acb4cf0bb4525759d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 085/102] fix: searching for training parameters ends after its
 retries

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index a7ad52a..08c9aba 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -510,8 +510,8 @@ namespace happyml {
             int attempt = 0;
             float next_search_size = 640.0f;
 
+            int retries = 0;
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From 323af80ce8f038af7c37801e46a22a9177a3cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 086/102] fix: a task is not created from a dataset without
 records to train or test with

---
 src/util/task_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 08c9aba..b9b2e13 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -431,6 +431,11 @@ namespace happyml {
                 testDataSource = make_shared<BinaryDataSet>(dataset_full_file_path, -0.1);
             }
 
+            if (dataSource->recordCount() == 0 || testDataSource->recordCount() == 0) {
+                cout << "Dataset " << dataset_name << " does not have enough records to train and test with." << endl;
+                return false;
+            }
+
             BinaryDatasetReader reader(dataset_full_file_path);
 
             int max_batch_size = std::min(128, (int) dataSource->recordCount());
-- 
2.43.0


From 34226cc77082524bdcf48936708044aed112f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:08 +0000
Subject: [PATCH 087/102] fix: a task whose creation was interrupted is created
 again instead of staying unusable

---
 src/util/task_utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index b9b2e13..07b85f5 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -405,8 +405,8 @@ namespace happyml {
 
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
-                string config = task_full_path + "/model.config";
-                if (filesystem::exists(config)) {
+                // the dataset's metadata is what is written last, so a task without it was never finished.
+                if (filesystem::exists(task_full_path + "/dataset.bin")) {
                     cout << "Task " << task_name << " already exists. Skipping." << endl;
                     return true;
                 }
@@ -652,8 +652,10 @@ namespace happyml {
             neuralNetwork->saveWithOverwrite();
 
             string task_dataset_metadata_path = task_full_path + "/dataset.bin";
-            BinaryDatasetWriter writer(task_dataset_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
+            string unfinished_metadata_path = task_dataset_metadata_path + ".tmp";
+            BinaryDatasetWriter writer(unfinished_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
             writer.close();
+            filesystem::rename(unfinished_metadata_path, task_dataset_metadata_path);
             reader.close();
             log_file.close();
         } catch (exception &e) {
-- 
2.43.0


From 5a0ee9bc48121044848ab64776a17f651a6eb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:19 +0000
Subject: [PATCH 088/102] fix: the time limit of a training counts from its
 beginning, not from the last epoch

---
 src/ml/neural_network.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 3ec2bb9..848aa65 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -447,7 +447,6 @@ namespace happyml {
             }
             size_t epoch = 0;
             exitStrategy->restart();
-            ElapsedTimer epochTimer;
             float epochTrainingLoss;
             float epochTestingLoss;
             int64_t trainingElapsedTimeInMilliseconds;
@@ -560,7 +559,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = totalTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From abe49b96fa7ab51f7a6a67b4c718758254c7e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:20 +0000
Subject: [PATCH 089/102] fix: searching for training parameters ends when one
 pair comes up twice

---
 src/util/task_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 07b85f5..6c428d5 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -605,7 +605,10 @@ namespace happyml {
                             float learningRateAdjustmentFactor = complexity_lr_pair.second;
                             for (const auto &result: next_results) {
                                 if (result->complexity_modifier == complexity_modifier && result->learningRateAdjustmentFactor == learningRateAdjustmentFactor) {
-                                    next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor);
+                                    // keeping the same pair more than once would never leave just one
+                                    if (std::find(next_complexity_lr_pairs.begin(), next_complexity_lr_pairs.end(), complexity_lr_pair) == next_complexity_lr_pairs.end()) {
+                                        next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor);
+                                    }
                                     break;
                                 }
                             }
-- 
2.43.0


From 8c6383cb11d6350fa23536833c64f5b61bb50861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:20 +0000
Subject: [PATCH 090/102] fix: a task is not created when every attempt to
 train it failed

---
 src/util/task_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 6c428d5..3763ffd 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -614,6 +614,9 @@ namespace happyml {
                             }
                         }
                         complexity_lr_pairs = next_complexity_lr_pairs;
+                        if (complexity_lr_pairs.empty()) {
+                            throw runtime_error("Every attempt to train failed.");
+                        }
                         cout << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
                         log_file << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
                         for (auto next_pair: complexity_lr_pairs) {
-- 
2.43.0


From be301899470ebef532dc6dbf71e512ea2468d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:40 +0000
Subject: [PATCH 091/102] fix: the diagonal of a vector holds every element of
 the vector, not only the first

---
 src/types/tensor_views/diagonal_tensor_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/tensor_views/diagonal_tensor_view.hpp b/src/types/tensor_views/diagonal_tensor_view.hpp
index 8eb1c4b..33f2362 100644
--- a/src/types/tensor_views/diagonal_tensor_view.hpp
+++ b/src/types/tensor_views/diagonal_tensor_view.hpp
@@ -55,8 +55,9 @@ namespace happyml {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            if (row == column && row < child_->rowCount() && column < child_->columnCount() && channel < child_->channelCount()) {
-                return child_->getValue(row, column, channel);
+            // the input may be a row or a column: its elements are in the order of its values
+            if (row == column && row < dim && channel < child_->channelCount()) {
+                return child_->getValue(row + channel * dim);
             }
             return 0.f;
         }
-- 
2.43.0


From dad156447e93e0c65cc338951b2ab39370aff247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 092/102] fix: loading a byte pair encoder replaces its codes,
 restores its largest code and refuses a cut file

---
 src/ml/byte_pair_encoder.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..ff2f062 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -555,30 +555,31 @@ namespace happyml {
             }
 
             uint16_t delimiter_code = 0;
-            file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
-            setDelimiterCode(delimiter_code);
+            if (!file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code))) {
+                return false;
+            }
 
-            while (!file.eof()) {
+            // the model stays as it is unless the whole file can be read
+            unordered_map<u16string, u16string> bpe_codes;
+            while (file.peek() != ifstream::traits_type::eof()) {
                 pair<u16string, u16string> code_pair;
                 for (auto &str: {&code_pair.first, &code_pair.second}) {
                     uint16_t str_length = 0;
-                    file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length));
-
-                    if (file.eof()) {
-                        break;
+                    if (!file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length))) {
+                        return false;
                     }
 
                     str->resize(str_length);
-                    file.read(const_cast<char *>(reinterpret_cast<const char *>(str->data())),
-                              static_cast<streamsize>(str_length * sizeof(char16_t)));
-                }
-
-                if (!file.eof()) {
-                    ordered_bpe_codes_.push_back(std::move(code_pair));
+                    if (!file.read(const_cast<char *>(reinterpret_cast<const char *>(str->data())),
+                                   static_cast<streamsize>(str_length * sizeof(char16_t)))) {
+                        return false;
+                    }
                 }
+                bpe_codes[code_pair.first] = code_pair.second;
             }
 
             file.close();
+            configure(bpe_codes, delimiter_code);
             return true;
         }
 
-- 
2.43.0


From e5fcadf2977af5a0bfdeca9dba389068a72b6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 093/102] fix: saving a byte pair encoder reports when the file
 could not be written

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index ff2f062..a4c238b 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -543,7 +543,7 @@ namespace happyml {
             }
 
             file.close();
-            return true;
+            return !file.fail();
         }
 
         bool load(const string &modelFolderPath, const string &knowledgeLabel) {
-- 
2.43.0


From 9319fdfa7915ed83443bad3fac9c353758faf48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 094/102] fix: training a byte pair encoder on files overwrites
 earlier training instead of building on its lost codes

---
 src/ml/byte_pair_encoder.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index a4c238b..1e7ef48 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -132,6 +132,7 @@ namespace happyml {
             unordered_map<u16string, size_t> vocab;
             std::ifstream file(filename);
             if (file.is_open()) {
+                forgetTraining();
                 buildVocab(file, show_progress_, vocab);
                 file.close();
             } else {
@@ -167,6 +168,9 @@ namespace happyml {
                 }
             }
             unordered_map<u16string, size_t> vocab;
+            if (files_found) {
+                forgetTraining();
+            }
             for (const auto &file_path: file_paths) {
                 file_count++;
                 if (show_progress_) {
@@ -599,6 +603,12 @@ namespace happyml {
             next_code_ = delimiter_code_ + 1;
         }
 
+        // training on files starts over: earlier codes must not be part of the pairs that are learned
+        void forgetTraining() {
+            ordered_bpe_codes_.clear();
+            next_code_ = delimiter_code_ + 1;
+        }
+
         void buildVocab(std::ifstream &file, bool show_progress, unordered_map<u16string, size_t> &vocab) {
             std::string token;
             char last_char = 0;
-- 
2.43.0


From 290e2fd8b54ced7107d2669e00bc3a51469dea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 095/102] fix: byte pair training never exceeds the merges
 asked for or the codes there are

---
 src/ml/byte_pair_encoder.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1e7ef48..bf4bb21 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -297,7 +297,14 @@ namespace happyml {
             size_t merge_count = 0;
             int no_improvement_counter = 0;
             ElapsedTimer mergeTimer;
-            while (!vocab.empty() && (merge_count < 1 || merge_count < num_merges)) {
+            while (!vocab.empty() && (num_merges < 0 || merge_count < (size_t) num_merges)) {
+                // 32,767 codes is the limit of the current implementation
+                if (next_code_ >= max_code) {
+                    if (show_progress_) {
+                        cout << "Exiting early because Current Code hit the limit of " << max_code << "." << endl;
+                    }
+                    break;
+                }
                 auto most_frequent = findMostFrequentPair(vocab, min_frequency);
                 if (most_frequent.second == 0) {
                     break;
@@ -345,14 +352,6 @@ namespace happyml {
 
                 next_code_++;
                 merge_count++;
-
-                // 32,767 codes is the limit of the current implementation
-                if (next_code_ >= max_code) {
-                    if (show_progress_) {
-                        cout << "Exiting early because Current Code hit the limit of " << max_code << "." << endl;
-                    }
-                    break;
-                }
             }
             vector<pair<u16string, u16string>> ordered_bpe_codes(bpe_codes.begin(), bpe_codes.end());
             sort(ordered_bpe_codes.begin(), ordered_bpe_codes.end(),
-- 
2.43.0


From 28e2afdd49d600a02200cd1884e2809426dd1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 096/102] fix: one-hot encoding does not write outside of its
 vectors

---
 src/util/one_hot_encoder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..28be42e 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
@@ -56,7 +56,11 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                // a byte is an unsigned index, and the last one is unknown
+                auto index = static_cast<unsigned char>(c);
+                if (index < encoded_chars.size()) {
+                    encoded_chars[index] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From 20fe39de1584d7b842197e46fa844f96e79863fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 097/102] fix: inserting a key twice into the cache keeps one
 entry, and an empty cache keeps none

---
 src/util/lru_cache.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/lru_cache.h b/src/util/lru_cache.h
index 08b50dd..8f21ce5 100644
--- a/src/util/lru_cache.h
+++ b/src/util/lru_cache.h
@@ -22,6 +22,16 @@ namespace happyml {
         }
 
         void insert(const Key &key, const Value &value) {
+            if (capacity_ == 0) {
+                return;
+            }
+            auto existing = cache_map_.find(key);
+            if (existing != cache_map_.end()) {
+                // the key is known, so nothing has to make room for it
+                existing->second.first = value;
+                lru_list_.splice(lru_list_.begin(), lru_list_, existing->second.second);
+                return;
+            }
             if (cache_map_.size() >= capacity_) {
                 // Remove the least recently used entry
                 Key least_recent = lru_list_.back();
-- 
2.43.0


From da1c76d35b7cbbf6df2cfc33532da5656eefe9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:10 +0000
Subject: [PATCH 098/102] fix: training a byte pair encoder on an empty text
 does not read beyond it

---
 src/ml/byte_pair_encoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index bf4bb21..d63990b 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -454,7 +454,8 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                // an empty text has no pairs
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
-- 
2.43.0


From 2cbbb05ead9b54547d5ac4757ac22c60f6b737c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:15 +0000
Subject: [PATCH 099/102] fix: training a byte pair encoder on an empty folder
 keeps what it had learned

---
 src/ml/byte_pair_encoder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index d63990b..642d5a8 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -168,9 +168,11 @@ namespace happyml {
                 }
             }
             unordered_map<u16string, size_t> vocab;
-            if (files_found) {
-                forgetTraining();
+            if (!files_found) {
+                // there is nothing to learn from, so what was learned before stays
+                return false;
             }
+            forgetTraining();
             for (const auto &file_path: file_paths) {
                 file_count++;
                 if (show_progress_) {
@@ -203,7 +205,7 @@ namespace happyml {
                            0,
                            bpe_codes,
                            vocab);
-            return files_found;
+            return true;
         }
 
 
-- 
2.43.0


From 2eddbf07bb211433e81576edb7dac58e69b23bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:38 +0000
Subject: [PATCH 100/102] fix: rows of small numbers that differ are not taken
 for duplicates

---
 src/util/file_writer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 976a7ce..6766be1 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -258,9 +258,13 @@ namespace happyml {
             std::hash<string> hasher;
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
-                stringstream ss;
-                next_tensor->print(ss);
-                result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
+                // printed values would be rounded, so small numbers would all look the same
+                string values;
+                for (size_t i = 0; i < next_tensor->size(); i++) {
+                    const float value = next_tensor->getValue(i);
+                    values.append(reinterpret_cast<const char *>(&value), sizeof(float));
+                }
+                result ^= hasher(values) + 0x9e3779b9 + (result << 6) + (result >> 2);
             }
             return result;
         }
-- 
2.43.0


From b8ead22710e80ec6203b7086da1e5a0d308979d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 101/102] fix: a cell that only begins with a number, or is no
 finite one, is refused as a number

---
 src/training_data/data_encoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index cbd2d17..ec826fd 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -10,6 +10,7 @@
 #include <charconv>
 #include <algorithm>
 #include <cctype>
+#include <cmath>
 #include <locale>
 #include <map>
 #include <utility>
@@ -48,7 +49,7 @@ namespace happyml {
         float value = 0.0f;
         if (!text.empty()) {
             auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-            if (error_check != std::errc()) {
+            if (error_check != std::errc() || ptr != text.data() + text.size() || !std::isfinite(value)) {
                 string message = "Couldn't convert text to float: " + text;
                 throw runtime_error(message.c_str());
             }
-- 
2.43.0


From 136cf7319a6f1aef3d64cac48846f0bdc8dbfdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 102/102] fix: creating a dataset leaves files named like its
 temporary ones alone

---
 .../statements/create_dataset_statement.hpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 02b7c83..f73c071 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -16,8 +16,10 @@
 
 namespace happyml {
 
-    // Removes a temporary file, however the scope is left.
+    // Removes a temporary file, however the scope is left. A file that was there before is not touched.
     struct TemporaryFile {
+        TemporaryFile(const string &base_path, const string &suffix) : path(unused_path(base_path, suffix)) {}
+
         explicit TemporaryFile(string file_path) : path(std::move(file_path)) {}
 
         TemporaryFile(const TemporaryFile &) = delete;
@@ -27,6 +29,14 @@ namespace happyml {
             filesystem::remove(path, ignored);
         }
 
+        static string unused_path(const string &base_path, const string &suffix) {
+            string result = base_path + suffix;
+            for (size_t number = 1; filesystem::exists(result); number++) {
+                result = base_path + "." + to_string(number) + suffix;
+            }
+            return result;
+        }
+
         const string path;
     };
 
@@ -121,7 +131,7 @@ namespace happyml {
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
             string source_location = location_.substr(index_of_start_of_file_name);
             string current_location = source_location;
-            TemporaryFile converted(base_file_path + ".converted.csv");
+            TemporaryFile converted(base_file_path, ".converted.csv");
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
@@ -178,7 +188,7 @@ namespace happyml {
             if(verbose_) {
                 cout << "Moving given columns before expected columns and dropping unused columns. This aids in deduping." << endl;
             }
-            TemporaryFile organized(base_file_path + ".given-expected.csv");
+            TemporaryFile organized(base_file_path, ".given-expected.csv");
             const auto &organized_location = organized.path;
             if (!update_column_positions(current_location, organized_location, given_column_groups, expected_column_groups, has_header)) {
                 return make_shared<ExecutionResult>(false, false,
@@ -188,7 +198,7 @@ namespace happyml {
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
             }
-            TemporaryFile sorted(base_file_path + ".sorted.csv");
+            TemporaryFile sorted(base_file_path, ".sorted.csv");
             const auto &sorted_location = sorted.path;
             if (!FileSorter::sort(organized_location, sorted_location, false)) {
                 return make_shared<ExecutionResult>(false, false,
-- 
2.43.0

