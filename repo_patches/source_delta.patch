From 6e2884d4027f73127f87611861f49c3bbebedabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 01/44] fix: fill the padding border also for a zero
 initializer

copy_with_padding_into() left the previous content of dest in the border when the initializer was 0.
---
 pico-cnn/tensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..b85788a 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,9 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            // dest may hold arbitrary data, so the border has to be written for every initializer including 0
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From 37cab159c24a63dd62c289b802ec81c88f56b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 02/44] fix: concatenate all batches, and two-dimensional
 tensors, along dimension 1

concatenate_from() only copied the first batch, and for two-dimensional inputs
every input was written to the start of the output.
---
 pico-cnn/tensor.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index b85788a..e0dbaf7 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -376,29 +376,22 @@ namespace pico_cnn {
 
             // concatenate along channels
             if(dimension == 1) {
-                uint32_t output_channel_counter = 0;
+                // Everything with the same index in dimension 0 is one contiguous block in each tensor.
+                uint32_t num_blocks = shape_[0];
+                uint32_t output_block_size = num_elements_ / num_blocks;
+                uint32_t output_offset = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
 
                     Tensor *input = inputs[input_id];
+                    uint32_t input_block_size = input->num_elements() / num_blocks;
 
-                    //uint32_t num_batches = input->num_batches();
-                    uint32_t num_input_channels = input->num_channels();
-                    uint32_t input_channel_size = input->height() * input->width();
-
-                    fp_t *input_channel_ptr;
-                    fp_t *output_channel_ptr;
-
-                    for (uint32_t input_channel = 0; input_channel < num_input_channels; input_channel++) {
-
-                        input_channel_ptr = input->get_ptr_to_channel(0, input_channel);
-                        output_channel_ptr = this->get_ptr_to_channel(0, output_channel_counter+input_channel);
-
-                        std::memcpy(output_channel_ptr,
-                                    input_channel_ptr,
-                                    input_channel_size * sizeof(fp_t));
+                    for (uint32_t block = 0; block < num_blocks; block++) {
+                        std::memcpy(data_ + block * output_block_size + output_offset,
+                                    input->data_ + block * input_block_size,
+                                    input_block_size * sizeof(fp_t));
                     }
-                    output_channel_counter += num_input_channels;
+                    output_offset += input_block_size;
                 }
 
             } else {
-- 
2.43.0


From 4d22c143cabeaec2990bc57b14b1a2ed94a3438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 03/44] fix: tensors of different rank are not equal

operator== compared only the dimensions of the left operand and read behind the
shape array of a right operand of lower rank.
---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From 1936f4ccc921c6bd92ff30597a3c63b9aebfb2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 04/44] fix: average pooling without counting the padding
 divides by the real window

The 'center case' was decided by comparing output positions with the padding (with an
unsigned underflow for outputs smaller than the padding), which is wrong for strides other
than 1 and windows other than 2*padding+1, and padding == nullptr was dereferenced.
---
 pico-cnn/layers/pooling/average_pooling.cpp | 88 +++++++++------------
 1 file changed, 39 insertions(+), 49 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..39babd5 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -66,6 +66,12 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            // padding: [top, left, bottom, right]
+            uint32_t pad_top = padding_ ? padding_[0] : 0;
+            uint32_t pad_left = padding_ ? padding_[1] : 0;
+            uint32_t pad_bottom = padding_ ? padding_[2] : 0;
+            uint32_t pad_right = padding_ ? padding_[3] : 0;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -88,40 +94,28 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                                 }
                             }
 
-                            // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
-
-                                // edge case
-                            } else {
-
-                                uint32_t up_row, down_row, left_col, right_col;
-                                int32_t divisor, div_row, div_col;
+                            // only elements of the original (unpadded) input are counted
+                            uint32_t up_row, down_row, left_col, right_col;
+                            int32_t divisor, div_row, div_col;
 
-                                up_row = MAX(channel_row, padding_[0]);
-                                down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding_[2] - 1);
-                                div_row = down_row - up_row + 1;
+                            up_row = MAX(channel_row, pad_top);
+                            down_row = MIN(channel_row + kernel_size_[0] - 1, height - pad_bottom - 1);
+                            div_row = down_row - up_row + 1;
 
-                                left_col = MAX(channel_column, padding_[1]);
-                                right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding_[3] - 1);
-                                div_col = right_col - left_col + 1;
-
-                                divisor = div_row * div_col;
-
-                                if (divisor == 0) {
-                                    PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                    exit(1);
-                                }
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+                            left_col = MAX(channel_column, pad_left);
+                            right_col = MIN(channel_column + kernel_size_[1] - 1, width - pad_right - 1);
+                            div_col = right_col - left_col + 1;
 
+                            divisor = div_row * div_col;
 
+                            if (divisor == 0) {
+                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                                exit(1);
                             }
 
+                            output->access(batch, channel, output_channel_row, output_channel_column,
+                                           num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+
                             output_channel_column++;
                         }
                         output_channel_row++;
@@ -168,6 +162,10 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            // padding: [left, right]
+            uint32_t pad_left = padding_ ? padding_[0] : 0;
+            uint32_t pad_right = padding_ ? padding_[1] : 0;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -186,32 +184,24 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             pixel += input->access(batch, channel, kernel_column, num_channels, width);
                         }
 
-                        // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
-
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-                        // edge case
-                        } else {
-
-                            uint32_t left_col, right_col;
-                            int32_t divisor, div_col;
-
-                            left_col = MAX(channel_column, padding_[0]);
-                            right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding_[1] - 1);
-                            div_col = right_col - left_col + 1;
+                        // only elements of the original (unpadded) input are counted
+                        uint32_t left_col, right_col;
+                        int32_t divisor, div_col;
 
-                            divisor = div_col;
+                        left_col = MAX(channel_column, pad_left);
+                        right_col = MIN(channel_column + kernel_size_[0] - 1, width - pad_right - 1);
+                        div_col = right_col - left_col + 1;
 
-                            if (divisor == 0) {
-                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                exit(1);
-                            }
+                        divisor = div_col;
 
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (divisor));
+                        if (divisor == 0) {
+                            PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                            exit(1);
                         }
 
+                        output->access(batch, channel, output_channel_column,
+                                       num_channels, output_width) = pixel / ((fp_t) (divisor));
+
                         output_channel_column++;
                     }
                 }
-- 
2.43.0


From 53cafa6c6bccaadc7cf338d5808108a31f8cfad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 05/44] fix: max pooling must not take the padding for an input
 element

Padding with 0 made the padding win over negative input elements.
---
 pico-cnn/layers/pooling/max_pooling.h | 5 +++++
 pico-cnn/layers/pooling/pooling.cpp   | 2 +-
 pico-cnn/layers/pooling/pooling.h     | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 4bd2236..86fd195 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -6,6 +6,8 @@
 #ifndef PICO_CNN_MAX_POOLING_H
 #define PICO_CNN_MAX_POOLING_H
 
+#include <limits>
+
 #include "../../parameters.h"
 #include "../../tensor.h"
 #include "../layer.h"
@@ -21,6 +23,9 @@ namespace pico_cnn {
 
         private:
             void pool(Tensor *input, Tensor *output) override;
+
+            /// Padding must never be larger than any element of the input.
+            fp_t padding_value() const override { return -std::numeric_limits<fp_t>::infinity(); }
         };
     }
 }
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..85cf001 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -38,7 +38,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, padding_value());
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..cf6949c 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -22,6 +22,9 @@ namespace pico_cnn {
         protected:
             virtual void pool(Tensor *input, Tensor *output) = 0;
 
+            /// Value of the elements which are added by the padding.
+            virtual fp_t padding_value() const { return 0.0; }
+
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
-- 
2.43.0


From 01750112ec5d43c257de6cf0647c9738ec5593d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 06/44] fix: global max pooling skipped the first column of
 every row but the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..d5995c5 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
-- 
2.43.0


From a805f4fc3e895755dfbcbea8f61df95b7f1b9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 07/44] fix: softmax overflows to NaN for large inputs

---
 pico-cnn/layers/activation_functions/softmax.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..ae1a9a2 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -19,12 +19,20 @@ namespace pico_cnn {
 
             uint32_t num_elements = input->num_elements();
 
+            // Subtracting the maximum keeps the exponentials from overflowing (or all underflowing).
+            long double max = (long double)input->access_blob(0);
+            for(uint32_t i = 1; i < num_elements; i++) {
+                if ((long double)input->access_blob(i) > max) {
+                    max = (long double)input->access_blob(i);
+                }
+            }
+
             for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+                denominator += expl((long double)input->access_blob(i) - max);
             }
 
             for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i) - max) / denominator);
             }
         }
     }
-- 
2.43.0


From 451c2a70b4e5dae85c48d5082e544441f522ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 08/44] fix: a missing weights or reference data file is an
 error, not a crash

---
 pico-cnn/io/read_binary_reference_data.cpp | 10 ++++++++++
 pico-cnn/io/read_binary_weights.cpp        |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..3de991d 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -11,6 +11,11 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
     FILE *binary_file;
     binary_file = fopen(path_to_sample_data, "r");
 
+    if(binary_file == nullptr) {
+        PRINT_ERROR("ERROR: Could not open sample data file: " << path_to_sample_data)
+        return 1;
+    }
+
     if(binary_file != nullptr) {
 
         // Read magic number
@@ -147,6 +152,11 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
     FILE *binary_file;
     binary_file = fopen(path_to_sample_data, "r");
 
+    if(binary_file == nullptr) {
+        PRINT_ERROR("ERROR: Could not open sample data file: " << path_to_sample_data)
+        return 1;
+    }
+
     if(binary_file != nullptr) {
 
         // Read magic number
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..64e122a 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -5,6 +5,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
     FILE *binary_file;
     binary_file = fopen(path_to_weights_file, "r");
 
+    if(binary_file == 0) {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
+    }
+
     if(binary_file != 0) {
 
         // Read magic number
-- 
2.43.0


From 94294f4da6c21f47c631c686788ae7879e356224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 09/44] fix: buffers of truncated weights and reference data
 are released with delete[], and the file is closed

---
 pico-cnn/io/read_binary_reference_data.cpp |  5 +++--
 pico-cnn/io/read_binary_weights.cpp        | 18 +++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 3de991d..1c57dc9 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -107,7 +107,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -209,7 +210,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 64e122a..dd7d4c1 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -130,7 +130,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -157,7 +157,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -183,7 +183,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -208,7 +208,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -233,7 +233,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -258,7 +258,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -304,7 +304,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -328,7 +328,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -352,7 +352,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From 186980d8fb19b771779809c542e4b2ec8b0c3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 10/44] fix: long names in a weights file overflow the reader's
 buffers

---
 pico-cnn/io/read_binary_weights.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index dd7d4c1..98bae5d 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -38,9 +38,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
-            buffer[i] = c;
+            if(i < sizeof(buffer)) {
+                buffer[i] = c;
+            }
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
         PRINT_DEBUG(buffer)
 
@@ -72,9 +74,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer[i] = c;
+                if(i < sizeof(buffer)) {
+                    buffer[i] = c;
+                }
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
             // Read layer type
             char buffer_layer_type[100];
@@ -86,9 +90,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer_layer_type[i] = c;
+                if(i < sizeof(buffer_layer_type)) {
+                    buffer_layer_type[i] = c;
+                }
             }
-            buffer_layer_type[i-1] = '\0'; //terminate string correctly
+            buffer_layer_type[MIN(i, sizeof(buffer_layer_type))-1] = '\0'; //terminate string correctly
 
             PRINT_DEBUG("Layer " << layer << ": " << buffer << " of type: " << buffer_layer_type)
 
-- 
2.43.0


From 35a199ba420764349cdec5991f0257a99bcc9ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 11/44] fix: weights of a Gemm, MatMul or Transpose without own
 kernel can be read

---
 pico-cnn/io/read_binary_weights.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 98bae5d..6283aef 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -301,25 +301,29 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
-                uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
+                // A record without kernel belongs to a layer which shares its kernel with an earlier one.
+                if(num_kernels != 0) {
 
-                if(num_kernels != 1)
-                    PRINT_ERROR_AND_DIE("Number of kernels != 1")
+                    if(num_kernels != 1) {
+                        PRINT_ERROR("ERROR: Number of kernels != 1")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
+                    auto *values = new fp_t[kernel_height*kernel_width]();
 
-                for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
                         delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
-                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
-                }
+                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, 0), values, kernel_height*kernel_width*sizeof(fp_t));
 
-                kernel_idx++;
+                    kernel_idx++;
 
-                delete[] values;
+                    delete[] values;
+                }
 
                 uint32_t num_biases = 0;
                 if(fread((void *) &num_biases, sizeof(num_biases), 1, binary_file) != 1) {
-- 
2.43.0


From c8f5fbb6fcbebca78270c8727748fcdcfe098e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 12/44] fix: weights which do not fit their tensor are refused
 instead of written past its end

---
 pico-cnn/io/read_binary_weights.cpp | 57 +++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 6283aef..07f5a76 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -130,6 +130,15 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+
+                    const auto *kernel_tensor = (*kernels)[kernel_idx];
+                    if(kernel_tensor->num_batches() != num_output_channels || kernel_tensor->num_channels() != num_input_channels ||
+                       kernel_tensor->height() != kernel_height || kernel_tensor->width() != kernel_width) {
+                        PRINT_ERROR("ERROR: Kernel of layer " << layer << " in weights file does not match the shape of its tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -159,6 +168,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(num_biases != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -185,6 +200,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+                    if(num_gamma != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -210,6 +231,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+                    if(num_beta != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -235,6 +262,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+                    if(num_mean != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -260,6 +293,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+                    if(num_variance != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -310,6 +349,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         return 1;
                     }
 
+                    if((uint64_t) kernel_height * kernel_width != (*kernels)[kernel_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Kernel of layer " << layer << " in weights file does not match the shape of its tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
@@ -334,6 +379,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+                    if(num_biases != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -358,6 +409,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(num_biases != (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: Number of values of layer " << layer << " in weights file does not match the shape of their tensor.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
-- 
2.43.0


From 6ce2fd5506778ef02f43304a5d52e6756e63c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 13/44] fix: leading pixels of a PGM image are not skipped when
 they are white space in ASCII

---
 pico-cnn/io/read_pgm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..2d19fc1 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -25,7 +25,9 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
         // read dimensions
         fscanf(pgm_file, "%hu %hu\n", width, height);
         // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        fscanf(pgm_file, "%hhu", &max_gray_value);
+        // exactly one white space character follows, everything after it is pixel data
+        fgetc(pgm_file);
 
         (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-- 
2.43.0


From a793be70bc3cbce68fa8543def865911a19a47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 14/44] fix: PGM images with values beyond +-1000, or with only
 one value, are scaled correctly

---
 pico-cnn/io/write_pgm.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..20ba60c 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = image[0];
+    fp_t min_gray_value = image[0];
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -19,6 +19,10 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     }
 
     fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    if(gray_value_range == 0.0f) {
+        // constant image
+        gray_value_range = 1.0f;
+    }
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
-- 
2.43.0


From 6f3fcefcded7a96134ec76144abc77f4f7134926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 15/44] fix: the last validation label is read, too, and its
 text is terminated

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..b1b6feb 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -9,10 +9,10 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
         (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
+        char label_buffer[6] = {0};
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
+        while(fgets(buffer, 255, labels_file) && i <= num_labels) {
             memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
             (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
             i++;
-- 
2.43.0


From 84489de42d5667d31915c4d638f2a8341023a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 16/44] fix: JPEG images wider than 21845 pixels overflow the
 scan line buffer

---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..5338aed 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
-- 
2.43.0


From c6c03092147a0bb89d0d7d86b718d9622bf4cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 17/44] fix: PGM images of up to 65535 rows or columns can be
 read with padding

---
 pico-cnn/io/read_pgm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 2d19fc1..4079c2e 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -31,7 +31,7 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-        uint16_t row, column;
+        uint32_t row, column;
         uint8_t pixel;
 
         for(row = 0; row < (*height)+2*padding; row++) {
-- 
2.43.0


From e56fe893d8a0ba55ffd3917c5936f3694ba09686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 18/44] fix: generated 1-D layers hand the library arrays as
 long as it reads

The convolution and pooling constructors always copy two strides, two
kernel sizes and four paddings; the 1-D templates emitted shorter arrays.
---
 .../code_templates/conv/pico_cnn_conv1d_alloc.cpp      |  6 +++---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
index 6ae3194..2f1fec1 100644
--- a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
+++ b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
@@ -1,6 +1,6 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
@@ -12,7 +12,7 @@
                                                    {% endif %}
                                                    {{identifier}}_padding, {{identifier}}_stride, {{identifier}}_groups);
 {% else %}
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a38be41 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..a355caf 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From e956f9538606c8324948a348f9fd40e65fd481eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 19/44] fix: multiply by a factor of shape (1,)

The factor array was printed with its brackets, which does not compile.
---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..bfe3a0e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -568,7 +568,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From 45aa73481e65f59a14d6259231b2ca284fdaf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 20/44] fix: refuse Gemm with transA or without transB

The guards looked for misspelt attributes and never fired.
---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index bfe3a0e..becb27f 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -224,14 +224,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            return None
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From 4bb9c45a6a991256c9a70549c444f892b800e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 21/44] fix: refuse Gemm and MatMul on more than one row

The library computes the first row only.
---
 onnx_import/pico_cnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index becb27f..d186594 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -238,6 +238,10 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if input_buffer.shape[0] != 1:
+            print("ERROR: Generation of Gemm layer aborted: input with more than one row: {}".format(input_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -520,6 +524,11 @@ class MatMul(BaseLayer):
         input_size = reduce_mult(input_buffer.shape)
         output_size = reduce_mult(output_buffer.shape)
 
+        if input_size != input_buffer.shape[-1] or len(weight_buffer.shape) != 2:
+            print("ERROR: Generation of MatMul layer aborted: only a single row times a matrix is supported: "
+                  "{} x {}".format(input_buffer.shape, weight_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From b8da0a5a6e2c38dad912ac0e0aed9925b9c3f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 22/44] fix: refuse a Gemm bias that has to be broadcast

The library reads one bias per output.
---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index d186594..226ce21 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -238,6 +238,11 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if bias_buffer is not None and reduce_mult(bias_buffer.shape) != output_buffer.shape[1]:
+            print("ERROR: Generation of Gemm layer aborted: bias of shape {} for output of shape {}".format(
+                bias_buffer.shape, output_buffer.shape))
+            return None
+
         if input_buffer.shape[0] != 1:
             print("ERROR: Generation of Gemm layer aborted: input with more than one row: {}".format(input_buffer.shape))
             return None
-- 
2.43.0


From 33b01ee3c3cdf3741e278843446c0fc7e64834a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 23/44] fix: refuse dilated convolutions and dilated,
 rounded-up or auto-padded pooling

The attributes were ignored, so the generated network computed something else.
---
 onnx_import/pico_cnn.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 226ce21..d4ed838 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -45,6 +45,21 @@ class BaseLayer(object):
         pass
 
 
+def is_dilated(node):
+    return any(d != 1 for d in node.attrs.get("dilations", []))
+
+
+def is_unsupported_pool(node):
+    """
+    The pooling layers neither dilate their kernel, nor derive the padding, nor round the output size up.
+    """
+    if node.attrs.get("ceil_mode", 0) != 0 or is_dilated(node) \
+            or node.attrs.get("auto_pad", b"NOTSET") not in (b"NOTSET", b"VALID"):
+        print("ERROR: Unsupported attributes of pooling layer {}: {}".format(node.name, node.attrs))
+        return True
+    return False
+
+
 class Conv2D(BaseLayer):
     """
     2-dimensional convolution layer.
@@ -87,7 +102,9 @@ class Conv2D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if is_dilated(node):
+            print("ERROR: {} dilated convolution is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
@@ -152,7 +169,9 @@ class Conv1D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if is_dilated(node):
+            print("ERROR: {} dilated convolution is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
@@ -294,6 +313,9 @@ class MaxPool2D(BaseLayer):
             print("{} is not a 2DMaxPool".format(node.name))
             return None
 
+        if is_unsupported_pool(node):
+            return None
+
         input_id = node.inputs[0]
         input_shape = graph.get_shape(input_id)
 
@@ -349,6 +371,9 @@ class MaxPool1D(BaseLayer):
             print("{} is not a 1DMaxPool".format(node.name))
             return None
 
+        if is_unsupported_pool(node):
+            return None
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
@@ -606,6 +631,9 @@ class AveragePool2D(BaseLayer):
             print("{} is not a 2DAvgPool".format(node.name))
             return None
 
+        if is_unsupported_pool(node):
+            return None
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
@@ -662,6 +690,9 @@ class AveragePool1D(BaseLayer):
             print("{} is not a 1DAvgPool".format(node.name))
             return None
 
+        if is_unsupported_pool(node):
+            return None
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
-- 
2.43.0


From f7b96cc706e70466ce1169fb40a7755a7f57f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 24/44] fix: refuse LRN with a bias other than 1

The attribute was ignored.
---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index d4ed838..08be61b 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1149,6 +1149,10 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if attrs.get("bias", 1.0) != 1.0:
+            print("ERROR: LRN layer is only supported with bias = 1 (not: {})".format(attrs["bias"]))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 2b2f5034e4d056297b19558d611b0ddf1f463d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 25/44] fix: refuse Softmax over several rows

The library normalises over all elements.
---
 onnx_import/pico_cnn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 08be61b..e0d7f4f 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1110,6 +1110,12 @@ class Softmax(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        input_shape = input_buffers[0].shape
+        axis = attrs.get("axis", 1)
+        if reduce_mult(input_shape[:axis]) != 1:
+            print("ERROR: Softmax layer is only supported over all elements (axis: {}, shape: {})".format(axis, input_shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 3d54930d34841ec87cababf17118593658378cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 26/44] fix: refuse BatchNormalization of a row

The library only handles 3 and 4 dimensions, so the generated network exited.
---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index e0d7f4f..05cab14 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -482,6 +482,10 @@ class BatchNorm(BaseLayer):
 
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) not in (3, 4):
+            print("ERROR: BatchNormalization is not supported for input of shape {}".format(input_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 6245b87b27562b9e890d23b7648be9154c911a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 27/44] fix: refuse Pad with negative pads

The generated network wrote outside of its buffers.
---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 05cab14..0644ff0 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1240,6 +1240,10 @@ class Pad(BaseLayer):
             print("ERROR: Pad layer only supported in mode constant (not: {}).").format(mode)
             exit(1)
 
+        if any(p < 0 for p in pads):
+            print("ERROR: Negative padding is not supported. pads = {}".format(pads))
+            exit(1)
+
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
                 print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
-- 
2.43.0


From 0e43ab44953c77b762e0d2e2d32559bdf7698261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 28/44] fix: refuse to add rows of different sizes

The library adds element by element and cannot broadcast.
---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 0644ff0..8585913 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1066,6 +1066,10 @@ class Add(BaseLayer):
                     # TODO: This needs a better solution!!!
                     print("Broadcasting is not supported for add operation")
                     exit(1)
+        for shape in input_shapes:
+            if reduce_mult(shape) != reduce_mult(output_buffer.shape):
+                print("ERROR: Broadcasting is not supported for add operation: {}".format(input_shapes))
+                exit(1)
 
         operation = cls(node, graph)
         operation.attributes['name'] = node.name
-- 
2.43.0


From 1055e0d30e59eac68541e00c0924b87f3195e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 29/44] fix: keep Unsqueeze nodes, they change the rank of
 their input

The readers of a removed Unsqueeze saw the tensor without the new
dimensions; a network whose output was one never wrote its output.
---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 11 +++++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..0687cc0 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -51,18 +51,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 8585913..932c453 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1219,6 +1219,17 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(Squeeze):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From 9ab4a562fb9668bcd5e7df09477736507b04f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 30/44] fix: only remove a Reshape that keeps the shape

A target that is a prefix of the input's shape, like (1, 4) for
(1, 4, 1, 1), counted as one. And a network consisting of such a
Reshape only never wrote its output.
---
 onnx_import/backend.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 0687cc0..83abd2e 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -53,17 +53,12 @@ class BackendRep(backend_base.BackendRep):
         for node in list(graph.nodes):
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
-                reshape_state = constant_states[node.inputs[1]]
-                is_nop = False
-                if reshape_state.value is not None:
-                    for i, dim in enumerate(reshape_state.value):
-                        if dim == -1 and i == len(reshape_state.value):
-                            is_nop = True
-                        elif i < len(input_state.shape) and dim == input_state.shape[i]:
-                            is_nop = True
-                        else:
-                            is_nop = False
-                            break
+                output_state = constant_states[node.outputs[0]]
+                is_nop = output_state.shape is not None and output_state.shape == input_state.shape
+
+                # The input of the network cannot be its output, too.
+                if graph.is_input(node.inputs[0]) and graph.is_output(node.outputs[0]):
+                    is_nop = False
 
                 if is_nop:
                     removed_input = node.inputs[0]
-- 
2.43.0


From a81e2268b692ec1fe9f12bb9773e1db161e71c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 31/44] fix: refuse parameters that the weights file cannot
 hold

read_binary_weights knows certain layers with certain parameters; for
anything else the generated network could not load its weights or
overran its arrays.
---
 onnx_import/backend.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 83abd2e..34f6015 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -142,8 +142,20 @@ class BackendRep(backend_base.BackendRep):
 
         weights_packed = list(bytes())
 
+        # Ranks of the parameters of each type of layer as expected by read_binary_weights
+        parameter_ranks = {'Conv': [(4,), (4, 1), (3,), (3, 1)],
+                           'BatchNormalization': [(1, 1, 1, 1)],
+                           'Gemm': [(2,), (2, 1)],
+                           'MatMul': [(2,)],
+                           'Transpose': [(2,)],
+                           'Add': [(1,)]}
+
         for node in graph.nodes:
             if len(node.input_tensors) > 0 and node.op_type not in ops_to_ignore:
+                ranks = tuple(len(node.input_tensors[i].shape) for i in node.inputs if i in node.input_tensors)
+                if ranks not in parameter_ranks.get(node.op_type, []):
+                    print("ERROR: Unsupported parameters of layer {} ({}): {}".format(node.name, node.op_type, ranks))
+                    exit(1)
                 layer_name = bytes(node.name + "\n", "ascii")
                 weights_packed.append(struct.pack('{}s'.format(len(layer_name)), layer_name))
                 layer_type = bytes(node.op_type + "\n", "ascii")
-- 
2.43.0


From 85fcec77003116f134740852404b71047eacfc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 32/44] fix: write a record for each use of a parameter within
 a layer

A BatchNormalization using one tensor as two of its parameters lacked
an entry in the weights file, which then could not be loaded.
---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 34f6015..1660af7 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -163,7 +163,7 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            for num, input in enumerate(i for i in node.inputs if i in node.input_tensors):
 
                 if input in buffers_written:
                     write_buffer = False
-- 
2.43.0


From 21f01e7ef9b0c5c98c033d94d82178fd4a0718ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 33/44] fix: refuse constants as operands of a layer

Only initializers get a buffer, so the generated code did not compile.
---
 onnx_import/backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 1660af7..3ac02cd 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -48,6 +48,14 @@ class BackendRep(backend_base.BackendRep):
             if is_constant:
                 graph.remove_node(node)
 
+        # Constants only exist as shapes, there is no buffer holding their values
+        for node in graph.nodes:
+            for num, input in enumerate(node.inputs):
+                if constant_states[input].value is not None and input not in node.input_tensors \
+                        and not (node.op_type == "Reshape" and num == 1):
+                    print("ERROR: Constant {} as input of layer {} is not supported".format(input, node.name))
+                    exit(1)
+
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-- 
2.43.0


From 3d61b7f46be13c99afbcf7cb8768c4de6fb82076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 34/44] fix: refuse names that do not give valid and unique
 identifiers

Names differing in '.', ':', '/' and '_' only were given the same
identifier, names with other special characters an invalid one; the
generated code did not compile.
---
 onnx_import/backend.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 3ac02cd..8a38704 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -11,6 +11,7 @@ import onnx
 from onnx import ModelProto
 
 import os
+import re
 import struct
 
 __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair for Embedded Systems)"
@@ -467,6 +468,25 @@ class BackendRep(backend_base.BackendRep):
 
         return implementations
 
+    def _check_identifiers(self, implementations, memory_manager):
+        """
+        The names of buffers and layers become identifiers of the generated code, they have to be valid and unique.
+        :param implementations: Dictionary containing the implementations of all operations in the ComputeGraph.
+        :param memory_manager: MemoryManager containing information about input and output buffers of each operation.
+        :return:
+        """
+        identifiers = [buffer.name for buffer in memory_manager.buffers.values()]
+        for impl in implementations.values():
+            if impl is not None and "identifier" in impl.attributes:
+                identifiers.append(impl.attributes["identifier"] + "_layer")
+            if impl is not None and "inputs" in impl.attributes:
+                identifiers.append(impl.attributes["inputs"])
+
+        for identifier in identifiers:
+            if re.match("[A-Za-z_][A-Za-z0-9_]*$", identifier) is None or identifiers.count(identifier) > 1:
+                print("ERROR: Names of layers and tensors do not give valid and unique identifiers: {}".format(identifier))
+                exit(1)
+
     def _get_schedule(self, graph, implementations):
         """
         This is not a real scheduler, for now, just assume the onnx defines a valid schedule.
@@ -570,6 +590,7 @@ class BackendRep(backend_base.BackendRep):
         self._generate_network_cleanup(graph, memory_manager)
 
         implementations = self._select_implementations(graph, memory_manager)
+        self._check_identifiers(implementations, memory_manager)
         schedule = self._get_schedule(graph, implementations)
         # self._print_live_ranges(schedule)
 
-- 
2.43.0


From e7e2721243006b31016da9217c9ab333bd538db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 35/44] fix: refuse to reshape or scale a parameter

No buffer is allocated for it, the generated code did not compile.
---
 onnx_import/backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 8a38704..a362eef 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -170,6 +170,10 @@ class BackendRep(backend_base.BackendRep):
                 layer_type = bytes(node.op_type + "\n", "ascii")
                 weights_packed.append(struct.pack('{}s'.format(len(layer_type)), layer_type))
             else:
+                # The target shape and the factor become part of the code, but the data has to be a buffer
+                if len(node.inputs) > 0 and node.inputs[0] in node.input_tensors:
+                    print("ERROR: Unsupported parameters of layer {} ({})".format(node.name, node.op_type))
+                    exit(1)
                 continue
 
             for num, input in enumerate(i for i in node.inputs if i in node.input_tensors):
-- 
2.43.0


From 9f73e4c447c3581ee072b2a48d16c240e4e60056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:10 +0000
Subject: [PATCH 36/44] fix: keep the node computing the output when a constant
 was its only reader

Removing a Shape node removed the nodes it had been the last reader of,
even if they compute the output of the network.
---
 onnx_import/compute_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 9c5a986..3512db0 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -172,7 +172,7 @@ class ComputeGraph(object):
 
         for parent in node.parents:
             parent.children.remove(node)
-            if not parent.children:
+            if not parent.children and not any(self.is_output(output) for output in parent.outputs):
                 self.remove_node(parent)
 
         for child in node.children:
-- 
2.43.0


From 9e8d58c7ffa5ff09b90ebdb8750f994b241b1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 37/44] fix: infinite clip bounds, pad values and factors

They were printed as inf, which does not compile.
---
 onnx_import/pico_cnn.py | 10 +++++-----
 onnx_import/utils.py    |  8 ++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 932c453..9393317 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1,6 +1,6 @@
 """ All operator related code will be generated from the corresponding operator classes. """
 from ir import *
-from utils import reduce_mult
+from utils import reduce_mult, float_literal
 
 from jinja2 import Environment, FileSystemLoader
 
@@ -530,8 +530,8 @@ class Clip(BaseLayer):
         operation.attributes['identifier'] = identifier
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['min'] = attrs['min']
-        operation.attributes['max'] = attrs['max']
+        operation.attributes['min'] = float_literal(attrs['min'])
+        operation.attributes['max'] = float_literal(attrs['max'])
 
         return operation
 
@@ -609,7 +609,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor.item()
+        operation.attributes['factor'] = float_literal(factor.item())
 
         return operation
 
@@ -1283,7 +1283,7 @@ class Pad(BaseLayer):
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
         operation.attributes['padding'] = pads
-        operation.attributes['initializer'] = value
+        operation.attributes['initializer'] = float_literal(value)
 
         return operation
 
diff --git a/onnx_import/utils.py b/onnx_import/utils.py
index db3185b..0f1f38c 100644
--- a/onnx_import/utils.py
+++ b/onnx_import/utils.py
@@ -1,8 +1,16 @@
 from typing import Iterable
 from functools import reduce
+import math
 
 __author__ = "Christoph Gerum (University of Tuebingen, Chair for Embedded Systems)"
 
 
 def reduce_mult(data: Iterable[int]) -> int:
     return reduce(lambda x, y: x * y, data, 1)
+
+
+def float_literal(value: float):
+    """ Infinities and NaN have no literal in C++, only the macros of <cmath>. """
+    if math.isinf(value):
+        return "INFINITY" if value > 0 else "-INFINITY"
+    return "NAN" if math.isnan(value) else value
-- 
2.43.0


From 64fa268cd269ab0a7ee77785477462a44b04f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:32 +0000
Subject: [PATCH 38/44] fix: no bias record for a layer reading one parameter
 in several places

A batch normalization with four times the same parameter got four extra
records, and the reader refused the weights file.
---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index a362eef..d36a9a5 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -273,7 +273,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(ranks) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From 8b77851f7ceb4705309d6819e8e1ff3ebb8e183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 39/44] fix: long paths overflow the buffers of the generated
 programs

---
 onnx_import/code_templates/main_program/dummy_input.cpp  | 3 +--
 .../code_templates/main_program/reference_input.cpp      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..0112dce 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     int32_t RUNS = atoi(argv[2]);
 
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..45289f0 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
+    const char *sample_input_path = argv[2];
 
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From abf578a80bde7176627df8f967ebd7708d85fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 40/44] fix: reference data of audio files for four-dimensional
 inputs stated the height as the width

---
 util/generate_reference_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..a192603 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -109,8 +109,12 @@ def main():
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
         packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        if len(input_shape) == 4:
+            packed_input.append(struct.pack('i', input_shape[2]))  # Channel height
+            packed_input.append(struct.pack('i', input_shape[3]))  # Channel width
+        else:
+            packed_input.append(struct.pack('i', 1))  # Channel height
+            packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From 0ec183f46302bcb9fab36a7dbd129ebbe4cf59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 41/44] fix: read no more ImageNet labels than requested

---
 pico-cnn/io/read_imagenet_labels.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..68f26b4 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,13 +6,13 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc(num_labels*sizeof(char*));
 
         char buffer[255];
-        int32_t i = 0;
+        uint32_t i = 0;
         int32_t label_length;
 
-        while(fgets(buffer, 255, labels_file)) {
+        while(i < num_labels && fgets(buffer, 255, labels_file)) {
             label_length = strlen(buffer);
             (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
             strncpy((*imagenet_labels)[i], buffer, label_length-1);
-- 
2.43.0


From 0f49c4d7059401d6eff3b6e837159baa777412b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 42/44] fix: keep the last character of a label file without a
 final newline

---
 pico-cnn/io/read_imagenet_labels.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 68f26b4..2b994d1 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -14,6 +14,10 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
         while(i < num_labels && fgets(buffer, 255, labels_file)) {
             label_length = strlen(buffer);
+            // the last line may end without a newline
+            if(buffer[label_length-1] != '\n') {
+                label_length++;
+            }
             (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
             strncpy((*imagenet_labels)[i], buffer, label_length-1);
             (*imagenet_labels)[i][label_length-1] = '\0';
-- 
2.43.0


From 6474f67e72d3ac15c405cf0a953cb03e513e473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 43/44] fix: concatenate constants of several elements during
 constant propagation

---
 onnx_import/constprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index 1d7776b..9800001 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -302,7 +302,7 @@ def constant_propagation(graph):
             out = ConstPropState(None, input_shapes[0] if None not in input_shapes else None)
 
             # TODO: Is this first case even possible? If not, remove it!
-            if None not in input_states:
+            if all(state is not None for state in input_states):
                 res = np.concatenate(input_states, axis=axis)
                 out = ConstPropState(res, res.shape)
             else:
-- 
2.43.0


From 0904b66c9e7062e75f6c2373ca3c41b06641bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 44/44] fix: README named the wrong Makefile variable for
 -ljpeg and wrong places for the VGG example

---
 README.md | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index fc3dc41..ab82e3a 100644
--- a/README.md
+++ b/README.md
@@ -186,7 +186,7 @@ Copy `examples/alexnet.cpp` to `onnx_import/generated_code/alexnet`.
 ```bash
 cd generated_code/alexnet
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make alexnet
 ./alexnet network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
@@ -200,11 +200,11 @@ VGG-16 <a id="cit_Simonyan2014">[[Simonyan2014]](#Simonyan2014)</a> ONNX model r
 cd onnx_import
 python3.6 onnx_to_pico_cnn.py --input PATH_TO_ONNX/vgg16.onnx
 ```
-Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg16.cpp`.
+Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg16/vgg16.cpp`.
 ```bash
 cd generated_code/vgg16
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make vgg16
 ./vgg16 network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
@@ -218,11 +218,11 @@ VGG-19 <a id="cit_Simonyan2014">[[Simonyan2014]](#Simonyan2014)</a> ONNX model r
 cd onnx_import
 python3.6 onnx_to_pico_cnn.py --input PATH_TO_ONNX/vgg19.onnx
 ```
-Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg19.cpp`.
+Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg19/vgg19.cpp`.
 ```bash
 cd generated_code/vgg19
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make vgg19
 ./vgg19 network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
-- 
2.43.0

