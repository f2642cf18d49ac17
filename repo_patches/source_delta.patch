From 36f5a2f950fb3aa154f7ad19bfeaa85a572b39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 001/134] fix: equal aligns operand ranks before broadcasting

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From bc4908223a24e4de363dd5ae6f5f15cabc98951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 002/134] fix: mod keeps its operand order when the left
 operand is broadcast

---
 src/kernels/cpu/mod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..1e13316 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,11 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 92da24dcd7010f99b3ed6fab9e0aba6a1a8e70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 003/134] fix: chunk refuses a dimension it cannot cut into
 that many pieces

---
 src/backend/base/base_chunk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..406ec01 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -45,6 +45,9 @@ namespace ts {
             }
 
             auto bins = split_bins(0, dim_size, m_chunks);
+            if (int(bins.size()) != m_chunks) {
+                TS_LOG_ERROR << "Can not chunk size " << dim_size << " into " << m_chunks << " pieces" << eject;
+            }
 
             output.resize(m_chunks);
 
-- 
2.43.0


From c138f6f75fdbe25af321a395005393ebeafa8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 004/134] fix: gather and gather_elements check their indices
 and leave them unmodified

---
 src/backend/base/base_gather.cpp          | 10 +++--
 src/backend/base/base_gather_elements.cpp | 14 ++++--
 src/kernels/cpu/gather_elements.cpp       | 54 +++++++++++++----------
 3 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..c304926 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,25 +54,27 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+
             auto& indices_viewed = indices;
             for (int i = 0; i < indices_viewed.count(); ++i) {
 
                 indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
+                                                    indices_viewed.data<int32_t>()[i] + x.size(positive_axis) :
                                                     indices_viewed.data<int32_t>()[i];
+                auto index = indices_viewed.data<int32_t>()[i];
+                TS_AUTO_CHECK(index >= 0 && index < x.size(positive_axis));
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..bfed1ff 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -23,6 +23,11 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
+            TS_AUTO_CHECK(indices.dims() == x.dims());
+            if (axis < 0) axis += dims;
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == axis || indices.size(i) == x.size(i));
+            }
 
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
@@ -42,26 +47,27 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+
             auto& indices_viewed = indices;
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
                 indices_data[i] = v < 0 ? v + indices_limit : v;
+                TS_AUTO_CHECK(indices_data[i] >= 0 && indices_data[i] < indices_limit);
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..011c530 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -29,27 +29,30 @@ namespace ts {
                                          std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, out.size(axis), width});
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    out_data[out_index] = x_data[x_index];
+                for (int k = 0; k < out.size(axis); ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        out_data[out_index] = x_data[x_index];
+                    }
                 }
             }
         }
@@ -91,7 +94,7 @@ namespace ts {
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, out.size(axis), width});
 
             auto bytes = x.proto().type_bytes();
 
@@ -100,22 +103,25 @@ namespace ts {
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                for (int k = 0; k < out.size(axis); ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        auto src_ptr = x_data + x_index * bytes;
+                        auto dst_ptr = out_data + out_index * bytes;
+                        memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                    }
                 }
             }
         }
-- 
2.43.0


From d86a7489aa4c62136f2a9e04a8d4b3de8a92dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 005/134] fix: gatherv2 and scatter_nd check their indices

---
 src/kernels/cpu/gatherv2.cpp   | 1 +
 src/kernels/cpu/scatter_nd.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kernels/cpu/gatherv2.cpp b/src/kernels/cpu/gatherv2.cpp
index 26de423..7c6346f 100644
--- a/src/kernels/cpu/gatherv2.cpp
+++ b/src/kernels/cpu/gatherv2.cpp
@@ -39,6 +39,7 @@ namespace ts {
             for (int i = 0; i < number; ++i) {
                 for(int k=0; k<axis; k++) {
                     coordinate_shape[k] = indices_data[i * axis + k]; 
+                    TS_AUTO_CHECK(coordinate_shape[k] >= 0 && coordinate_shape[k] < x_shape[k]);
                 } 
                 
                 //std::copy(tmpshape.begin(), tmpshape.end(),coordinate_shape.begin());  
diff --git a/src/kernels/cpu/scatter_nd.cpp b/src/kernels/cpu/scatter_nd.cpp
index 5dad31a..ab1a54d 100644
--- a/src/kernels/cpu/scatter_nd.cpp
+++ b/src/kernels/cpu/scatter_nd.cpp
@@ -16,6 +16,7 @@ namespace ts {
                 int offset = updates.slice(i).count();
                 auto block = offset * bytes;
                 int out_idx = indices.data<int>(i);
+                TS_AUTO_CHECK(out_idx >= 0 && (out_idx + 1) * offset <= data.count());
                 std::memcpy(out.data<uint8_t>() + out_idx * block,
                             updates.data<uint8_t>() + i * block, block);
             }
-- 
2.43.0


From 12674fbef2ea58295b473c26f30fd6f6f78cb70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 006/134] fix: split checks that the sizes add up to the
 dimension

---
 src/backend/base/base_split.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..3682531 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -25,13 +25,18 @@ namespace ts {
 
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
+            int total = 0;
             std::vector<Tensor::Prototype> shapes;
             for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0);
+                total += size;
                 auto shape = x_shape;
                 shape[dim] = size;
                 shapes.emplace_back(x.dtype(), shape);
             }
 
+            TS_AUTO_CHECK(total == x_shape[dim]);
+
             return shapes;
         }
 
-- 
2.43.0


From ee5508931f1413ba0ec3ab3c351a30c798aece79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 007/134] fix: transpose without permute swaps the last two
 dimensions

---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From 86f1a31fde6988cabbf15d7daa343f76ba62339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 008/134] fix: slice_v3 and strided_slice bounds for negative
 strides, negative axes, zero strides and empty ellipsis

---
 src/backend/base/base_slice_v3.cpp      | 8 +++++---
 src/backend/base/base_strided_slice.cpp | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..e6a154d 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -47,7 +47,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
@@ -57,7 +57,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
@@ -198,7 +198,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (ellipsis_ones && (i == ellipsis_index)) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
@@ -359,6 +359,7 @@ namespace ts {
                 steps = Shape(slice_size, 1);
             }
 
+            TS_AUTO_CHECK(ends.size() == starts.size() && steps.size() == starts.size());
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
             for (int32_t i = 0; i < slice_size; ++i) {
@@ -391,6 +392,7 @@ namespace ts {
                 auto end = ends[i];
                 auto axis = axes[i];
                 auto step = steps[i];
+                if (axis < 0) axis += dims;
 
                 m_begin[axis] = start;
                 m_end[axis] = end;
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..84b0d68 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -71,7 +71,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
@@ -81,7 +81,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
@@ -221,7 +221,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (ellipsis_ones && (i == ellipsis_index)) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
-- 
2.43.0


From 398a7171e599cf1a5507a3d1c61f492f10fe5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 009/134] fix: crop_nd infers unset sizes

---
 src/backend/zoo/crop_nd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..d3c213c 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -46,6 +46,9 @@ namespace ts {
             auto &x = stack[0];
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
+            for (size_t i = 0; i < shape.size() && i < x.dims(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);
+            }
 
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
-- 
2.43.0


From cd4f9e89d29f6caa161a22883cfa601f5f38e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 010/134] fix: crop_to does not remember a negative axis
 between calls

---
 src/kernels/cpu/crop_to.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..0684c13 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -98,7 +98,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From a82c9192d2e66d6c987db3ddfbad4567ebdbf2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 011/134] fix: pad handles cropping of the batch dimension

---
 src/kernels/cpu/pad2d_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..b8db785 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -32,6 +32,8 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
+            num = padding[0][0] < 0 ? num + padding[0][0] : num;
+            num = padding[0][1] < 0 ? num + padding[0][1] : num;
             int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
             dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
             int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-- 
2.43.0


From 7e38d5bede2aa74e7c4fc54ccbf27764644d8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 012/134] fix: range handles negative and zero steps

---
 src/kernels/cpu/range.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..c2a726f 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -21,9 +21,13 @@ namespace ts {
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
+            TS_AUTO_CHECK(delta != 0);
+            const bool ascending = delta > 0;
+            if (ascending ? start >= limit : start <= limit) return 0;
+
             steps = int((limit - start) / delta);
            
-            if(steps * delta + start  < limit)  {
+            if(ascending ? steps * delta + start < limit : steps * delta + start > limit)  {
                 steps++;
             }
             return steps;
-- 
2.43.0


From 1e4bc138bfcbda10904ddf0e920fdfd2f1f34759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 013/134] fix: stack refuses to pop, erase or rebase outside of
 its frame

---
 src/runtime/stack.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/runtime/stack.cpp b/src/runtime/stack.cpp
index 55c4fbc..116bc30 100644
--- a/src/runtime/stack.cpp
+++ b/src/runtime/stack.cpp
@@ -70,25 +70,33 @@ namespace ts {
     const Tensor *Stack::top() const { return &this->m_stack.back(); }
 
     void Stack::pop(size_t pop_size) {
+        if (pop_size > this->size()) {
+            TS_LOG_ERROR << "Can not pop " << pop_size << " from stack with size=" << this->size() << eject;
+        }
         auto it_end = this->m_stack.end();
         auto it_beg = it_end - pop_size;
         this->m_stack.erase(it_beg, it_end);
     }
 
-    void Stack::pop() { this->m_stack.pop_back(); }
+    void Stack::pop() { this->pop(1); }
 
     size_t Stack::size() const { return m_stack.size() - m_base; }
 
     void Stack::erase(int i) {
-        auto it = this->m_stack.begin() + relative2absolute(i);
-        this->m_stack.erase(it);
+        auto at = relative2absolute(i);
+        if (at < m_base || at >= m_stack.size()) {
+            TS_LOG_ERROR << "Can not erase " << i << " from stack with size=" << this->size() << eject;
+        }
+        this->m_stack.erase(this->m_stack.begin() + at);
     }
 
     void Stack::erase(int beg, int end) {
-        auto beg_it = this->m_stack.begin() + relative2absolute(beg);
-        auto end_it = this->m_stack.begin() + relative2absolute(end);
-        // TS_AUTO_CHECK(end_it - beg_it >= 0);
-        this->m_stack.erase(beg_it, end_it);
+        auto abs_beg = relative2absolute(beg);
+        auto abs_end = relative2absolute(end);
+        if (abs_beg < m_base || abs_beg > abs_end || abs_end > m_stack.size()) {
+            TS_LOG_ERROR << "Can not erase [" << beg << ", " << end << ") from stack with size=" << this->size() << eject;
+        }
+        this->m_stack.erase(this->m_stack.begin() + abs_beg, this->m_stack.begin() + abs_end);
     }
 
     size_t Stack::base() const { return m_base; }
@@ -99,7 +107,11 @@ namespace ts {
     }
 
     void Stack::push_base(int i) {
-        this->m_base_stack.push(this->rebase(relative2absolute(i)));
+        auto new_base = relative2absolute(i);
+        if (new_base < m_base || new_base > m_stack.size()) {
+            TS_LOG_ERROR << "Can not set base to " << i << " of stack with size=" << this->size() << eject;
+        }
+        this->m_base_stack.push(this->rebase(new_base));
     }
 
     void Stack::pop_base() {
-- 
2.43.0


From 42c52ef0532df9c513961cb7e606bf38adef9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 014/134] fix: programs drop their inputs also when no input is
 used

---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..89680b7 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -358,7 +358,7 @@ namespace ts {
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
             for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
-- 
2.43.0


From 64bee150a03faf8ade19af38649c6d1549ed6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 015/134] fix: constant folding leaves pack and field nodes to
 the runtime

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 89680b7..24dd909 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -415,7 +415,8 @@ namespace ts {
         // check if each input is const or new
         std::vector<Tensor> const_inputs;
         std::vector<Node> const_input_nodes;
-        bool input_are_const = true;
+        // instructions like _pack and _field can not be run as operator
+        bool input_are_const = InstructionCreator::Query(node->op()) == nullptr;
         bool build_new_node = false;
         for (const auto &input : node.inputs()) {
             auto const_input = input;
-- 
2.43.0


From a7d06691481e3304f9728c38ffa6da7d48c4f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 016/134] fix: outputs never alias the constants of a program

---
 include/core/tensor.h           | 5 +++++
 include/core/threadsafe/smart.h | 7 +++++++
 src/core/tensor.cpp             | 8 ++++++++
 src/runtime/workbench.cpp       | 4 +++-
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/core/tensor.h b/include/core/tensor.h
index 2f875b0..92c03db 100644
--- a/include/core/tensor.h
+++ b/include/core/tensor.h
@@ -294,6 +294,11 @@ namespace ts {
          */
         Tensor strong() const;
 
+        /**
+         * @return if any field of this tensor does not keep its memory alive
+         */
+        bool is_weak() const;
+
         bool has_shape(const Shape &shape) const;
 
         bool has_shape(const std::initializer_list<int> &shape) const {
diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..fbd41ac 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -160,6 +160,13 @@ namespace ts {
             return std::move(strong_ptr);
         }
 
+        /**
+         * @return if this pointer does not keep the object alive
+         */
+        bool is_weak() const {
+            return m_counted != nullptr && m_mode == MANUALLY;
+        }
+
         int use_count() const {
             if (m_counted) return m_counted->use_count;
             return 0;
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..bac09ba 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -458,6 +458,14 @@ namespace ts {
         return strong_tensor;
     }
 
+    bool Tensor::is_weak() const {
+        if (m_memory.is_weak()) return true;
+        for (auto &field : m_fields) {
+            if (field.is_weak()) return true;
+        }
+        return false;
+    }
+
     bool Tensor::has_shape(const Shape &shape) const {
         auto &this_shape = this->sizes();
         if (this_shape.size() != shape.size()) return false;
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..d18076d 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -523,7 +523,9 @@ namespace ts {
 
         std::vector<Tensor> outputs;
         for (int i = 0; i < return_count; ++i) {
-            outputs.emplace_back(*this->m_stack->index(i));
+            auto &output = *this->m_stack->index(i);
+            // constants belong to the program, never give them away
+            outputs.emplace_back(output.is_weak() ? output.clone(this->m_flow_memory) : output);
         }
 
         return std::move(outputs);
-- 
2.43.0


From 5f91edb867c68d4d9e632ef815513699f73a3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 017/134] fix: thread destructor could deadlock or drop the
 submitted task

---
 src/runtime/inside/thread_pool.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..b46f95f 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,8 +13,12 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
-        task_cond.notify_all();
+        {
+            // the worker must not miss this between testing is_running and waiting
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+            task_cond.notify_all();
+        }
         core.join();
     }
 
@@ -40,9 +44,9 @@ namespace ts {
 
     void Thread::operating() {
         std::unique_lock<std::mutex> locker(task_mutex);
-        while (is_running) {
+        while (true) {
             while (is_running && !task) task_cond.wait(locker);
-            if (!is_running) break;
+            if (!task) break;   // stop only after the submitted task was done
             task(signet);
             if (after_task) after_task(signet);
             task = nullptr;
-- 
2.43.0


From 9cb50f2fc40142caecbbe6d5dfeaba68b09f0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 018/134] fix: online_run with explicit inputs takes only these
 inputs

---
 src/runtime/workbench.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index d18076d..4c0f6d6 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -362,7 +362,7 @@ namespace ts {
         for (auto &tensor : input) {
             m_stack->push(tensor);
         }
-        return online_run(op, int(stack().size()));
+        return online_run(op, int(input.size()));
     }
 
     int Workbench::online_run(Operator::shared op, int argc) {
-- 
2.43.0


From a1f8a137dde003470504131c2702f08ced35f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 019/134] fix: run_hook keeps the hooked inputs and refuses a
 missing program

---
 src/runtime/workbench.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 4c0f6d6..e954454 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -584,6 +584,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
@@ -625,7 +629,8 @@ namespace ts {
         });
         ctx::bind<Hook> _hook(hooker);
 
-        this->run();
+        // not run(), which forgets the inputs saved above
+        m_outputs = launch_offline(m_desktop, m_inputs);
     }
 
     const std::string &Workbench::summary() {
-- 
2.43.0


From bdfd9b3d65da884a0216ad48f45e511df58ebab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 020/134] fix: Program::clone keeps the input and output names

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From 91d6dab776e2df47648aad2f43a548fdcf3db10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 021/134] fix: Thread::run waits for the previous task instead
 of replacing it

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index b46f95f..deef67b 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -24,6 +24,7 @@ namespace ts {
 
     void Thread::run(int signet, const Thread::task_type &task, const Thread::after_task_type &after_task) {
         std::unique_lock<std::mutex> locker(task_mutex);
+        while (this->task) task_cond.wait(locker);  // never replace a task not done yet
         this->signet = signet;
         this->task = task;
         this->after_task = after_task;
-- 
2.43.0


From 3860a48cd644e4cc6c99bbd7f4af1c7dbdbc4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 022/134] fix: busy() is true while a task runs

---
 src/runtime/inside/thread_pool.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index deef67b..1076f74 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -32,7 +32,7 @@ namespace ts {
     }
 
     bool Thread::busy() {
-        if (!task_mutex.try_lock()) return false;
+        if (!task_mutex.try_lock()) return true;    // the worker holds it while running a task
         bool is_busy = task != nullptr;
         task_mutex.unlock();
         return is_busy;
@@ -113,10 +113,8 @@ namespace ts {
     }
 
     bool ThreadPool::busy() {
-        if (!running_core_mutex.try_lock()) return false;
-        bool is_busy = this->running_core.size() != this->thread_pool.size();
-        running_core_mutex.unlock();
-        return is_busy;
+        std::unique_lock<std::mutex> locker(running_core_mutex);
+        return this->running_core.size() != this->thread_pool.size();
     }
 
     size_t ThreadPool::size() const {
-- 
2.43.0


From 112b4426f06c115c99057441271f9176fc87bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 023/134] fix: a pool without threads also calls the follow-up
 of a task

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 1076f74..35e45d1 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -87,6 +87,7 @@ namespace ts {
     Thread *ThreadPool::run(const Thread::task_type &task, const Thread::after_task_type &after_task) {
         if (thread_pool.size() == 0) {
             task(0);
+            if (after_task) after_task(0);
             return nullptr;
         } else {
             int signet = load();
-- 
2.43.0


From 981e1ccd2173052ba97e976b5fb62f86c61ea22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 024/134] fix: Thread::busy is exact while the worker only
 passes through its lock

---
 include/runtime/inside/thread_pool.h |  1 +
 src/runtime/inside/thread_pool.cpp   | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/runtime/inside/thread_pool.h b/include/runtime/inside/thread_pool.h
index 76a0b2b..a604b95 100644
--- a/include/runtime/inside/thread_pool.h
+++ b/include/runtime/inside/thread_pool.h
@@ -53,6 +53,7 @@ namespace ts {
         std::mutex task_mutex;              ///< mutex control each fire
         std::condition_variable task_cond;  ///< condition to tell if fire finished
         std::atomic<bool> is_running;       ///< object only work when dry is true
+        std::atomic<bool> has_task;         ///< if there is task not finished
 
         int signet;                         ///< the argument to call `bullet(signet)` and `shell(signet)`
         task_type task = nullptr;          ///< main function call in thread
diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 35e45d1..c109640 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -8,7 +8,7 @@
 namespace ts {
 
     Thread::Thread()
-            : is_running(true), task(nullptr), after_task(nullptr) {
+            : is_running(true), has_task(false), task(nullptr), after_task(nullptr) {
         this->core = std::thread(&Thread::operating, this);
     }
 
@@ -28,14 +28,13 @@ namespace ts {
         this->signet = signet;
         this->task = task;
         this->after_task = after_task;
+        has_task = this->task != nullptr;
         task_cond.notify_all();
     }
 
     bool Thread::busy() {
-        if (!task_mutex.try_lock()) return true;    // the worker holds it while running a task
-        bool is_busy = task != nullptr;
-        task_mutex.unlock();
-        return is_busy;
+        // not guarded by task_mutex, which the worker holds while running a task
+        return has_task;
     }
 
     void Thread::join() {
@@ -52,6 +51,7 @@ namespace ts {
             if (after_task) after_task(signet);
             task = nullptr;
             after_task = nullptr;
+            has_task = false;
             task_cond.notify_all();
         }
     }
-- 
2.43.0


From b5d04ba6a3950c09d5ea5aed46427c167eae0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 025/134] fix: count tensor handles atomically

---
 include/core/threadsafe/smart.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index fbd41ac..1f11cfc 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
 #undef MOVE_MEMBER
+            this->use_count = other.use_count.load();
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +113,8 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                // decide on the value this decrement produced, handles of other threads may count as well
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0


From 8f3159ca3e64f7bcfc482fec834e9a984dd3a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 026/134] fix: the pack option copies the constants it rewrites

---
 src/compiler/option/pack_translator_option.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..1fd7a0d 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -89,6 +89,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            A_trans_node = bubble::bubble(A_node.bubble());
             A_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -108,6 +109,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            B_trans_node = bubble::bubble(B_node.bubble());
             B_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -235,7 +237,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // the constant may be used by other nodes and belongs to the source module, pack a copy of it
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From bea242374656ed5bb172e2e40d85589cd0dda24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 027/134] fix: compile options keep the declared type and shape
 of inputs

---
 src/compiler/option/fp16_translator_option.cpp | 2 +-
 src/compiler/option/pack_translator_option.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..b682d1f 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -24,7 +24,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 1fd7a0d..56a15e2 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -32,7 +32,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
-- 
2.43.0


From 3978d671c30ebdfef100a0640470a66567a04cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 028/134] fix: the pack option translates gemm only where
 inner_prod can replace it

---
 .../option/pack_translator_option.cpp         | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 56a15e2..1da9bef 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -59,13 +59,20 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         auto inputs = node.inputs();
         auto A_node = inputs[0],B_node = inputs[1],C_node = inputs[2];
 
-        float alpha = tensor::to_float(node.bubble().get(name::alpha));
-        float beta = tensor::to_float(node.bubble().get(name::beta));
-        bool transA = tensor::to_bool(node.bubble().get(name::transA));
-        bool transB = tensor::to_bool(node.bubble().get(name::transB));
+        float alpha = 1, beta = 1;
+        bool transA = false, transB = false;
+        if (node.bubble().has(name::alpha)) alpha = tensor::to_float(node.bubble().get(name::alpha));
+        if (node.bubble().has(name::beta)) beta = tensor::to_float(node.bubble().get(name::beta));
+        if (node.bubble().has(name::transA)) transA = tensor::to_bool(node.bubble().get(name::transA));
+        if (node.bubble().has(name::transB)) transB = tensor::to_bool(node.bubble().get(name::transB));
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        auto can_not_transpose = [](const Node &operand) {
+            if (operand.bubble().op() != Bubble::Const) return true;
+            auto value = operand.bubble().get(name::value);
+            return value.dtype() != FLOAT32 || value.dims() != 2;
+        };
+        if ((transA && can_not_transpose(A_node)) || (transB && can_not_transpose(B_node))) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
@@ -115,10 +122,10 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
         auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_trans_node });
 
-        auto alpha_node = bubble::data(name + "_alpha", node.bubble().get(name::alpha));
+        auto alpha_node = bubble::data(name + "_alpha", tensor::from<float>(alpha));
         auto alpha_mul_node = bubble::op(name + "_alpha_mul", name::layer::mul(), { alpha_node, inner_prod_node });
 
-        auto beta_node = bubble::data(name + "_beta", node.bubble().get(name::beta));
+        auto beta_node = bubble::data(name + "_beta", tensor::from<float>(beta));
         auto beta_mul_node = bubble::op(name + "_beta_mul", name::layer::mul(), { beta_node, C_node });
 
         if (ts::near(beta, float(0))) {
-- 
2.43.0


From 0f7ddffae443a6340a3a164c1c2d70f1a414072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 029/134] fix: the pack option leaves kernels without a packed
 form alone

---
 src/compiler/option/pack_translator_option.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 1da9bef..7058ccb 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -166,6 +166,12 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto kernel_shape = kernel_tensor.sizes();
     auto kernel_type = kernel_tensor.dtype();
 
+    // only float matrices and float convolution kernels have a packed form
+    if (kernel_type != FLOAT32 || kernel_shape.size() != (op_name == name::layer::inner_prod() ? 2 : 4)) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     //winograd_check
 #ifdef TS_ON_ARM
     ArgParser parser;
-- 
2.43.0


From 18733842961d9ba525f565fc288f972e0c0b9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 030/134] fix: cyclic device mappings in compile options
 terminate

---
 src/compiler/argparse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/argparse.cpp b/src/compiler/argparse.cpp
index 605a140..e35fb6c 100644
--- a/src/compiler/argparse.cpp
+++ b/src/compiler/argparse.cpp
@@ -7,6 +7,7 @@
 #include <cctype>
 #include <cwctype>
 #include <regex>
+#include <set>
 
 #include <utils/log.h>
 
@@ -100,13 +101,12 @@ namespace ts {
 
     std::string ArgParser::map_device(const std::string &device) {
         auto stand_device = stand1(device);
-        while (true) {
+        std::set<std::string> mapped;   // a cycle of mappings ends at the first device met again
+        while (mapped.insert(stand_device).second) {
             auto it = this->m_map_device.find(stand_device);
-            if (it != this->m_map_device.end()) {
-                stand_device = it->second;
-            } else {
-                return stand2(stand_device);
-            }
+            if (it == this->m_map_device.end()) break;
+            stand_device = it->second;
         }
+        return stand2(stand_device);
     }
 }
-- 
2.43.0


From c153f93c9585234883c1e348f1bd059b1cff1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 031/134] fix: double matrix products are computed

---
 src/kernels/cpu/math_cpu.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..e7d0090 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,23 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            // in blocks of 8 the rows of A (columns of B) are interleaved, the remaining ones follow one by one
+            const int M_blocks = M & ~7;
+            const int N_blocks = N & ~7;
+#ifdef TS_USE_OPENMP
+#pragma omp parallel for num_threads(openmp_threads())
+#endif
+            for (int m = 0; m < M; m++) {
+                const T_IN *A_row = m < M_blocks ? A + (m & ~7) * K + (m & 7) : A + m * K;
+                const int A_step = m < M_blocks ? 8 : 1;
+                for (int n = 0; n < N; n++) {
+                    const T_IN *B_col = n < N_blocks ? B + (n & ~7) * K + (n & 7) : B + n * K;
+                    const int B_step = n < N_blocks ? 8 : 1;
+                    T_OUT sum = 0;
+                    for (int k = 0; k < K; k++) sum += A_row[k * A_step] * B_col[k * B_step];
+                    C[m * ldc + n] = sum;
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From 0282b9e39eb1982928d88de0141fe28e747d7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 032/134] fix: relinking a node with an expired consumer
 terminates

---
 include/module/graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..7b30ce2 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
@@ -72,6 +71,7 @@ namespace ts {
             if (!new_ptr) throw NullPointerException("Link expired node");
             for (auto &output : old_ptr->outputs()) {
                 auto output_ptr = output.lock();
+                if (!output_ptr) continue;
                 for (auto &output_s_input : output_ptr->m_inputs) {
                     if (output_s_input.lock() != old_ptr) continue;
                     output_s_input = new_node;
-- 
2.43.0


From ca0e736d1945f6c653a464b7d349334a5b41dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 033/134] fix: matmul checks the number of dimensions of its
 operands

---
 src/backend/base/base_matmul.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..1cfcb8d 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -33,16 +33,16 @@ namespace ts {
 
             auto dim4 = false;
             if (b.dims() == 4) {
-                auto one = a.size(0) * a.size(1) * b.size(0) * b.size(1);
-                if (!one) {
+                if (a.dims() != 4 || a.size(0) != 1 || a.size(1) != 1 || b.size(0) != 1 || b.size(1) != 1) {
                     TS_LOG_ERROR << "Input of MatMal could be [1, 1, ?, k] and [1, 1, k, ?], but got "
-                        << a.dims() << " " << b.dims() << eject;
+                        << to_string(a.sizes()) << " " << to_string(b.sizes()) << eject;
                 }
                 dim4 = true;
                 a = a.reshape({a.size(2), a.size(3)});
                 b = b.reshape({b.size(2), b.size(3)});
-            } else if (b.dims() > 2) {
-                TS_LOG_ERROR << "Dimension of b in MatMal must less than 2, but got " << b.dims() << eject;
+            } else if (b.dims() != 2 || a.dims() == 0) {
+                TS_LOG_ERROR << "Input of MatMal could be [..., k] and [k, ?], but got "
+                    << to_string(a.sizes()) << " " << to_string(b.sizes()) << eject;
             }
 
             outputs.resize(1);
-- 
2.43.0


From 973f7c24eadfda1706ac57aaf12086bcbaeb4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 034/134] fix: keep 3x3 depthwise convolution inside small
 outputs

---
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..8a1a1f1 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -122,9 +124,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = std::min(padding.top == 0 ? 0 : padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = std::min(padding.left == 0 ? 0 : padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
             
             const float* pinput = x.data<float>();
@@ -300,9 +302,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1;
+            int h_start = std::min(padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
-            int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
+            int w_start = std::min(padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
 
             const float* pinput = x.data<float>();
@@ -422,9 +424,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = std::min(padding.top == 0 ? 0 : padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = std::min(padding.left == 0 ? 0 : padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
 
             const float* pinput = x.data<float>();
-- 
2.43.0


From 1dd3c2af8ed54d80e00e7960a42d6a91f401cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 035/134] fix: let max pooling windows that miss the image give
 zero and use the float kernels only where they apply

---
 src/kernels/cpu/pooling2d_core.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..fcfc2a1 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -18,12 +19,24 @@ namespace ts {
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Shape &input_shape,
+                                                  const Shape &output_shape,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // the special kernels are only written for float
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+            // they read two rows and columns next to the leading padding
+            if (input_shape[2] < 2 || input_shape[3] < 2) return pooling_kernel;
+            // and every window has to touch the image
+            if ((output_shape[2] - 1) * stride.height - padding.top >= input_shape[2] ||
+                (output_shape[3] - 1) * stride.width - padding.left >= input_shape[3]) {
+                return pooling_kernel;
+            }
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -68,7 +81,11 @@ namespace ts {
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
                             //T maxVlue = 0;
-                            T maxVlue = input_data[ihStart * input_w + iwStart];
+                            // a window that misses the image gives 0
+                            T maxVlue = 0;
+                            if (ihStart < ihEnd && iwStart < iwEnd) {
+                                maxVlue = input_data[ihStart * input_w + iwStart];
+                            }
                             //int count = 0;
                             for (int ih = ihStart; ih < ihEnd; ih++) {
                                 for (int iw = iwStart; iw < iwEnd; iw++) {
@@ -197,7 +214,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x.sizes(), out.sizes(), padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
-- 
2.43.0


From fb5dec798679c5444c994b4e028dcc6ca92dbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 036/134] fix: do not reuse a Winograd kernel transformed from
 another kernel or mode

---
 include/backend/base/base_conv2d_winograd.h |  3 +-
 src/backend/base/base_conv2d_winograd.cpp   | 39 +++++++++++++++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..63b3633 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -33,8 +33,9 @@ namespace ts{
             Conv2DFormat m_format;
             std::valarray<int> m_padding4x2;
             float m_padding_value;
-            bool m_kernel_transformed;
+            bool m_kernel_transformed = false;
             Tensor m_k_transformed;
+            Tensor m_k_source;    // the kernel m_k_transformed was made from
         };
     }
 }
diff --git a/src/backend/base/base_conv2d_winograd.cpp b/src/backend/base/base_conv2d_winograd.cpp
index bcc34b0..647d2e8 100644
--- a/src/backend/base/base_conv2d_winograd.cpp
+++ b/src/backend/base/base_conv2d_winograd.cpp
@@ -10,6 +10,8 @@
 
 #include "kernels/common/function.h"
 
+#include <cstring>
+
 namespace ts {
     namespace base{
         Conv2DWinograd::Conv2DWinograd() {
@@ -84,6 +86,15 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dims() == 4);
             TS_AUTO_CHECK(k_tensor.dims() == 4);
+            TS_AUTO_CHECK(k_tensor.dtype() == x_tensor.dtype());
+            if (m_format == FORMAT_NCHW) {
+                TS_AUTO_CHECK(k_tensor.size(1) == x_tensor.size(1));
+                if (m_kernel_transformed) {
+                    TS_AUTO_CHECK(k_tensor.size(2) == k_tensor.size(3) && (k_tensor.size(2) == 4 || k_tensor.size(2) == 8));
+                } else {
+                    TS_AUTO_CHECK(k_tensor.size(2) == 3 && k_tensor.size(3) == 3);
+                }
+            }
 
             Size2D x;
             //winograd conv2d only suppot ksize == 3x3 && stride == 1 && dialations == 1
@@ -142,11 +153,25 @@ namespace ts {
                 padding = Padding2D(m_padding4x2[2], m_padding4x2[3], m_padding4x2[4], m_padding4x2[5]);
             }
 
+            if (m_kernel_transformed) {
+                // the kernel is given in transformed form, its tile size tells the mode
+                m_winograd_mode = kernel_tensor.size(2) == 8 ? F6X6_3X3 : F2X2_3X3;
+                conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, kernel_tensor, m_format, out, true);
+                return 1;
+            }
+
+            //select winograd mode
+            WinogradConv2DMode winograd_mode;
+            KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
+
+            // the transformed kernel is kept as long as the mode and the kernel stay the same
+            auto host_kernel = kernel_tensor.view(MemoryDevice(CPU));
+            bool warm = !m_k_transformed.empty() && m_winograd_mode == winograd_mode &&
+                        m_k_source.dtype() == host_kernel.dtype() && m_k_source.has_shape(host_kernel.sizes()) &&
+                        std::memcmp(m_k_source.data(), host_kernel.data(),
+                                    size_t(host_kernel.count()) * host_kernel.proto().type_bytes()) == 0;
             //warm up
-            if(!m_kernel_transformed || m_k_transformed.empty()){
-                //select winograd mode
-                WinogradConv2DMode winograd_mode;
-                KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
+            if (!warm) {
                 m_winograd_mode = winograd_mode;
 
                 Shape kernel_shape = kernel_tensor.sizes();
@@ -158,10 +183,12 @@ namespace ts {
 
                 conv2d_tranform_kernel(m_winograd_mode, kernel_tensor, m_k_transformed);
 
-                m_kernel_transformed = true;
+                m_k_source = Tensor(Tensor::InFlow::HOST, host_kernel.dtype(), host_kernel.sizes());
+                std::memcpy(m_k_source.data(), host_kernel.data(),
+                            size_t(host_kernel.count()) * host_kernel.proto().type_bytes());
             }
 
-            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, m_kernel_transformed);
+            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, true);
 
 
             return 1;
-- 
2.43.0


From 5a0607c320ec932e6d4e369e2e2066cf6d4b65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 037/134] fix: compute softplus of every element and without
 overflow

---
 src/kernels/cpu/softplus.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/kernels/cpu/softplus.cpp b/src/kernels/cpu/softplus.cpp
index 2a4662a..d88ecc6 100644
--- a/src/kernels/cpu/softplus.cpp
+++ b/src/kernels/cpu/softplus.cpp
@@ -10,19 +10,18 @@
 
 namespace ts {
     namespace cpu {
+        // log(exp(x) + 1), without overflow of the exponential
+        static double softplus(double x) {
+            return std::max(x, 0.) + std::log1p(std::exp(-std::fabs(x)));
+        }
+
         template<typename T>
         static void cpu_softplus_compute_run(const Tensor &x, Tensor &out) {
             const T *input_data = x.data<T>();
             T *output_data = out.data<T>();
-            int count = out.count();
-
-            std::memcpy(output_data, input_data, count * sizeof(T));
-
             int counts = out.count();
             for (int i = 0; i < counts; i++) {
-                T val = *input_data;
-                *output_data = std::log(std::exp(val) + 1.);
-                output_data++;
+                output_data[i] = T(softplus(double(input_data[i])));
             }
         }
 
@@ -35,7 +34,7 @@ namespace ts {
 #pragma omp parallel for num_threads(openmp_threads())
 #endif
             for (int i = 0; i < counts; ++i) {
-                *(output_data + i) = static_cast<float>(std::log(std::exp(*(input_data + i)) + 1.));
+                *(output_data + i) = static_cast<float>(softplus(*(input_data + i)));
             }
         }
 
-- 
2.43.0


From 2e80cab057701beeee77fa373c01fd88a0a32d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 038/134] fix: follow the formula of l2_norm along axes of one
 element and for integers

---
 src/kernels/cpu/l2_norm.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index b546c82..7483222 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -32,13 +32,6 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
-            if (body_num == 1) {
-                T one(1);
-                memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-                       &one, Device(CPU), sizeof(T));
-                return;
-            }
-
             int head_num = 1;
             for (int i = 0; i < m_dim; i++) {
                 head_num *= output_shape[i];
@@ -51,8 +44,6 @@ namespace ts {
 
             HypeShape hype({head_num, body_num, tail_num});
 
-            auto this_epsilon = T(epsilon);
-
             // as NCW format
             for (int n = 0; n < head_num; ++n) {
                 for (int w = 0; w < tail_num; ++w) {
@@ -61,20 +52,20 @@ namespace ts {
                     T *output_channel_data = &output_data[channel_index];
                     const T *loop_in = input_channel_data;
                     T *loop_out = output_channel_data;
-                    T sum = 0;
+                    double sum = 0;
                     for (int i = 0; i < body_num; ++i) {
-                        T data = T(*loop_in * *loop_in);
+                        double data = double(*loop_in) * double(*loop_in);
                         sum += data;
                         // *loop_out = *loop_in;
 
                         loop_in += tail_num;
                         loop_out += tail_num;
                     }
-                    T norm = T(std::sqrt(sum + this_epsilon));
+                    double norm = std::sqrt(sum + epsilon);
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-                        *loop_out = *loop_in / norm;
+                        *loop_out = T(*loop_in / norm);
 
                         loop_in += tail_num;
                         loop_out += tail_num;
-- 
2.43.0


From adcbebd1364dd6826a33ee4e5965e326afcbfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 039/134] fix: negate integers in a wide type in sigmoid

---
 src/kernels/cpu/sigmoid.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/sigmoid.cpp b/src/kernels/cpu/sigmoid.cpp
index f6149aa..d70ebeb 100644
--- a/src/kernels/cpu/sigmoid.cpp
+++ b/src/kernels/cpu/sigmoid.cpp
@@ -11,13 +11,11 @@
 
 namespace ts {
     namespace cpu {
-		template <typename T>
-		static T neg(T a) { return -a; }
+        // not every integer type holds the negative of its values
+        template <typename T>
+        static double neg(T a) { return -double(a); }
 
-		template <> uint8_t neg(uint8_t a) { return a; }
-		template <> uint16_t neg(uint16_t a) { return a; }
-		template <> uint32_t neg(uint32_t a) { return a; }
-		template <> uint64_t neg(uint64_t a) { return a; }
+        static float neg(float a) { return -a; }
 
         template<typename T>
         static void cpu_sigmoid_compute_run(const Tensor &x, Tensor &out) {
-- 
2.43.0


From e19028748d5dd32676827af08af66469778a7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 040/134] fix: sum small integers in a wider type in
 reduce_mean

---
 src/kernels/cpu/reduce_mean.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kernels/cpu/reduce_mean.cpp b/src/kernels/cpu/reduce_mean.cpp
index 6a786b0..e4c80c1 100644
--- a/src/kernels/cpu/reduce_mean.cpp
+++ b/src/kernels/cpu/reduce_mean.cpp
@@ -40,24 +40,24 @@ namespace ts {
             auto output_data = out.data<T>();
             auto output_count = out.count();
 
-            std::memset(output_data, 0, output_count * out.proto().type_bytes());
+            // the sum of small integers may not fit their type
+            using Sum = typename std::conditional<std::is_integral<T>::value && sizeof(T) < sizeof(int64_t), int64_t, T>::type;
+            std::vector<Sum> sum(output_count, Sum(0));
 
             for (int i = 0; i < number; ++i) {
                 for (int c = 0; c < channels; ++c) {
                     auto local_input_data = input_data + (i * channels + c) * width;
-                    auto local_output_data = output_data + i * width;
+                    auto local_sum = sum.data() + i * width;
                     for (int w = 0; w < width; ++w) {
-                        *local_output_data += *local_input_data;
+                        *local_sum += *local_input_data;
                         ++local_input_data;
-                        ++local_output_data;
+                        ++local_sum;
                     }
                 }
             }
 
-            auto local_output_data = output_data;
             for (int i = 0; i < output_count; ++i) {
-                *local_output_data /= channels;
-                ++local_output_data;
+                output_data[i] = T(sum[i] / Sum(channels));
             }
         }
 
-- 
2.43.0


From ffe4c3982e4522b45ac245a0e37444cc4f2b009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 041/134] fix: check that the axes of reduce_mean are
 neighbours after resolving negative ones, and read them in any integer type

---
 src/backend/base/base_reduce_mean.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..0386dba 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -22,7 +22,7 @@ namespace ts {
             supper::init();
 
             m_dims.clear();
-            auto dims_tensor = this->get("dims");
+            auto dims_tensor = tensor::cast(INT32, this->get("dims"));
             int dims_dim = int(dims_tensor.dims());
             size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
             m_dims.resize(dims_count);
@@ -50,14 +50,6 @@ namespace ts {
             Shape input = stack[0].sizes();
             auto has_dims = int(input.size());
 
-            bool continue_flag = true;
-            if(dims.size() > 1){
-                continue_flag = check_dims_continue(dims);
-            }
-
-            if(!continue_flag)
-                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
-
             std::vector<int> fixed_dims(dims);
             for (int i = 0; i < fixed_dims.size(); ++i) {
                 fixed_dims[i] = dims[i] >= 0 ? dims[i] : has_dims + dims[i];
@@ -68,6 +60,14 @@ namespace ts {
                 }
             }
 
+            bool continue_flag = true;
+            if(fixed_dims.size() > 1){
+                continue_flag = check_dims_continue(fixed_dims);
+            }
+
+            if(!continue_flag)
+                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
+
             if(keep_dim){
                 for (int i = 0; i < fixed_dims.size(); ++i) {
                     input[fixed_dims[i]] = 1;
-- 
2.43.0


From 16f4609fd69211c3343263322bbc0723c4e211e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 042/134] fix: casting to boolean takes every value but zero as
 true

---
 src/core/tensor_builder.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..35b7e96 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -65,6 +65,27 @@ namespace ts {
             };
         };
 
+        // any value but zero is true
+        template <DTYPE DTYPE_SRC>
+        class type_cast_template<BOOLEAN, DTYPE_SRC> {
+        public:
+            static void
+            cast(typename dtype<BOOLEAN>::declare *dst, const typename dtype<DTYPE_SRC>::declare *src, size_t size) {
+                for (size_t i = 0; i < size; ++i) {
+                    dst[i] = src[i] != typename dtype<DTYPE_SRC>::declare(0) ? 1 : 0;
+                }
+            };
+        };
+
+        template <>
+        class type_cast_template<BOOLEAN, BOOLEAN> {
+        public:
+            static void
+            cast(typename dtype<BOOLEAN>::declare *dst, const typename dtype<BOOLEAN>::declare *src, size_t size) {
+                std::memcpy(dst, src, size * sizeof(typename dtype<BOOLEAN>::declare));
+            };
+        };
+
         template<DTYPE DTYPE_SRC>
         static void
         type_cast_to(void *dst, DTYPE dst_dtype, const typename dtype<DTYPE_SRC>::declare *src, size_t size) {
-- 
2.43.0


From b7d2146bb0f6ddf84182b7e7ef0e1d0245ede237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 043/134] fix: int16 and uint16 have their own type names

---
 include/core/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From acba6cc0b3f258856b8b5f9f8f6ef96574b2c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 044/134] fix: half precision conversions of subnormal and
 non-finite numbers

---
 include/core/ieee754_float.h | 38 ++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/core/ieee754_float.h b/include/core/ieee754_float.h
index 5b36157..59a59b1 100644
--- a/include/core/ieee754_float.h
+++ b/include/core/ieee754_float.h
@@ -119,24 +119,46 @@ namespace ts {
                 return;
             }
 
-            auto shift_left = int64_t(fraction) - int64_t(other.fraction);
+            constexpr auto one = uint64_t(1);
             auto part_sign = (other.value_sign() << (W - 1));
-            auto part_fraction = shift_left > 0
-                                 ? (other.value_fraction() << shift_left)
-                                 : (other.value_fraction() >> -shift_left);
+            auto part_fraction = other.value_fraction();
             auto origin_exponent = other.value_exponent() + bias;
+            bool is_special = other.value_exponent() > int64_t(other.bias);    // inf or NaN
+
+            // a subnormal number has no implicit leading one, normalize it
+            if (other.value_exponent() == -int64_t(other.bias)) {
+                ++origin_exponent;
+                while ((part_fraction >> _T_FRACTION) == 0) {
+                    part_fraction <<= 1;
+                    --origin_exponent;
+                }
+                part_fraction &= (one << _T_FRACTION) - 1;
+            }
+
+            auto shift_right = int64_t(_T_FRACTION) - int64_t(fraction);
+            // a number smaller than the smallest normal number is subnormal
+            if (origin_exponent <= 0) {
+                part_fraction |= one << _T_FRACTION;
+                shift_right += 1 - origin_exponent;
+            }
+            part_fraction = shift_right > 0
+                            ? (shift_right < 64 ? part_fraction >> shift_right : 0)
+                            : (part_fraction << -shift_right);
+
             // read url: https://baike.baidu.com/item/IEEE%20754/3869922?fr=aladdin
-            // following code can make NaN number to max or min number
+            // following code can make NaN number to max or min number, if this type is not wider than other type
             constexpr auto max_exponent = (decltype(origin_exponent)(1) << exponent) - 2;
             constexpr auto max_fraction = (decltype(part_fraction)(1) << fraction) - 1;
-            if (origin_exponent < decltype(origin_exponent)(0)) {
+            if (is_special && _EXPONENT > _T_EXPONENT) {
+                origin_exponent = max_exponent + 1;
+            } else if (origin_exponent <= decltype(origin_exponent)(0)) {
                 origin_exponent = 0;
-                part_fraction = 1;  // smallest float
+                if (part_fraction == 0) part_fraction = 1;  // smallest float
             } else if (origin_exponent > max_exponent) {
                 origin_exponent = max_exponent;
                 part_fraction = max_fraction;
             }
-            auto part_exponent = (origin_exponent << fraction) & this->mask_exponent().code;
+            auto part_exponent = (uint64_t(origin_exponent) << fraction) & this->mask_exponent().code;
             auto bits = part_sign | part_exponent | part_fraction;
             this->m_bits.code = typename bitset::type(bits);
         }
-- 
2.43.0


From 4fae2653b008ff7bfe530ab586481e70e3650299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 045/134] fix: dilation of the padding operators is optional as
 documented

---
 src/backend/dragon/conv2d_padding.cpp | 2 +-
 src/backend/tf/conv2d_padding.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 99b3576..8ad886d 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -15,7 +15,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, OPTIONAL, tensor::build(INT32, {4}, {1, 1, 1, 1}));
             this->field(name::padding_method, OPTIONAL, tensor::from(name::VALID));
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..903096f 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -14,7 +14,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, OPTIONAL, tensor::build(INT32, {4}, {1, 1, 1, 1}));
             this->field(name::padding_method, REQUIRED);
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
-- 
2.43.0


From 41ae302fe2ff51144e9e27488507a95339ce674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 046/134] fix: compare the channels of NHWC convolutions in the
 padding operators

---
 src/backend/dragon/conv2d_padding.cpp | 3 ++-
 src/backend/tf/conv2d_padding.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 8ad886d..0bd6d0b 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -198,7 +198,8 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dtype() == w_tensor.dtype());
 
-            TS_AUTO_CHECK(w_tensor.size(1) == x_tensor.size(1));
+            auto channel_dim = m_format == FORMAT_NHWC ? 3 : 1;
+            TS_AUTO_CHECK(w_tensor.size(channel_dim) == x_tensor.size(channel_dim));
 
             Size2D x;
             Size2D ksize;
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 903096f..a0fa6c3 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -172,7 +172,8 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dtype() == w_tensor.dtype());
 
-            if (w_tensor.size(1) != x_tensor.size(1)) {
+            auto channel_dim = m_format == FORMAT_NHWC ? 3 : 1;
+            if (w_tensor.size(channel_dim) != x_tensor.size(channel_dim)) {
                 TS_LOG_ERROR << "Conv2D failed: x=" << x_tensor.proto() << ", w=" << w_tensor.proto()
                     << ", format=" << tensor::to_string(get(name::format)) << "." << eject;
             }
-- 
2.43.0


From 14f5afa2a7f873ef88179304a72ddff022fd7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 047/134] fix: dragon convolution padding counts dilation

---
 src/backend/dragon/conv2d_padding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 0bd6d0b..a82a3d6 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -172,7 +172,7 @@ namespace ts {
                                                            padding_method);
 
             Size2D expected_output_size(dynamic_output_size[0].out, dynamic_output_size[1].out);
-            Size2D expected_input_size = pooling2d_backward(expected_output_size, static_padding, ksize, stride);
+            Size2D expected_input_size = conv2d_backward(expected_output_size, static_padding, ksize, stride, dilation);
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-- 
2.43.0


From fe75b8d3ac7a88a166080eb610800bad5d61ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 048/134] fix: SAME padding with stride over kernel size starts
 at the first pixel

---
 src/backend/onnx/pooling2d_auto_pad.cpp | 12 ++++++++----
 src/backend/tf/conv2d_padding.cpp       |  5 +++--
 src/backend/tf/pooling2d_padding.cpp    |  5 +++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index c430e6c..3a420e2 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -144,8 +144,9 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            // nothing is padded at the beginning, if the windows do not reach over the end
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
@@ -165,8 +166,11 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            // nothing is padded at the beginning, if the windows do not reach over the end
+            auto upper_padding_height = std::max(padding_height, 0);
+            auto upper_padding_width = std::max(padding_width, 0);
+            auto half_padding_height = padding_height - (upper_padding_height - upper_padding_height / 2);
+            auto half_padding_width = padding_width - (upper_padding_width - upper_padding_width / 2);
 
             dynamic_padding.top = static_padding.top + (padding_height - half_padding_height);
             dynamic_padding.left = static_padding.left + (padding_width - half_padding_width);
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index a0fa6c3..22c9776 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -150,8 +150,9 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            // nothing is padded at the beginning, if the windows do not reach over the end
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index aa4478a..43aec47 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -132,8 +132,9 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            // nothing is padded at the beginning, if the windows do not reach over the end
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
-- 
2.43.0


From a325904fc44f3c43f825278715e99542397e3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 049/134] fix: bilinear sampling stays inside of the image

---
 src/kernels/cpu/affine_sample2d.cpp | 14 +++++++++-----
 src/kernels/cpu/resize2d.cpp        | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..a081191 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -83,13 +83,17 @@ namespace ts {
                     }
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the last row and column have no next one
+                    int n_x_n = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +102,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_n * src_width + n_x_n) * channels + c]));
 
                     } //end for c
                 }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..7437b78 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -35,13 +35,17 @@ namespace ts {
                     double lf_y_s = lfy_scl * n_y_d + bias_y;
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the last row and column have no next one
+                    int n_x_n = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +54,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_n * src_width + n_x_n) * channels + c]);
 
                     }//end for c
                 }
-- 
2.43.0


From a2efce37ff6b0eec65783a0974560d8325aa1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 050/134] fix: cubic sampling repeats the border of the image

---
 src/kernels/cpu/affine_sample2d.cpp | 58 ++++++++++-------------
 src/kernels/cpu/resize2d.cpp        | 72 ++++++++++++++++-------------
 2 files changed, 64 insertions(+), 66 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index a081191..2ff4f1c 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -266,21 +266,11 @@ namespace ts {
                         //continue;
                     }
                     else{
-                        if (sy < 1) {
-                            fy = 0;
-                            sy = 1;
-                        }
-                        if (sy >= x_height - 3) {
-                            fy = 0;
-                            sy = x_height - 3;
-                        }
-                        if (sx < 1) {
-                            fx = 0;
-                            sx = 1;
-                        }
-                        if (sx >= x_width - 3) {
-                            fx = 0;
-                            sx = x_width - 3;
+                        // pixels out of the image repeat the nearest one
+                        int rows[4], cols[4];
+                        for (int t = 0; t < 4; ++t) {
+                            rows[t] = std::max(0, std::min(x_height - 1, sy - 1 + t));
+                            cols[t] = std::max(0, std::min(x_width - 1, sx - 1 + t));
                         }
 
                         coeffsY[0] = ((A * (fy + 1) - 5 * A) * (fy + 1) + 8 * A) * (fy + 1) - 4 * A;
@@ -295,25 +285,25 @@ namespace ts {
 
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[rows[0] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index 7437b78..3d7e881 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -5,6 +5,8 @@
 #include <backend/name.h>
 #include <core/device.h>
 #include <utils/assert.h>
+#include <algorithm>
+#include <limits>
 #ifdef TS_USE_OPENMP
 #include <kernels/common/openmp.h>
 #endif
@@ -66,6 +68,16 @@ namespace ts {
         }
 
 
+        // cubic may go beyond the values of image
+        template<typename T>
+        static inline T saturate(double value) {
+            const auto max = double(std::numeric_limits<T>::max());
+            const auto min = double(std::numeric_limits<T>::lowest());
+            if (value >= max) return std::numeric_limits<T>::max();
+            if (value <= min) return std::numeric_limits<T>::lowest();
+            return T(value);
+        }
+
         template<typename T>
         static inline void Resize2d_ResizeImageCubic(const T *src_im, int src_width, int src_height, int channels,
                                                      T *dst_im, int dst_width, int dst_height) {
@@ -84,13 +96,10 @@ namespace ts {
                 fy -= sy;
                 //sy = std::min(sy, src_height - 3);
                 //sy = std::max(1, sy);
-                if (sy < 1) {
-                    fy = 0;
-                    sy = 1;
-                }
-
-                if (sy >= src_height - 3) {
-                    fy = 0, sy = src_height - 3;
+                // rows out of the image repeat the nearest one
+                int rows[4];
+                for (int t = 0; t < 4; ++t) {
+                    rows[t] = std::max(0, std::min(src_height - 1, sy - 1 + t));
                 }
 
                 const double A = -0.75f;
@@ -106,11 +115,10 @@ namespace ts {
                     int sx = int(floor(fx));
                     fx -= sx;
 
-                    if (sx < 1) {
-                        fx = 0, sx = 1;
-                    }
-                    if (sx >= src_width - 3) {
-                        fx = 0, sx = src_width - 3;
+                    // columns out of the image repeat the nearest one
+                    int cols[4];
+                    for (int t = 0; t < 4; ++t) {
+                        cols[t] = std::max(0, std::min(src_width - 1, sx - 1 + t));
                     }
 
                     double coeffsX[4];
@@ -120,26 +128,26 @@ namespace ts {
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
                     for (int k = 0; k < channels; ++k) {
-                        dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
+                        dst_im[j * dstrows + i * channels + k] = saturate<T>((
+                                src_im[rows[0] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                src_im[rows[1] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                src_im[rows[2] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                src_im[rows[3] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                src_im[rows[0] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                src_im[rows[1] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                src_im[rows[2] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                src_im[rows[3] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                src_im[rows[0] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                src_im[rows[1] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                src_im[rows[2] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                src_im[rows[3] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                src_im[rows[0] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                src_im[rows[1] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                src_im[rows[2] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                src_im[rows[3] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[3]));
 
                     }//end k
                 }
-- 
2.43.0


From 2489bfe4cfd4c26d29ff87645da607bb1d9a4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 051/134] fix: the last row and column belong to the sampled
 image

---
 src/kernels/cpu/affine_sample2d.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 2ff4f1c..21899da 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -72,8 +72,8 @@ namespace ts {
                     double lf_x_s = location.x;
                     double lf_y_s = location.y;
 
-                    auto inner = lf_x_s >= 0 && lf_x_s < src_width - 1 &&
-                                 lf_y_s >= 0 && lf_y_s < src_height - 1;
+                    auto inner = lf_x_s >= 0 && lf_x_s <= src_width - 1 &&
+                                 lf_y_s >= 0 && lf_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -143,8 +143,8 @@ namespace ts {
                     auto n_x_s = int(std::round(lf_x_s));
                     auto n_y_s = int(std::round(lf_y_s));
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -197,8 +197,8 @@ namespace ts {
                     auto n_x_s = int(lf_x_s);
                     auto n_y_s = int(lf_y_s);
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -257,7 +257,8 @@ namespace ts {
 					auto sx = int(std::floor(fx));
                     fx -= sx;
 
-                    auto outter = sy < 1 || sy >= x_height - 3 || sx < 1 || sx >= x_width - 3;
+                    auto outter = location.x < 0 || location.x > x_width - 1 ||
+                                  location.y < 0 || location.y > x_height - 1;
 
                     if (outter && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int k = 0; k < channels; k++) {
-- 
2.43.0


From 9ed2d0fe6c8e03f4300be9d853971944e5e41985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 052/134] fix: type and dim of affine_sample2d are optional as
 documented

---
 src/backend/base/base_affine_sample2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 83b8d91..1cab63c 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -17,8 +17,8 @@ namespace ts {
         const static std::string OUTER_VALUE = "outer_value";
 
         Affine_Sample2D::Affine_Sample2D() {
-            field(name::type, REQUIRED);
-            field(name::dim, REQUIRED);
+            field(name::type, OPTIONAL, tensor::from<int32_t>(int32_t(Affine_Sample2DType::LINEAR)));
+            field(name::dim, OPTIONAL, tensor::from<int32_t>(-2));
             field(OUTER_VALUE, OPTIONAL);
         }
 
-- 
2.43.0


From 6a88ee2401530aafa228108c38a5a6088817487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 053/134] fix: clone of an image filter has the steps of the
 filter

---
 src/runtime/image_filter.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..9e2bd43 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -14,6 +14,7 @@
 #include "runtime/workbench.h"
 
 #include <numeric>
+#include <unordered_map>
 
 namespace ts {
 
@@ -207,9 +208,18 @@ namespace ts {
 
     ImageFilter::ImageFilter(const ImageFilter::Implement &other) {
         m_impl->m_computing_device = other.m_computing_device;
-        this->clear();
-        m_impl->m_program = other.m_program->clone();
-        m_impl->m_compiled = true;
+        // copy the steps, each takes the result of steps before
+        m_impl->m_graph = std::make_shared<Graph>();
+        std::unordered_map<const Bubble *, Node> copied;
+        for (auto &node : other.m_graph->nodes()) {
+            auto dolly = m_impl->m_graph->make(node.bubble());
+            std::vector<Node> inputs;
+            for (auto &input : node.inputs()) inputs.push_back(copied.at(&input.bubble()));
+            Node::Link(dolly, inputs);
+            copied.insert(std::make_pair(&node.bubble(), dolly));
+        }
+        m_impl->m_compiled = other.m_compiled;
+        if (other.m_compiled && other.m_program) m_impl->m_program = other.m_program->clone();
     }
 
     const Graph &ImageFilter::graph() const {
-- 
2.43.0


From 15c06a29e5e2a8604f2f4523e7252c89eebec369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 054/134] fix: dispatch argmax on the type of its input

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From 3b293517b32800f8fd20625298fd31c818847e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 055/134] fix: keep the fraction of prior_box step_h and step_w

---
 src/kernels/cpu/prior_box.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index d979dda..0bc5a6b 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -118,9 +118,9 @@ namespace ts {
                 if (has("step_h") || has("step_w")) {
                     TS_CHECK(!has("step"))
                             << "Either step or step_h/step_w should be specified; not both." << eject;
-                    step_h_ = tensor::to_int(get("step_h"));
+                    step_h_ = tensor::to_float(get("step_h"));
                     TS_CHECK_GT(step_h_, 0.) << "step_h should be larger than 0." << eject;
-                    step_w_ = tensor::to_int(get("step_w"));
+                    step_w_ = tensor::to_float(get("step_w"));
                     TS_CHECK_GT(step_w_, 0.) << "step_w should be larger than 0." << eject;
                 } else if (has("step")) {
                     const float step = tensor::to_float(get("step"));
-- 
2.43.0


From b84036c69ea6335124bc161b20e660d24ad2cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 056/134] fix: decode shared box locations when there is no
 background label

---
 src/kernels/cpu/caffe/bbox_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/caffe/bbox_util.cpp b/src/kernels/cpu/caffe/bbox_util.cpp
index 888dc10..8ccab07 100644
--- a/src/kernels/cpu/caffe/bbox_util.cpp
+++ b/src/kernels/cpu/caffe/bbox_util.cpp
@@ -644,7 +644,7 @@ namespace ts {
                 LabelBBox &decode_bboxes = (*all_decode_bboxes)[i];
                 for (int c = 0; c < num_loc_classes; ++c) {
                     int label = share_location ? -1 : c;
-                    if (label == background_label_id) {
+                    if (!share_location && label == background_label_id) {
                         // Ignore background class.
                         continue;
                     }
-- 
2.43.0


From 6a4f8d491b46a67c75ae355d42fb25c6bb3a6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 057/134] fix: keep the written data when a dragon tensor is
 reshaped

---
 include/kernels/common/third/dragon/tensor.h | 39 ++++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/kernels/common/third/dragon/tensor.h b/include/kernels/common/third/dragon/tensor.h
index 3ce2c27..d46338d 100644
--- a/include/kernels/common/third/dragon/tensor.h
+++ b/include/kernels/common/third/dragon/tensor.h
@@ -132,26 +132,25 @@ namespace ts {
 
             DTYPE dtype() const { return m_tst.dtype(); }
 
-            int64_t dim(int64_t i) const { return int64_t(m_tst.size(int(i))); }
+            int64_t dim(int64_t i) const { return int64_t(t().size(int(i))); }
 
-            int64_t count() const { return int64_t(m_tst.count()); }
+            int64_t count() const { return int64_t(t().count()); }
 
             bool updated() const { return m_shape_updated; }
 
-            ts::Tensor t() const { return m_tst; }
+            ts::Tensor t() const {
+                // data already written keeps the head of it after Reshape
+                if (m_shape_updated && this->dtype() != VOID) {
+                    resize_data(this->dtype(), m_tst.device());
+                }
+                return m_tst;
+            }
 
             const std::vector<int64_t> &shape() const { return m_shape; }
 
             void reshape(const std::vector<int64_t> &shape) {
-                m_shape_updated = m_shape.size() != shape.size();
-                if (!m_shape_updated) {
-                    for (size_t i = 0; i < shape.size(); ++i) {
-                        if (m_shape[i] != shape[i]) {
-                            m_shape_updated = true;
-                            break;
-                        }
-                    }
-                }
+                // an earlier Reshape may not have been applied yet
+                m_shape_updated = m_shape_updated || m_shape != shape;
                 m_shape = shape;
             }
 
@@ -200,17 +199,25 @@ namespace ts {
                 newdata(dtype, MemoryDevice(CPU));
             }
 
+            void resize_data(DTYPE dtype, const MemoryDevice &device) const {
+                auto head = m_tst;
+                newdata(dtype, device);
+                if (head.dtype() == dtype && head.count() >= m_tst.count() && m_tst.count() > 0) {
+                    auto bytes = size_t(m_tst.count()) * size_t(type_bytes(dtype));
+                    memcpy(m_tst.data(), m_tst.device(), bytes, head.data(), head.device(), bytes);
+                }
+                m_shape_updated = false;
+            }
+
             template<typename Context>
             void ensure_dtype_and_shape(DTYPE dtype) const {
                 if (this->dtype() == dtype && !m_shape_updated) return;
-                auto flow = ctx::of<Workbench>::ref().runtime().flow();
                 if (TypeMeta::Id<Context>() == TypeMeta::Id<CPUContext>()) {
-                    newdata(dtype, MemoryDevice(CPU), flow);
+                    resize_data(dtype, MemoryDevice(CPU));
                 } else if (TypeMeta::Id<Context>() == TypeMeta::Id<CUDAContext>()) {
                     auto device = ctx::of<Workbench>::ref().device().memory_device;
-                    newdata(dtype, device, flow);
+                    resize_data(dtype, device);
                 }
-                m_shape_updated = false;
             }
 
             template<typename T, typename Context>
-- 
2.43.0


From c0628179c898580d006a7537a706b4c54b2c35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 058/134] fix: read the scores and deltas of each image in
 proposal

---
 src/kernels/cpu/dragon/proposal_op.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 0218212..84f5ffd 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -121,6 +121,8 @@ void ProposalOp<Context>::RunWithType(
         total_rois += num_rois;
         Ydata += (num_rois * 5);
         im_info += Input(-1).dim(1);
+        scores += Input(-3).count() / num_images;
+        bbox_deltas += Input(-2).count() / num_images;
     }
     Output(0)->Reshape(vector<int64_t>({ total_rois, 5 }));
 
-- 
2.43.0


From 382310770566d03457bff7868f525a5191b8efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 059/134] fix: refuse a reshape with an unknown size beside a
 zero size

---
 src/core/tensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index bac09ba..5ef61e8 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -226,6 +226,10 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape)
+                             << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
-- 
2.43.0


From 53b0c944e66602f2d8c35835386da78a25cf5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 060/134] fix: packing no tensors drops the former fields

---
 src/core/tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 5ef61e8..9a7b00b 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -244,8 +244,9 @@ namespace ts {
 
     void Tensor::pack(const std::vector<Tensor::self> &fields) {
         if (fields.empty()) {
-            this->m_memory = make_smart<TensorMemory>();
+            this->m_memory = empty_memory();
             this->m_proto = Prototype();
+            this->m_fields.clear();
             return;
         }
         this->m_memory = fields[0].m_memory;
-- 
2.43.0


From d666d7015170630117d2a399232888168d8beae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 061/134] fix: refuse slices outside the tensor

---
 src/core/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 9a7b00b..14158c2 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -638,6 +638,7 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -648,6 +649,7 @@ namespace ts {
     Tensor Tensor::slice(int beg, int end) {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From e1b67921a32bba60b5a875241a43f6eae9ef145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 062/134] fix: refuse shapes of more than seven sizes

---
 include/utils/otl.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..4920708 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(_checked(n)) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(_checked(n)) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(_checked(size_type(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,7 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
+                    if (n >= CAPACITY) {
                         TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
                     }
                     m_buf[n] = *it;
@@ -395,6 +395,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _checked(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +406,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _checked(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +418,13 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static S _checked(size_type n) {
+                if (n > size_type(N)) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return S(n);
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,7 +437,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
+                if (this->size() + 1 > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
@@ -438,7 +447,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
+                if (this->size() + vec.size() > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
-- 
2.43.0


From e970991134138bc3cacc7a2e31f5ee0c29e275da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 063/134] fix: views of a mirrored value survive a broadcast of
 another view

---
 include/core/sync/sync_block.h | 80 ++++++++++++----------------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/include/core/sync/sync_block.h b/include/core/sync/sync_block.h
index 748cf99..300c901 100644
--- a/include/core/sync/sync_block.h
+++ b/include/core/sync/sync_block.h
@@ -39,23 +39,12 @@ namespace ts {
     private:
         void set(const _KEY &key, const _VALUE &value) {
             auto _write = this->lock_write();
-            if (key == m_default_key) {
-                m_param->m_sync_values.clear();
-                auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(key, value));
-                m_default_value = &(pair_it_flag.first->second);
-            } else {
-                m_param->m_sync_values.clear();
-                m_param->m_sync_values.insert(std::make_pair(key, value));
-                auto default_key = key;
-                auto default_value = m_param->m_hanlder(value, key, m_default_key);
-                auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(default_key, default_value));
-                m_default_value = &(pair_it_flag.first->second);
-            }
+            m_param->m_sync_values.clear();
+            m_param->m_sync_values.insert(std::make_pair(key, value));
         }
 
         _VALUE &get(const _KEY &key) {
             auto _read = this->lock_read();
-            if (key == m_default_key) return *m_default_value;
             auto it = m_param->m_sync_values.find(key);
             if (it == m_param->m_sync_values.end()) {
                 TS_LOG_ERROR << "Can not access key=" << key << eject;
@@ -69,15 +58,15 @@ namespace ts {
 
         void clear() {
             auto _write = this->lock_write();
-            auto kept_value = *m_default_key;
+            auto kept_value = this->sync_insert(m_default_key);
             m_param->m_sync_values.clear();
-            auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(m_default_key, kept_value));
-            m_default_value = &(pair_it_flag.first->second);
+            m_param->m_sync_values.insert(std::make_pair(m_default_key, kept_value));
         }
 
         void clear(const _KEY &key) {
             auto _write = this->lock_write();
             if (key == m_default_key) TS_LOG_ERROR << "Can not clear default key=" << key << eject;
+            this->sync_insert(m_default_key);
             m_param->m_sync_values.erase(key);
         }
 
@@ -85,7 +74,6 @@ namespace ts {
         _VALUE &sync(const _KEY &key) {
             {
                 auto _read = this->lock_read();
-                if (key == m_default_key) return *m_default_value;
                 auto it = m_param->m_sync_values.find(key);
                 if (it != m_param->m_sync_values.end()) {
                     return it->second;
@@ -101,47 +89,37 @@ namespace ts {
             return m_default_key;
         }
 
-        const _VALUE &value() const {
-            auto _read = this->lock_read();
-            return *m_default_value;
+        _VALUE value() const {
+            {
+                auto _read = this->lock_read();
+                auto it = m_param->m_sync_values.find(m_default_key);
+                if (it != m_param->m_sync_values.end()) {
+                    return it->second;
+                }
+            }
+            {
+                // another view dropped this copy in broadcast
+                auto _write = this->lock_write();
+                return const_cast<self *>(this)->sync_insert(m_default_key);
+            }
         }
 
         shared view(const _KEY &key) {
             std::shared_ptr<self> dolly(new self);
-            if (key == m_default_key) {
-                auto _write = this->lock_read();
-                dolly->m_default_key = m_default_key;
-                dolly->m_default_value = m_default_value;
-                dolly->m_param = m_param;
-                dolly->m_mutex = m_mutex;
-            } else {
-                auto _write = this->lock_write();
-                _VALUE *dolly_value = nullptr;
-
-                auto it = m_param->m_sync_values.find(key);
-                if (it != m_param->m_sync_values.end()) {
-                    dolly_value = &it->second;
-                } else {
-                    dolly_value = &this->sync_insert(key);
-                }
-
-                dolly->m_default_key = key;
-                dolly->m_default_value = dolly_value;
-                dolly->m_param = m_param;
-                dolly->m_mutex = m_mutex;
-            }
+            this->sync(key);
+            dolly->m_default_key = key;
+            dolly->m_param = m_param;
+            dolly->m_mutex = m_mutex;
             return std::move(dolly);
         }
 
         // broadcast default value to other key,
-        // be careful, this action may disable already exist view
+        // already exist views get the value again when they are used
         void broadcast() {
             auto _write = this->lock_write();
-            auto key = m_default_key;
-            auto value = *m_default_value;
+            auto value = this->sync_insert(m_default_key);
             m_param->m_sync_values.clear();
-            auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(key, value));
-            m_default_value = &(pair_it_flag.first->second);
+            m_param->m_sync_values.insert(std::make_pair(m_default_key, value));
         }
 
         void foreach(const std::function<void(const _KEY &key, const _VALUE &value)> &handler) const {
@@ -155,12 +133,14 @@ namespace ts {
         SyncBlock() = default;
 
         _VALUE &sync_insert(const _KEY &key) {
-            if (key == m_default_key) return *m_default_value;
             auto it = m_param->m_sync_values.find(key);
             if (it != m_param->m_sync_values.end()) {
                 return it->second;
             }
-            _VALUE value = m_param->m_hanlder(*m_default_value, m_default_key, key);
+            // every kept copy has the same value
+            auto from = m_param->m_sync_values.find(m_default_key);
+            if (from == m_param->m_sync_values.end()) from = m_param->m_sync_values.begin();
+            _VALUE value = m_param->m_hanlder(from->second, from->first, key);
             auto pair_it = m_param->m_sync_values.insert(std::make_pair(key, value));
             return pair_it.first->second;
         }
@@ -202,7 +182,6 @@ namespace ts {
         };
 
         _KEY m_default_key;
-        _VALUE *m_default_value;
 
         std::shared_ptr<Param> m_param;
         std::shared_ptr<ts::rwmutex> m_mutex;
@@ -215,7 +194,6 @@ namespace ts {
         SyncBlock &operator=(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(m_default_key);
-            MOVE_MEMBER(m_default_value);
             MOVE_MEMBER(m_param);
             MOVE_MEMBER(m_mutex);
 #undef MOVE_MEMBER
-- 
2.43.0


From 2ee5a7da52c9ff1e33afae4f3c89bc6dd38e1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 064/134] fix: filling memory from an empty pattern ends

---
 src/core/memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/memory.cpp b/src/core/memory.cpp
index 5b690b7..d5194c4 100644
--- a/src/core/memory.cpp
+++ b/src/core/memory.cpp
@@ -130,6 +130,7 @@ namespace ts {
                                                                                  : HardConverter::Query(
                         dst_device.type(), dst_device.type());
         TS_AUTO_CHECK(in_device_converter != nullptr);
+        if (src_size == 0) return;
         cross_device_converter(dst_device.id(), dst_ptr, src_device.id(), src_ptr, std::min(dst_size, src_size));
         size_t copy_anchor = src_size;
         while (copy_anchor <= size_t(dst_size >> 1)) {
-- 
2.43.0


From 68f31053f10c4373d3fe49e28c56191a78f672df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 065/134] fix: disposed memory has no capacity

---
 src/core/hard_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..2615bda 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
-- 
2.43.0


From 393cde07661692d3b923a065490d78ff92de358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 066/134] fix: a failed resize does not keep freed memory

---
 src/core/hard_memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index 2615bda..60ed030 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -65,7 +65,8 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            this->dispose();
+            m_data = m_allocator(m_device.id(), size, nullptr, 0);
             m_capacity = size;
         }
     }
-- 
2.43.0


From 10c860f8219b8388744141e9e98cbc9ac16f13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 067/134] fix: move-assigned memory returns the block it had

---
 src/core/hard_memory.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index 60ed030..1e0cead 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -79,16 +79,12 @@ namespace ts {
     }
 
 	HardMemory::HardMemory(self &&other) TS_NOEXCEPT{
-        *this = std::move(other);
+        this->swap(other);
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-        MOVE_MEMBER(m_device);
-        MOVE_MEMBER(m_capacity);
-        MOVE_MEMBER(m_data);
-        MOVE_MEMBER(m_allocator);
-#undef MOVE_MEMBER
+        self moved(std::move(other));
+        this->swap(moved);
         return *this;
     }
 }
-- 
2.43.0


From 5b9f67b402467a28c324768836c48676d7db7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 068/134] fix: swapped and moved pools keep their allocator

---
 src/memory/orz/vat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..ccfbfc9 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -95,6 +95,8 @@ namespace ts {
     {
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        this->m_allocator.swap(that.m_allocator);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 87598f205c42085530059a5e2c3d461069e23597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 069/134] fix: a disposed pot is empty

---
 src/memory/orz/pot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memory/orz/pot.cpp b/src/memory/orz/pot.cpp
index a38f8b0..9ec4cca 100644
--- a/src/memory/orz/pot.cpp
+++ b/src/memory/orz/pot.cpp
@@ -55,6 +55,7 @@ namespace ts {
 
     void Pot::dispose() {
         m_capacity = 0;
+        m_size = 0;
         m_data.reset();
     }
 }
-- 
2.43.0


From 98886ac191ce7376c350d8de43a126732442d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 070/134] fix: moved and loaded bubbles have their own shape

---
 src/module/bubble.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..f61712b 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -41,6 +41,7 @@ namespace ts {
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
+        this->m_shape = std::move(other.m_shape);
         return *this;
     }
 
@@ -179,6 +180,7 @@ namespace ts {
 
     size_t Bubble::externalize(StreamReader &stream) {
         m_params.clear();
+        m_shape = Shape();
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-- 
2.43.0


From 73b65f3ff5d5c6413e03b8feb875e0218e5b73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:46 +0000
Subject: [PATCH 071/134] fix: a FileStream opens its file

---
 src/module/io/fstream.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1cc4fa8..1fbd5d9 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -91,11 +91,21 @@ namespace ts {
         return m_stream.bad() ? 0 : size;
     }
 
-    FileStream::FileStream(const std::string &path)
-            : m_stream(path, std::ios::binary) {}
+    FileStream::FileStream(const std::string &path) {
+        this->open(path);
+    }
 
     void FileStream::open(const std::string &path) {
-        m_stream.open(path, std::ios::binary);
+        m_stream.open(path, std::ios::binary | std::ios::in | std::ios::out);
+        if (!m_stream.is_open()) {
+            // the file does not exist, or can not be written
+            m_stream.clear();
+            m_stream.open(path, std::ios::binary | std::ios::in | std::ios::out | std::ios::trunc);
+        }
+        if (!m_stream.is_open()) {
+            m_stream.clear();
+            m_stream.open(path, std::ios::binary | std::ios::in);
+        }
     }
 
     void FileStream::close() {
-- 
2.43.0


From 3b60a02ce32bd5f76b4d3cebc24f6106349df958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 072/134] fix: a model file can be rewound from its end

---
 src/module/io/fstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1fbd5d9..549fcf9 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -38,6 +38,7 @@ namespace ts {
     }
 
     void FileStreamReaderV2::rewind() {
+        m_stream.clear();
         m_stream.seekg(0, std::ios::beg);
     }
 
-- 
2.43.0


From 6d96d84b3268c446d25aea334aa2b6e41601dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 073/134] fix: string streams work again after their end was
 reached

---
 src/module/io/sstream.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 177abbf..8903a9b 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -13,6 +13,7 @@ namespace ts {
     }
 
     void StringStreamReader::clear() {
+        m_stream.clear();
         m_stream.str("");
     }
 
@@ -25,6 +26,7 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStreamReader::str(const StringStreamReader::string &buffer) {
+        m_stream.clear();
         m_stream.str(buffer);
     }
 
@@ -33,6 +35,7 @@ namespace ts {
     }
 
     void StringStreamWriter::clear() {
+        m_stream.clear();
         m_stream.str("");
     }
 
@@ -45,7 +48,8 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStreamWriter::str(const StringStreamWriter::string &buffer) {
-        m_stream.str();
+        m_stream.clear();
+        m_stream.str(buffer);
     }
 
     StringStream::string StringStream::str() const {
@@ -53,12 +57,16 @@ namespace ts {
     }
 
     void StringStream::clear() {
+        m_stream.clear();
         m_stream.str("");
     }
 
     size_t StringStream::read(void *buffer, size_t size) {
         m_stream.read(reinterpret_cast<char *>(buffer), size);
-        return size_t(m_stream.gcount());
+        auto read_size = size_t(m_stream.gcount());
+        // reaching the end does not stop later writes and reads
+        if (m_stream.eof()) m_stream.clear();
+        return read_size;
     }
 
     size_t StringStream::write(const void *buffer, size_t size) {
@@ -70,6 +78,7 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStream::str(const StringStream::string &buffer) {
+        m_stream.clear();
         m_stream.str(buffer);
     }
 }
-- 
2.43.0


From 03942ec66cda92344ae3880aeb106b897250d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 074/134] fix: saving to a stream that takes no more data is an
 error

---
 include/module/io/stream.h  | 13 ++++++++++---
 src/core/tensor_builder.cpp |  4 +++-
 src/module/io/fstream.cpp   |  4 ++--
 src/module/io/sstream.cpp   |  4 ++--
 src/module/module.cpp       |  4 +++-
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..623c338 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,6 +41,12 @@ namespace ts {
     };
 
     namespace binio {
+        inline size_t write_bytes(StreamWriter &stream, const void *buffer, size_t size) {
+            auto write_size = stream.write(buffer, size);
+            if (write_size != size) throw Exception("Can not write all data to stream.");
+            return write_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
             return stream.read(&buffer, sizeof(T));
@@ -57,17 +64,17 @@ namespace ts {
 
         template<typename T>
         size_t write(StreamWriter &stream, const T &buffer) {
-            return stream.write(&buffer, sizeof(T));
+            return write_bytes(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t write(StreamWriter &stream, const T *buffer, size_t size) {
-            return stream.write(buffer, sizeof(T) * size);
+            return write_bytes(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t write(StreamWriter &stream, const T (&buffer)[_Size]) {
-            return stream.write(buffer, sizeof(T) * _Size);
+            return write_bytes(stream, buffer, sizeof(T) * _Size);
         }
     }
 }
diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index 35b7e96..e8e1302 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -328,7 +328,9 @@ namespace ts {
         void save(const std::string &filename, const Tensor &tensor) {
             FileStreamWriter stream(filename);
             if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
-            return save(stream, tensor);
+            save(stream, tensor);
+            stream.close();
+            if (stream.stream().fail()) TS_LOG_ERROR << "Can not write " << filename << eject;
         }
     }
 
diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 549fcf9..1fe842a 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -62,7 +62,7 @@ namespace ts {
 
     size_t FileStreamWriter::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     FileStreamWriter::FileStreamWriter(const std::string &path)
@@ -89,7 +89,7 @@ namespace ts {
 
     size_t FileStream::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     FileStream::FileStream(const std::string &path) {
diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 8903a9b..354f74a 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -41,7 +41,7 @@ namespace ts {
 
     size_t StringStreamWriter::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     StringStreamWriter::StringStreamWriter(const StringStreamWriter::string &buffer)
@@ -71,7 +71,7 @@ namespace ts {
 
     size_t StringStream::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     StringStream::StringStream(const StringStream::string &buffer)
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..edbfd31 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -278,7 +278,9 @@ namespace ts {
         FileStreamWriter stream(filename);
 
         TS_CHECK(stream.is_open()) << "Can not access: " << filename << eject;
-        Save(stream, module, format);  
+        Save(stream, module, format);
+        stream.close();
+        TS_CHECK(!stream.stream().fail()) << "Can not write: " << filename << eject;
     }
 
     size_t read_uint32_list(StreamReader &stream, std::vector<uint32_t> &list) {
-- 
2.43.0


From decb460468197b5a7bd9b2f7040b9df4b9bab292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 075/134] fix: reading past the end of a stream is an error

---
 include/module/io/stream.h | 12 +++++++++---
 src/module/header.cpp      |  7 ++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 623c338..f757c2b 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -47,19 +47,25 @@ namespace ts {
             return write_size;
         }
 
+        inline size_t read_bytes(StreamReader &stream, void *buffer, size_t size) {
+            auto read_size = stream.read(buffer, size);
+            if (read_size != size) throw Exception("Can not read enough data from stream.");
+            return read_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_bytes(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_bytes(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_bytes(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
diff --git a/src/module/header.cpp b/src/module/header.cpp
index 1b84805..7c4082a 100644
--- a/src/module/header.cpp
+++ b/src/module/header.cpp
@@ -17,9 +17,10 @@ namespace ts {
 
     size_t Header::externalize(StreamReader &stream) {
         size_t read_size = 0;
-        read_size += binio::read<uint32_t>(stream, fake);
-        read_size += binio::read<uint32_t>(stream, code);
-        read_size += binio::read<char>(stream, data.data(), data.size());
+        // a short header is not an error here, its code may tell another format
+        read_size += stream.read(&fake, sizeof(fake));
+        read_size += stream.read(&code, sizeof(code));
+        read_size += stream.read(data.data(), data.size());
         return read_size;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 99d9348e45ad6ff46fef1759039f01a74f973cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 076/134] fix: counts in a model file are not allocated before
 their contents are read

---
 src/core/tensor.cpp   |  6 ++++--
 src/module/bubble.cpp | 13 ++++++++++---
 src/module/menu.cpp   |  6 ++++--
 src/module/module.cpp |  7 +++++--
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 14158c2..b14f4d8 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -383,11 +383,13 @@ namespace ts {
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        std::vector<Tensor> fields(size_buffer);
-        for (auto &tensor : fields) {
+        std::vector<Tensor> fields;
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            Tensor tensor;
             Memory cpu_memory;
             read_size += externalize_prototype_memory(stream, tensor.m_proto, cpu_memory);
             tensor.m_memory = SyncMemory(cpu_memory);
+            fields.emplace_back(std::move(tensor));
         }
         this->pack(fields);
         return read_size;
diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index f61712b..45eafa4 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -2,6 +2,7 @@
 // Created by kier on 2019/1/23.
 //
 
+#include <algorithm>
 #include "module/bubble.h"
 
 #include <unordered_map>
@@ -161,9 +162,15 @@ namespace ts {
         // 1.1 read name length
         read_size += binio::read<uint32_t>(stream, size_buffer);
         // 1.2 read name
-        std::vector<char> string_buffer(size_buffer);
-        read_size += binio::read<char>(stream, string_buffer.data(), size_buffer);
-        name = std::string(string_buffer.begin(), string_buffer.end());
+        // the length is not trusted, the name grows as it is read
+        name.clear();
+        while (size_buffer > 0) {
+            char string_buffer[1024];
+            auto part = std::min<uint32_t>(size_buffer, sizeof(string_buffer));
+            read_size += binio::read<char>(stream, string_buffer, part);
+            name.append(string_buffer, part);
+            size_buffer -= part;
+        }
         // 2. read param's value
         read_size += value.externalize(stream);
         return read_size;
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 4519f22..90db8c8 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -135,9 +135,11 @@ namespace ts {
             read_size += bubble.externalize(stream);
             // .2 read index
             read_size += binio::read<uint32_t>(stream, size_buffer);
-            std::vector<uint32_t> node_input_index(size_buffer);
-            for (auto &input_index : node_input_index) {
+            std::vector<uint32_t> node_input_index;
+            for (uint32_t j = 0; j < size_buffer; ++j) {
+                uint32_t input_index = 0;
                 read_size += binio::read<uint32_t>(stream, input_index);
+                node_input_index.push_back(input_index);
             }
             nodes.emplace_back(std::make_pair(g.make(bubble), node_input_index));
         }
diff --git a/src/module/module.cpp b/src/module/module.cpp
index edbfd31..6afddbb 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -287,9 +287,12 @@ namespace ts {
         uint32_t size_buffer = 0;
         size_t read_size = 0;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        list.resize(size_buffer);
-        for (auto &elem : list) {
+        // the size is not trusted, the list grows as it is read
+        list.clear();
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            uint32_t elem = 0;
             read_size += binio::read<uint32_t>(stream, elem);
+            list.push_back(elem);
         }
         return read_size;
     }
-- 
2.43.0


From 159f1b69bbfc4f6ddf15f8cb9d2aa6ab313e2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:32 +0000
Subject: [PATCH 077/134] fix: type codes and sizes read from a stream are
 checked

---
 src/core/tensor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index b14f4d8..b89489c 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -2,6 +2,7 @@
 // Created by kier on 2018/5/25.
 //
 
+#include <limits>
 #include <core/tensor.h>
 
 #include <utility>
@@ -351,14 +352,25 @@ namespace ts {
         uint8_t dtype_buffer;
         read_size += binio::read<uint8_t >(stream, dtype_buffer);
         dtype = DTYPE(dtype_buffer);
-        TS_AUTO_CHECK(dtype >= 0);
+        TS_AUTO_CHECK(dtype >= 0 && dtype <= SINK8Q7);
         // 1.2 read sizes
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
+        TS_AUTO_CHECK(size_buffer <= 7);    // the most sizes a shape can hold
         shape.resize(size_buffer);
+        bool empty = false;
         for (size_t i = 0; i < shape.size(); ++i) {
             read_size += binio::read<uint32_t>(stream, size_buffer);
-            shape[i] = size_buffer;
+            TS_AUTO_CHECK(size_buffer <= uint32_t(std::numeric_limits<int32_t>::max()));
+            shape[i] = int32_t(size_buffer);
+            if (shape[i] == 0) empty = true;
+        }
+        int64_t count = 1;
+        for (auto dim : shape) {
+            if (dim == 0) continue;
+            count *= dim;
+            TS_AUTO_CHECK(empty || count <= std::numeric_limits<int32_t>::max());
+            if (empty) count = 1;
         }
         // 1.x set proto
         proto = Tensor::Prototype(dtype, shape);
-- 
2.43.0


From 78227fa72964730e562bef887cbc8e576c4a46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 078/134] fix: node indices read from a model file are checked

---
 src/module/loaders/open.cpp | 10 ++++++++--
 src/module/menu.cpp         | 35 +++++++++++++++++++++++++++++++++++
 src/module/module.cpp       | 15 +++++++++++++--
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..4e16ad2 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -30,9 +30,15 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
     const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
     // x.1 convert inputs and outputs
     std::vector<Node> inputs;
-    for (auto index : input_index) inputs.emplace_back(nodes[index]);
+    for (auto index : input_index) {
+        TS_CHECK(index < nodes.size()) << "Module has no such input node: " << index << eject;
+        inputs.emplace_back(nodes[index]);
+    }
     std::vector<Node> outputs;
-    for (auto index : output_index) outputs.emplace_back(nodes[index]);
+    for (auto index : output_index) {
+        TS_CHECK(index < nodes.size()) << "Module has no such output node: " << index << eject;
+        outputs.emplace_back(nodes[index]);
+    }
     Module::shared module = std::make_shared<Module>();
     module->load(g, outputs);
     module->sort_inputs(inputs);
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 90db8c8..719f605 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -119,6 +119,33 @@ namespace ts {
         return writen_size;
     }
 
+    // no node may need its own value, walks depth first
+    static void check_acyclic(const std::vector<std::pair<Node, std::vector<uint32_t>>> &nodes) {
+        enum { UNSEEN, OPEN, DONE };
+        std::vector<int> state(nodes.size(), UNSEEN);
+        std::vector<std::pair<size_t, size_t>> walker; // (node, next input)
+        for (size_t root = 0; root < nodes.size(); ++root) {
+            if (state[root] != UNSEEN) continue;
+            state[root] = OPEN;
+            walker.emplace_back(root, 0);
+            while (!walker.empty()) {
+                auto index = walker.back().first;
+                auto &inputs = nodes[index].second;
+                if (walker.back().second == inputs.size()) {
+                    state[index] = DONE;
+                    walker.pop_back();
+                    continue;
+                }
+                auto input = inputs[walker.back().second++];
+                TS_CHECK(state[input] != OPEN) << "Node " << nodes[input].first << " depends on itself" << eject;
+                if (state[input] == UNSEEN) {
+                    state[input] = OPEN;
+                    walker.emplace_back(input, 0);
+                }
+            }
+        }
+    }
+
     size_t externalize_nodes(StreamReader &stream) {
         auto &g = ctx::ref<Graph>();
 
@@ -144,6 +171,14 @@ namespace ts {
             nodes.emplace_back(std::make_pair(g.make(bubble), node_input_index));
         }
         // 2. link nodes
+        for (auto &node : nodes) {
+            for (auto index : node.second) {
+                TS_CHECK(index < nodes.size()) << "Node " << node.first << " has no such input: " << index << eject;
+            }
+        }
+
+        check_acyclic(nodes);
+
         for (auto &node : nodes) {
             std::vector<Node> inputs;
             for (auto index : node.second) {
diff --git a/src/module/module.cpp b/src/module/module.cpp
index 6afddbb..bb23468 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -139,6 +139,11 @@ namespace ts {
     }
 
     void Module::sort_inputs(const std::vector<Node> &inputs) {
+        for (auto &input : inputs) {
+            if (input->op() != Bubble::Parameter) {
+                TS_LOG_ERROR << "The sorted inputs must be parameters, got " << input.str() << eject;
+            }
+        }
         std::unordered_set<Node> sorted_input_set(inputs.begin(), inputs.end());
         for (auto &had_input : m_inputs) {
             if (sorted_input_set.find(had_input) == sorted_input_set.end()) {
@@ -321,9 +326,15 @@ namespace ts {
         const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
         // x.1 convert inputs and outputs
         std::vector<Node> inputs;
-        for (auto index : input_index) inputs.emplace_back(nodes[index]);
+        for (auto index : input_index) {
+            TS_CHECK(index < nodes.size()) << "Module has no such input node: " << index << eject;
+            inputs.emplace_back(nodes[index]);
+        }
         std::vector<Node> outputs;
-        for (auto index : output_index) outputs.emplace_back(nodes[index]);
+        for (auto index : output_index) {
+            TS_CHECK(index < nodes.size()) << "Module has no such output node: " << index << eject;
+            outputs.emplace_back(nodes[index]);
+        }
         Module::shared module = std::make_shared<Module>();
         module->load(g, outputs);
         module->sort_inputs(inputs);
-- 
2.43.0


From 18262235fe34768d4fdd7d0e79f9b878463c803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 079/134] fix: no standard exception leaves the C interface

---
 src/api/declaration.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..ed361b1 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -35,13 +35,13 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &) { \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From 3d940986485f43705fed4852411ce157b7d6d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:55 +0000
Subject: [PATCH 080/134] fix: a refused link changes nothing

---
 include/module/graph.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index 7b30ce2..dcb2154 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -39,6 +39,13 @@ namespace ts {
         static void Link(const weak &node, const std::vector<weak> &inputs) {
             auto output = node.lock();
             if (!output) throw NullPointerException("Link expired node");
+            // look at all inputs before changing anything, they may be the ones of this node
+            std::vector<shared> locked_inputs;
+            locked_inputs.reserve(inputs.size());
+            for (auto &input : inputs) {
+                locked_inputs.emplace_back(input.lock());
+                if (!locked_inputs.back()) throw NullPointerException("Link expired node");
+            }
             // first unlink pre-linked inputs
             for (auto &bottom : output->m_inputs) {
                 auto tmp = bottom.lock();
@@ -55,10 +62,9 @@ namespace ts {
             }
             output->m_inputs.clear();
             // link new nodes
-            output->m_inputs.resize(inputs.size());
-            for (size_t i = 0; i < inputs.size(); ++i) {
-                auto input = inputs[i].lock();
-                if (!input) throw NullPointerException("Link expired node");
+            output->m_inputs.resize(locked_inputs.size());
+            for (size_t i = 0; i < locked_inputs.size(); ++i) {
+                auto &input = locked_inputs[i];
                 input->m_outputs.push_back(output);
                 output->m_inputs[i] = input;
             }
-- 
2.43.0


From f1e4d3d482be1d4ac6e1f72abb041713b849e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 081/134] fix: replacing a node by itself keeps its consumers

---
 include/module/graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/module/graph.h b/include/module/graph.h
index dcb2154..5d2f1a6 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -75,6 +75,7 @@ namespace ts {
             if (!old_ptr) throw NullPointerException("Link expired node");
             auto new_ptr = new_node.lock();
             if (!new_ptr) throw NullPointerException("Link expired node");
+            if (new_ptr == old_ptr) return;
             for (auto &output : old_ptr->outputs()) {
                 auto output_ptr = output.lock();
                 if (!output_ptr) continue;
-- 
2.43.0


From d26719e438587e8b670c769fc0251f7451d529f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:59 +0000
Subject: [PATCH 082/134] fix: released consumers are no outputs

---
 include/module/graph.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index 5d2f1a6..d50a4a2 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -152,7 +152,10 @@ namespace ts {
             auto raw_vector = ptr->outputs();
             std::vector<Node> out_vector;
             out_vector.reserve(raw_vector.size());
-            for (auto &node : raw_vector) out_vector.emplace_back(Node(node));
+            for (auto &node : raw_vector) {
+                if (node.expired()) continue;   // released consumers need nothing
+                out_vector.emplace_back(Node(node));
+            }
             return std::move(out_vector);
         }
 
-- 
2.43.0


From 75337fd8fef007a3ac76c90a2600c7d97d24ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 083/134] fix: plotting visits each node once

---
 src/module/graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/module/graph.cpp b/src/module/graph.cpp
index 614ed1d..f299db6 100644
--- a/src/module/graph.cpp
+++ b/src/module/graph.cpp
@@ -36,9 +36,10 @@ namespace ts {
     }
 
     static inline void plot_graph(std::ostream &stream, const std::vector<Node> &nodes,
-                                  std::unordered_set<Node> &plot) {
+                                  std::unordered_set<Node> &plot, std::unordered_set<Node> &walked) {
         for (auto &node : nodes) {
-            plot_graph(stream, node.inputs(), plot);
+            if (!walked.insert(node).second) continue;
+            plot_graph(stream, node.inputs(), plot, walked);
         }
         for (auto &node : nodes) {
             plot_node(stream, node, plot);
@@ -47,7 +48,8 @@ namespace ts {
 
     std::ostream &plot_graph(std::ostream &stream, const std::vector<Node> &nodes) {
         std::unordered_set<Node> plot;
-        plot_graph(stream, nodes, plot);
+        std::unordered_set<Node> walked;
+        plot_graph(stream, nodes, plot, walked);
         return stream;
     }
 }
-- 
2.43.0


From d80082be816253498ef127e51b15aed2a30d96b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 084/134] fix: cyclic graphs are refused

---
 src/module/module.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index bb23468..db1b742 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -124,12 +124,10 @@ namespace ts {
                 walker.push(input);
             }
         }
-        // remove duplicate inputs
-        std::unordered_set<Node> input_nodes_set;
-        for (auto &input : inputs) input_nodes_set.insert(input);
+        list_reference_nodes(outputs);  // refuses cyclic graph
 
-        // return non-duplicate nodes
-        return std::vector<Node>(input_nodes_set.begin(), input_nodes_set.end());
+        // each node was walked once, so there are no duplicate inputs
+        return inputs;
     }
 
     void Module::clear() {
@@ -225,6 +223,10 @@ namespace ts {
                 } else {
                     auto this_input_depth = depth + 1;
                     if (input_depth_pair->second < this_input_depth) {
+                        // all nodes of a path are known, a longer path runs in circles
+                        if (size_t(this_input_depth) > map_node_depth.size()) {
+                            TS_LOG_ERROR << "Found node depending on itself: " << input.str() << eject;
+                        }
                         input_depth_pair->second = this_input_depth;
                         node_walker.push_back(input);   // re-walk nodes
                     }
-- 
2.43.0


From aa03a6536f10ff16a264c78c532bb8c84ee4fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 085/134] fix: a route keeps its input slot

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From b914f611d881c631b00ce050ee0befc2bafdcca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:35 +0000
Subject: [PATCH 086/134] fix: fusion does not depend on the order of routes

---
 src/module/module.cpp | 123 ++++++++++++++++++++----------------------
 1 file changed, 58 insertions(+), 65 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index db1b742..ca0e5e8 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -4,6 +4,8 @@
 
 #include <unordered_set>
 #include <unordered_map>
+#include <map>
+#include <set>
 #include <queue>
 #include <utility>
 #include <climits>
@@ -407,50 +409,53 @@ namespace ts {
         return translator.translate(module);
     }
 
-    static Node clone_node(const Node &node, std::unordered_map<Node, Node> &cloned_nodes) {
-        auto it = cloned_nodes.find(node);
-        if (it != cloned_nodes.end()) return it->second;
-        auto &g = ctx::of<Graph>::ref();
-        auto dolly = g.make(node.bubble());
-        cloned_nodes.insert(std::make_pair(node, dolly));
-        cloned_nodes.insert(std::make_pair(dolly, dolly));
-        return dolly;
-    }
+    /**
+     * Clones the nodes of the modules to be fused, into the graph in context.
+     * Nodes are told by module, as the same module may take part more than once.
+     */
+    class FusionCloner {
+    public:
+        using Place = std::pair<int, Node>;  ///< (index of module, node)
 
-    static std::vector<Node> clone_graph(const std::vector<Node> &nodes, std::unordered_map<Node, Node> &cloned_nodes, std::unordered_map<Node, Node> &linked_nodes) {
-        std::vector<Node> dolly_nodes;
-        for (auto &node : nodes) {
-            {
-                auto it = linked_nodes.find(node);
-                if (it != linked_nodes.end()) {
-                    dolly_nodes.emplace_back(it->second);
-                    continue;
+        void route(const Place &in, const Place &out) { m_routes.insert(std::make_pair(in, out)); }
+
+        bool routed(const Place &in) const { return m_routes.find(in) != m_routes.end(); }
+
+        Node clone(const Place &place) {
+            auto it = m_cloned.find(place);
+            if (it != m_cloned.end()) return it->second;
+            if (!m_open.insert(place).second) {
+                TS_LOG_ERROR << "Routes make node depend on itself: " << place.second.str() << eject;
+            }
+            std::vector<Node> inputs;
+            auto route = m_routes.find(place);
+            if (route != m_routes.end()) {
+                inputs.emplace_back(clone(route->second));
+            } else {
+                for (auto &input : place.second.inputs()) {
+                    inputs.emplace_back(clone(Place(place.first, input)));
                 }
             }
-
-            auto dolly_inputs = clone_graph(node.inputs(), cloned_nodes, linked_nodes);
-            auto dolly_node = clone_node(node, cloned_nodes);
-            Node::Link(dolly_node, dolly_inputs);
-            dolly_nodes.emplace_back(dolly_node);
-            linked_nodes.insert(std::make_pair(node, dolly_node));
-            linked_nodes.insert(std::make_pair(dolly_node, dolly_node));
+            auto &g = ctx::of<Graph>::ref();
+            auto dolly = route != m_routes.end()
+                         ? g.make(name::layer::copy(), place.second->name())
+                         : g.make(place.second.bubble());
+            Node::Link(dolly, inputs);
+            m_open.erase(place);
+            m_cloned.insert(std::make_pair(place, dolly));
+            return dolly;
         }
-        return dolly_nodes;
-    }
-
-    // static std::vector<Node> clone_graph(const std::vector<Node> &nodes, std::unordered_map<Node, Node> &cloned_nodes) {
-    //     std::unordered_map<Node, Node> linked_nodes;
-    //     return clone_graph(nodes, cloned_nodes, linked_nodes);
-    // }
 
+    private:
+        std::map<Place, Place> m_routes;
+        std::map<Place, Node> m_cloned;
+        std::set<Place> m_open;
+    };
 
     Module::shared
     Module::Fusion(const std::vector<shared> &submodules, const std::vector<Route> &routes) {
-        std::unordered_set<Node> set_linked_ins;
-        std::unordered_set<Node> set_linked_outs;
-
-        std::unordered_map<Node, Node> cloned_nodes;
-        std::unordered_map<Node, Node> linked_nodes;
+        FusionCloner cloner;
+        std::set<FusionCloner::Place> set_linked_outs;
 
         Graph g;
         ctx::bind<Graph> _bind(g);
@@ -458,8 +463,8 @@ namespace ts {
         for (auto &route : routes) {
             if (route.in < 0 || route.in >= int(submodules.size()) ||
                 route.out < 0 || route.out >= int(submodules.size()) ||
-                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() > 1) ||
-                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() > 1) ||
+                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() != 1) ||
+                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() != 1) ||
                 route.in_out_slot >= int(submodules[route.in]->outputs().size()) ||
                 route.out_in_slot >= int(submodules[route.out]->inputs().size())) {
                 TS_LOG_ERROR << "Got invalid route: [" << route.in << ", "
@@ -477,39 +482,27 @@ namespace ts {
             auto node_in = submodules[route_out]->input(route_out_in_slot);
             auto node_out = submodules[route_in]->output(route_in_out_slot);
 
-            set_linked_ins.insert(node_in);
-            set_linked_outs.insert(node_out);
-
-            auto copy_out_in = bubble::op(node_in->name(), name::layer::copy(),
-                    clone_graph({node_out}, cloned_nodes, linked_nodes));
-
-            cloned_nodes.insert(std::make_pair(node_in, copy_out_in));
-            cloned_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
-            linked_nodes.insert(std::make_pair(node_in, copy_out_in));
-            linked_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
+            set_linked_outs.insert(FusionCloner::Place(route_in, node_out));
+            cloner.route(FusionCloner::Place(route_out, node_in), FusionCloner::Place(route_in, node_out));
         }
 
-        std::vector<Node> inputs;
-        std::vector<Node> outputs;
-
-        for (auto &submodule : submodules) {
-            for (auto &input : submodule->inputs()) {
-                if (set_linked_ins.find(input) != set_linked_ins.end()) continue;
-                inputs.emplace_back(input);
+        std::vector<Node> cloned_inputs;
+        std::vector<Node> cloned_outputs;
+
+        for (int i = 0; i < int(submodules.size()); ++i) {
+            for (auto &input : submodules[i]->inputs()) {
+                FusionCloner::Place place(i, input);
+                auto cloned_input = cloner.clone(place);
+                if (cloner.routed(place)) continue;
+                cloned_inputs.emplace_back(cloned_input);
             }
-            for (auto &output : submodule->outputs()) {
-                if (set_linked_outs.find(output) != set_linked_outs.end()) continue;
-                outputs.emplace_back(output);
+            for (auto &output : submodules[i]->outputs()) {
+                FusionCloner::Place place(i, output);
+                if (set_linked_outs.find(place) != set_linked_outs.end()) continue;
+                cloned_outputs.emplace_back(cloner.clone(place));
             }
         }
 
-        auto cloned_outputs = clone_graph(outputs, cloned_nodes, linked_nodes);
-
-        std::vector<Node> cloned_inputs;
-        for (auto &input : inputs) {
-            cloned_inputs.emplace_back(cloned_nodes.at(input));
-        }
-
         auto fusion_module = std::make_shared<Module>();
         fusion_module->load(g, cloned_outputs);
         fusion_module->sort_inputs(cloned_inputs);
-- 
2.43.0


From 1d0142fc274bcdbc8c4c1955a9bdb2724833a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 087/134] fix: padding of an encrypted file is checked

---
 src/encryption/aes_fstream.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..fcf3572 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,18 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                // the file ends in 1 to AES_BLOCKLEN bytes telling their number
+                uint8_t npadding = m_master[AES_BLOCKLEN - 1];
+                bool padded = npadding >= 1 && npadding <= AES_BLOCKLEN;
+                for(int i = AES_BLOCKLEN - npadding; padded && i < AES_BLOCKLEN; ++i) {
+                    padded = m_master[i] == npadding;
+                }
+                if(!padded) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= int(npadding);
             } 
 
             
-- 
2.43.0


From 1ff31a22e724e616c5a485d227292a3fddf659d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 088/134] fix: an empty file is not an encrypted file

---
 src/encryption/aes_fstream.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index fcf3572..046b52c 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -44,12 +44,9 @@ namespace ts {
                 m_stream.read(reinterpret_cast<char *>(m_second), AES_BLOCKLEN);
                 m_second_datalen = int(m_stream.gcount());
                 if(m_second_datalen == 0 ) {
-                    if(m_stream.eof()) {
-                        break;
-                    }else {
-                        TS_LOG_ERROR << "mode file read format is error!" << eject;
-                        return 0;
-                    }
+                    // even no bytes are written as one block
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
                 }else {
                     if(m_second_datalen != AES_BLOCKLEN) {
                         TS_LOG_ERROR << "mode file read format is error!" << eject;
-- 
2.43.0


From ef731ad5c11736826ce6d17e5b50468f776cce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:49 +0000
Subject: [PATCH 089/134] fix: failed writes of an encrypted file are reported

---
 src/encryption/aes_fstream.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index 046b52c..c20c6fc 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -142,6 +142,9 @@ namespace ts {
     }
 
     size_t AESFileStreamWriter::write(const void *buffer, size_t size) {
+        if(!m_stream.is_open() || m_stream.fail()) {
+            return 0;
+        }
 
         size_t nwrite = 0;
         while(nwrite < size ) {
@@ -156,7 +159,7 @@ namespace ts {
                 m_stream.write(reinterpret_cast<const char *>(m_master), AES_BLOCKLEN);
                 nwrite += AES_BLOCKLEN - m_master_datalen; 
                 m_master_datalen = 0;
-                if(m_stream.bad()) {
+                if(m_stream.fail()) {
                     return 0;
                 }
             }
@@ -176,7 +179,11 @@ namespace ts {
     }
 
     AESFileStreamWriter::~AESFileStreamWriter() {
-         close();
+         try {
+             close();
+         } catch (const Exception &) {
+             // logged in close, a destructor must not throw
+         }
     }
 
     void AESFileStreamWriter::close() {
@@ -188,10 +195,6 @@ namespace ts {
             AES_ECB_encrypt(&m_ctx, m_master);  
             m_stream.write(reinterpret_cast<const char *>(m_master), AES_BLOCKLEN);
             m_master_datalen = 0;
-            if(m_stream.bad()) {
-                TS_LOG_ERROR << "write mode file failed!" << eject;
-                return;
-            }
         } 
         uint8_t npadding = (uint8_t)(AES_BLOCKLEN - m_master_datalen);
         uint8_t buf[AES_BLOCKLEN];
@@ -202,6 +205,9 @@ namespace ts {
         m_stream.write(reinterpret_cast<const char *>(buf), AES_BLOCKLEN);
         m_master_datalen = 0;
         m_stream.close();
+        if(m_stream.fail()) {
+            TS_LOG_ERROR << "write mode file failed!" << eject;
+        }
     }
 
 }
-- 
2.43.0


From 1012adfeca2d6cd5e033d1a070572bbafab275ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:08 +0000
Subject: [PATCH 090/134] fix: chained and counted modes use the completed key

---
 src/encryption/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encryption/aes.cpp b/src/encryption/aes.cpp
index b6f8ee9..545f67d 100644
--- a/src/encryption/aes.cpp
+++ b/src/encryption/aes.cpp
@@ -264,7 +264,7 @@ void AES_init_ctx_iv(struct AES_ctx* ctx, const uint8_t* key, uint32_t key_lengt
       }
   }
 
-  KeyExpansion(ctx->RoundKey, key);
+  KeyExpansion(ctx->RoundKey, default_key);
   memcpy (ctx->Iv, default_iv, AES_BLOCKLEN);
 }
 
-- 
2.43.0


From 419ee5f426b3d62cacc273a2b904b0515c37c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:22 +0000
Subject: [PATCH 091/134] fix: failures of functions without a result leave a
 message

---
 src/api/declaration.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index ed361b1..cd1eb8b 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -41,7 +41,8 @@ return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const std::exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetLEM(e.what()); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From aee7ec20f243dc0310c94318e2cd814d33c51c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 092/134] fix: loading a tensor from a missing file fails

---
 src/api/tensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..0787d19 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -7,6 +7,7 @@
 #include "declare_tensor.h"
 
 #include "core/tensor_builder.h"
+#include "module/io/fstream.h"
 
 using namespace ts;
 
@@ -204,8 +205,10 @@ ts_bool ts_Tensor_save(const char *path, const ts_Tensor *tensor) {
 ts_Tensor *ts_Tensor_load(const char *path) {
     TRY_HEAD
         if (!path) throw Exception("NullPointerException: @param: 1");
+        FileStreamReader stream(path);
+        if (!stream.is_open()) throw Exception("Can not access: " + std::string(path));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor(
-                tensor::load(path)
+                tensor::load(stream)
         ));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From 29f92c265007d6074ead0a561dd26db25583b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 093/134] fix: reshape to a null shape is refused

---
 src/api/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 0787d19..9a76eed 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -114,6 +114,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (!shape && shape_len != 0) throw Exception("NullPointerException: @param: 2");
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From 09b00bbcd4cedc2898b77c9581bed479b562331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 094/134] fix: looking up a parameter checks its arguments

---
 src/api/operator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..ff2dadf 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -160,6 +160,8 @@ void ts_Operator_Register(const char *device, const char *op,
 
 ts_Tensor *ts_OperatorParams_get(const ts_OperatorParams *dict, const char *param) {
     TRY_HEAD
+    if (!dict) throw Exception("NullPointerException: @param: 1");
+    if (!param) throw Exception("NullPointerException: @param: 2");
     std::string cpp_param(param);
     if (dict->op->has(cpp_param)) {
         std::unique_ptr<ts_Tensor> value(new ts_Tensor(dict->op->get(cpp_param)));
-- 
2.43.0


From 3583a2f9a9921898878403128ab6b60c1e754ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 095/134] fix: plugin functions check their arguments

---
 src/api/plugin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/plugin.cpp b/src/api/plugin.cpp
index a87925c..6d39096 100644
--- a/src/api/plugin.cpp
+++ b/src/api/plugin.cpp
@@ -36,19 +36,20 @@ ts_op_creator_map* ts_plugin_get_creator_map(){
 
 void ts_plugin_flush_creator(ts_op_creator_map* creator_map){
     TRY_HEAD
+    if (!creator_map) throw Exception("NullPointerException: @param: 1");
     OperatorCreator::flush(creator_map->map);
     TRY_TAIL
 }
 
 void ts_plugin_free_creator_map(ts_op_creator_map* creator_map){
     TRY_HEAD
-    creator_map->map.clear();
     delete(creator_map);
     TRY_TAIL
 }
 
 ts_device_context* ts_plugin_initial_device_context(const ts_Device *device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     std::shared_ptr<DeviceContext> device_context = std::make_shared<DeviceContext>();
     device_context->initialize(ComputingDevice(device->type, device->id));
     DeviceContext::Switch(device_context.get());
@@ -64,6 +65,7 @@ void ts_plugin_free_device_context(ts_device_context* device){
 
 void ts_plugin_bind_device_context(ts_device_context* device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     DeviceContext::Switch(device->pointer.get());
     TRY_TAIL
 }
-- 
2.43.0


From 148de3ace213a7b436203f10b7ee7c515b797ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 096/134] fix: a null message is no message

---
 src/api/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
-- 
2.43.0


From 5a9d14f2048efa14d2e7714853f085642f9fdc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 097/134] fix: a workbench that is gone is not bound any more

---
 src/runtime/workbench.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index e954454..033cb72 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -134,6 +134,7 @@ namespace ts {
     }
 
     Workbench::~Workbench() {
+        if (ctx::of<Workbench>::get() == this) ctx::of<Workbench>::set(nullptr);
         this->m_desktop.reset();
         this->m_stack->clear();
         this->m_inputs.clear();
-- 
2.43.0


From 35238655edb7da152a73fb77961bcbf7a7a7a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 098/134] fix: reshape to a shape whose size overflows is
 refused

---
 src/core/tensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index b89489c..5b5589c 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -11,6 +11,7 @@
 #include "core/tensor.h"
 #include "utils/assert.h"
 
+#include <algorithm>
 #include <numeric>
 #include <mutex>
 
@@ -235,7 +236,9 @@ namespace ts {
         }
 
         Prototype proto(this->dtype(), fixed_shape);
-        if (proto.count() != this->count()) {
+        int64_t count = 1;
+        for (auto size : fixed_shape) count = std::min<int64_t>(count * size, int64_t(1) << 31);
+        if (count != this->count()) {
             TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
         }
         Tensor t = *this;
-- 
2.43.0


From 41b38538f62fb4239ac78f4cbb5376742dbeaec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 099/134] fix: softmax of an empty tensor is empty

---
 src/backend/base/base_softmax.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_softmax.cpp b/src/backend/base/base_softmax.cpp
index 54c3a4d..267cdb9 100644
--- a/src/backend/base/base_softmax.cpp
+++ b/src/backend/base/base_softmax.cpp
@@ -65,6 +65,8 @@ namespace ts {
             int output_dims = int(x.dims());
             int fixed_dim = m_dim >= 0 ? m_dim : output_dims + m_dim;
 
+            if (out.count() == 0) return 1;
+
             softmax(x, fixed_dim, m_smooth, out);
 
             return 1;
-- 
2.43.0


From 8ab384d6acd4ec20aa26e5107ee3b5c3f790d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:05 +0000
Subject: [PATCH 100/134] fix: resampling an image without pixels is refused

---
 src/backend/base/base_affine_sample2d.cpp | 2 ++
 src/backend/base/base_resize2d.cpp        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 1cab63c..6f7b0a1 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -59,6 +59,8 @@ namespace ts {
 
             TS_AUTO_CHECK((dim >= 0) && (dim + 1  < input_shape.size()));
 
+            TS_AUTO_CHECK((input_shape[dim] > 0) && (input_shape[dim + 1] > 0));
+
             auto size_tensor = tensor::cast(INT32, stack[1]);
 
             TS_AUTO_CHECK(size_tensor.count() == 2);
diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..1730076 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -78,6 +78,7 @@ namespace ts {
                 TS_LOG_ERROR << "Can not resize " << to_string(x.sizes())
                              << " to " << to_string(Shape(size_data, size_data + n)) << eject;
             }
+            TS_AUTO_CHECK(shape[resized_height_dim] > 0 && shape[resized_height_dim + 1] > 0);
             dim = resized_height_dim;
 
             Shape resized_shape = x.sizes();
-- 
2.43.0


From 6496f70ed56e9a27e10f222a9d0aae4d66272e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:15 +0000
Subject: [PATCH 101/134] fix: the prediction of a user operator is read as
 documented

---
 src/api/operator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index ff2dadf..7981934 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -103,14 +103,16 @@ public:
             class _ : public std::exception {};
             try {
                 if (size <= 0) throw _();
-                packed_proto.resize(size);
+                auto fields = data[0];
+                if (fields <= 0 || fields > (size - 1) / 2) throw _();
+                packed_proto.resize(fields);
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From a26cad4d71706de28643d6cf6657325a242b57a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:57 +0000
Subject: [PATCH 102/134] fix: a shape of negative length is refused

---
 src/api/tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 9a76eed..22b35c3 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -14,6 +14,7 @@ using namespace ts;
 ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
     if (shape == nullptr) shape_len = 0;
+    if (shape_len < 0) throw Exception("Got negative shape_len: " + std::to_string(shape_len));
     std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
     if (data == nullptr) {
@@ -115,6 +116,7 @@ ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t sh
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
         if (!shape && shape_len != 0) throw Exception("NullPointerException: @param: 2");
+        if (shape_len < 0) throw Exception("Got negative shape_len: " + std::to_string(shape_len));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
@@ -130,6 +132,7 @@ ts_Tensor *
 ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
         if (shape == nullptr) shape_len = 0;
+    if (shape_len < 0) throw Exception("Got negative shape_len: " + std::to_string(shape_len));
         std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
         **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), Shape(shape, shape + shape_len));
-- 
2.43.0


From 3dd07784daab7b8f2a9de440d1e19645c8b7b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:36 +0000
Subject: [PATCH 103/134] fix: roi_align predicts its size

---
 src/kernels/cpu/roi_align.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..e07edcf 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -23,6 +23,7 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
             }
-- 
2.43.0


From af5822a37ef85ad714082498685f834301d2124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 104/134] fix: proposal predicts with its own parameters

---
 src/kernels/cpu/proposal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..dec1ce7 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -24,6 +24,7 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
-- 
2.43.0


From 5dca9ebd26a310cb446d4946d0acf0159b0aadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 105/134] fix: a concat node concatenates

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 860b9ac..273604c 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -65,7 +65,7 @@ namespace ts {
         }
 
         Node concat(const std::string &name, const std::vector<Node> &x, int32_t dim) {
-            Node node = bubble::bubble(desc::gather(dim), name);
+            Node node = bubble::bubble(desc::concat(dim), name);
             Node::Link(node, x);
             return node;
         }
-- 
2.43.0


From 55bc2f2d95b1de622196fdbbbbd67ce38186cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 106/134] fix: a broadcast node broadcasts

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 273604c..dc5c22b 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -103,7 +103,7 @@ namespace ts {
         }
 
         Node broadcast(const std::string &name, const Node &x, const Node &shape) {
-            Node node = bubble::bubble(desc::matmul(), name);
+            Node node = bubble::bubble(desc::broadcast(), name);
             Node::Link(node, {x, shape});
             return node;
         }
-- 
2.43.0


From 19ff5ce70f7b29ee16d68705fa453cb172a41bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:26 +0000
Subject: [PATCH 107/134] fix: a node name is no format for the profiler

---
 src/runtime/instruction.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime/instruction.cpp b/src/runtime/instruction.cpp
index c01ea04..24f99c1 100644
--- a/src/runtime/instruction.cpp
+++ b/src/runtime/instruction.cpp
@@ -22,12 +22,22 @@ namespace ts {
         TS_AUTO_CHECK(m_func != nullptr);
     }
 
+    // the timer name is a format, what the user wrote is not
+    static std::string escape_format(const std::string &text) {
+        std::string escaped;
+        for (auto ch : text) {
+            if (ch == '%') escaped.push_back('%');
+            escaped.push_back(ch);
+        }
+        return escaped;
+    }
+
     Later profiler_run(const Operator::shared &op) {
         if (!profiler_on()) return Later();
         std::ostringstream oss;
         oss << "op(%04d):"
-            << tensor::to_string(op->get(Bubble::RetentionParam::op)) << ":"
-            << tensor::to_string(op->get(Bubble::RetentionParam::name));
+            << escape_format(tensor::to_string(op->get(Bubble::RetentionParam::op))) << ":"
+            << escape_format(tensor::to_string(op->get(Bubble::RetentionParam::name)));
         return profiler_serial_timer(oss.str());
     }
 
-- 
2.43.0


From 567d8bb9da08db03318ffef097fdc8b1b8ce4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:38 +0000
Subject: [PATCH 108/134] fix: the graph inference of _expand counts the
 dimensions it adds

---
 src/runtime/inferer/factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..a7b20fb 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -702,17 +702,17 @@ namespace ts {
             auto y = x.sizes();
 
             if (!inverse) {
-                while (y.size() < dims && front > 0) {
+                while (y.size() < dims && front-- > 0) {
                     y.insert(y.begin(), 1);
                 }
-                while (y.size() < dims && end > 0) {
+                while (y.size() < dims && end-- > 0) {
                     y.insert(y.end(), 1);
                 }
             } else {
-                while (y.size() < dims && end > 0) {
+                while (y.size() < dims && end-- > 0) {
                     y.insert(y.end(), 1);
                 }
-                while (y.size() < dims && front > 0) {
+                while (y.size() < dims && front-- > 0) {
                     y.insert(y.begin(), 1);
                 }
             }
-- 
2.43.0


From d7bb4016afff2416a7fdd63a52d4a36fa7783d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:39 +0000
Subject: [PATCH 109/134] fix: the graph inference of slices bounds a negative
 end like the operators do

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index a7b20fb..c686284 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2038,7 +2038,7 @@ namespace ts {
                         else if (end < 0) end += x;
                     } else {
                         if (end > x) return 0;     // no elements
-                        else if (end <= -x) end = -1;
+                        else if (end < -x) end = -1;
                         else if (end < 0) end += x;
                     }
                 }
-- 
2.43.0


From 1b6012109f2f054e18d8982579e306aff0e4d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:39 +0000
Subject: [PATCH 110/134] fix: the graph inference of slices does not guess
 sizes of an unknown dimension

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index c686284..c13e07e 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2015,6 +2015,7 @@ namespace ts {
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
             // begin \in [0, x)
             // end \in [-1, x]
+            if (x < 0) return -1;
             if (x >= 0) {
                 if (begin_flag) {
                     begin = stride > 0 ? 0 : x - 1;
-- 
2.43.0


From ce74b0840e339bd2193e46f525034a4e9034898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:39 +0000
Subject: [PATCH 111/134] fix: the graph inference of _transpose uses the
 default permutation

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index c13e07e..095b5c1 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -120,6 +120,7 @@ namespace ts {
                     tmp.push_back(int32_t(i));
                 }
                 std::swap(tmp[tmp.size() - 1], tmp[tmp.size() - 2]);
+                permute = tmp;
             }
 
             auto x_shape = x.sizes();
-- 
2.43.0


From b5b1e4847485815b2d7b85b27c28b9b01105fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:39 +0000
Subject: [PATCH 112/134] fix: the graph inference of _dims gives a scalar
 value

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 095b5c1..2a34762 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -677,7 +677,7 @@ namespace ts {
             {
                 auto &update_node = *const_cast<Node*>(&node);
                 auto dims = inputs[0].dims();
-                update_node->set("#value", tensor::build<int32_t>(INT32, int32_t(dims)));
+                update_node->set("#value", tensor::from<int32_t>(int32_t(dims)));
             }
 
             return {INT32, Shape()};
-- 
2.43.0


From 052b9d0152985e906dcbd2bf2d4f88c30d40849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:39 +0000
Subject: [PATCH 113/134] fix: the graph inference of _limit fills missing
 limits in front

---
 src/runtime/inferer/factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 2a34762..c9bb22b 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -757,7 +757,8 @@ namespace ts {
             auto x = inputs[0];
             auto size = node->get_int_list("shape");
             auto y_shape = x.sizes();
-            if (size.size() != y_shape.size()) return VOID;
+            if (size.size() > y_shape.size()) return VOID;
+            size.insert(size.begin(), y_shape.size() - size.size(), -1);
             for (size_t i = 0; i < size.size(); ++i) {
                 if (size[i] > 0 && y_shape[i] > size[i]) y_shape[i] = size[i];
             }
-- 
2.43.0


From 97e52542e23105a8f40e750f6229b430a27f282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:40 +0000
Subject: [PATCH 114/134] fix: the graph inference of constant_of_shape uses
 the given shape

---
 src/runtime/inferer/factory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index c9bb22b..632b96b 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2368,11 +2368,15 @@ namespace ts {
         static TensorPrototype constant_of_shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
             if (inputs.size() != 1) return VOID;
 
+            auto shape_value = get_value(node.input(0));
+            if (shape_value.empty()) return VOID;
+            auto shape = tensor::array::to_int(shape_value);
+
             if (node->has("value")) {
                 auto val_attr = node->get("value");
-                return {val_attr.dtype(), inputs[0].sizes()};
+                return {val_attr.dtype(), shape};
             } else {
-                return {FLOAT32, inputs[0].sizes()};
+                return {FLOAT32, shape};
             }
         }
 
-- 
2.43.0


From a8d246fe09947de5ce683ded318dbd0c3e8037f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:40 +0000
Subject: [PATCH 115/134] fix: the graph inference of divided keeps unknown
 sizes

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 632b96b..7ed7769 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1372,7 +1372,7 @@ namespace ts {
             auto y_shape = x.sizes();
 
             for (size_t i = 0; i < x.dims(); ++i) {
-                if (size[i] == 1) continue;
+                if (size[i] == 1 || y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(std::ceil(float(y_shape[i]) / size[i])) * size[i];
             }
 
-- 
2.43.0


From f51fa08f2b3972d0bcfcbbb375bda0890e400b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:02 +0000
Subject: [PATCH 116/134] fix: the graph inference of element wise operators
 follows the operand types

---
 src/runtime/inferer/factory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 7ed7769..056908a 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -8,6 +8,7 @@
 #include "backend/name.h"
 
 #include "runtime/inferer.h"
+#include "backend/base/element_wise_reduce.h"
 
 #include "utils/box.h"
 #include <algorithm>
@@ -293,6 +294,12 @@ namespace ts {
 
         static TensorPrototype _eltwise(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto dtype = inputs[0].dtype();
+            if (dtype != inputs[1].dtype()) {
+                if (uncorr_cast_dtype(dtype) || uncorr_cast_dtype(inputs[1].dtype())) return VOID;
+                Tensor lhs(MemoryDevice("_fake_"), dtype, Shape());
+                Tensor rhs(MemoryDevice("_fake_"), inputs[1].dtype(), Shape());
+                dtype = upcast_dtype(nullptr, lhs, rhs);
+            }
 
             auto lhs_shape = inputs[0].sizes();
             auto rhs_shape = inputs[1].sizes();
-- 
2.43.0


From ae736afff7aeed87dd3e1a9b2b7c355eb2eea983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:02 +0000
Subject: [PATCH 117/134] fix: the graph inference of where keeps unknown sizes

---
 src/runtime/inferer/factory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 056908a..0f24471 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2354,7 +2354,11 @@ namespace ts {
 
             for (size_t i = 0; i < dims; ++i) {
                 int size = cond_shape[i];
-                if (!(cond_shape[i] == lhs_shape[i] && cond_shape[i] == rhs_shape[i])) {
+                if (cond_shape[i] < 0 || lhs_shape[i] < 0 || rhs_shape[i] < 0) {
+                    // a known size over one decides, otherwise it is not known
+                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
+                    if (size == 1) size = -1;
+                } else if (!(cond_shape[i] == lhs_shape[i] && cond_shape[i] == rhs_shape[i])) {
                     // exception condition
                     if ((cond_shape[i] != 1 && lhs_shape[i] != 1 && cond_shape[i] != lhs_shape[i]) ||
                         (cond_shape[i] != 1 && rhs_shape[i] != 1 && cond_shape[i] != rhs_shape[i]) ||
-- 
2.43.0


From 5ee44739e120bb68c5f819668886185276a2004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 118/134] fix: the graph inference of topkv2 keeps unknown
 sizes

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 0f24471..d33d014 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1928,7 +1928,7 @@ namespace ts {
                 index = Tensor::Prototype(INT32, x.sizes());
             } else {
                 auto K = std::min(x.sizes().back(), number);
-                if (K < 0) K = number;
+                if (x.sizes().back() < 0) K = -1;
                 auto y_shape = x.sizes();
                 y_shape.back() = K;
                 y = Tensor::Prototype(x.dtype(), y_shape);
-- 
2.43.0


From 393c6e557d8c70ee4bf67c19e883054730fed4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 119/134] fix: the graph inference of yolo gives the number of
 classes as a vector

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index d33d014..7a9a190 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1961,7 +1961,7 @@ namespace ts {
 
             std::vector<Tensor::Prototype> outputs = {
                     Tensor::Prototype(x.dtype(), {batch, n * (classes + 4 + 1), h, w}),
-                    Tensor::Prototype(INT32, Shape()),
+                    Tensor::Prototype(INT32, {1}),
                     Tensor::Prototype(INT32, {int32_t(mask.size())}),
                     Tensor::Prototype(FLOAT32, {int32_t(anchors.size())}),
 
-- 
2.43.0


From 915d777ceb7402098f929df8d3b7b85f8c487e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 120/134] fix: the graph inference of sample2d_v2 keeps unknown
 sizes

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 7a9a190..8e2d805 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2262,6 +2262,7 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < y_shape.size(); ++i) {
+                if (y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(float(x.size(i)) * scale[i]);
             }
 
-- 
2.43.0


From afd7141debd8104e18ad70ca36bb85223762cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 121/134] fix: the graph inference of concat keeps unknown
 sizes

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 8e2d805..6602d09 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -634,7 +634,7 @@ namespace ts {
 
             for (size_t i = 1; i < inputs.size(); ++i) {
                 auto inc = inputs[i].size(dim);
-                if (inc < 0) {
+                if (inc < 0 || shape[dim] < 0) {
                     shape[dim] = -1;
                     break;
                 }
-- 
2.43.0


From 77fff4c8d06cd0241fa6a307510b6cd6b50b7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 122/134] fix: the graph inference of paddings checks the
 channels it is given

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 6602d09..b42c657 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -467,7 +467,7 @@ namespace ts {
                 param0_shape[dim] = x.size(size_t(dim));
             }
 
-            if (param0_shape[channel_dim] < 0) {
+            if (x.size(size_t(channel_dim)) < 0) {
                 return VOID;
             }
             param0_shape[channel_dim] = x.size(size_t(channel_dim));
-- 
2.43.0


From a6e478d8087fa801b25ee130591402d2f4f929f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:04 +0000
Subject: [PATCH 123/134] fix: the graph inference of gemm knows the default
 transpositions

---
 src/runtime/inferer/factory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index b42c657..06645ce 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -610,8 +610,8 @@ namespace ts {
             auto B = inputs[1];
 
 
-            auto transA = node->get_bool("transA");
-            auto transB = node->get_bool("transB");
+            auto transA = node->has("transA") ? node->get_bool("transA") : false;
+            auto transB = node->has("transB") ? node->get_bool("transB") : false;
 
             auto M = transA ? A.size(1) : A.size(0);
             auto N = transB ? B.size(0) : B.size(1);
-- 
2.43.0


From 135565f0047294c2fcd078c49f06bad440b11fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:04 +0000
Subject: [PATCH 124/134] fix: the graph inference of shape_index_patch takes
 two inputs

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 06645ce..b1df417 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1785,7 +1785,7 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "sample2d", sample2d)
 
         static TensorPrototype shape_index_patch(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            if (inputs.size() != 1) return VOID;
+            if (inputs.size() != 2) return VOID;
             auto &x = inputs[0];
             auto &pos = inputs[1];
 
-- 
2.43.0


From 9bdc94946989652fe04a9e1109a43463015e84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:10 +0000
Subject: [PATCH 125/134] fix: the graph inference of reductions keeps the
 dimensions by default

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index b1df417..f01697c 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1466,7 +1466,7 @@ namespace ts {
                 auto dims = int32_t(x.dims());
 
                 auto axes = node->get_int_list(axes_attr_name);
-                auto keep_axes = node->get_bool(keep_axes_attr_name);
+                auto keep_axes = node->has(keep_axes_attr_name) ? node->get_bool(keep_axes_attr_name) : true;
 
                 for (auto &axis : axes) {
                     if (axis < 0) axis += dims;
-- 
2.43.0


From 03d6ab275403d3acb5497efc8d63fbe40bb65cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:11 +0000
Subject: [PATCH 126/134] fix: the value the graph inference gives _dims has no
 dimensions

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index f01697c..cb2caf6 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -684,7 +684,7 @@ namespace ts {
             {
                 auto &update_node = *const_cast<Node*>(&node);
                 auto dims = inputs[0].dims();
-                update_node->set("#value", tensor::from<int32_t>(int32_t(dims)));
+                update_node->set("#value", tensor::from<int32_t>(int32_t(dims)).reshape(Shape()));
             }
 
             return {INT32, Shape()};
-- 
2.43.0


From d07d3bcce49f4d6b74b01097807abc2a3119052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:11 +0000
Subject: [PATCH 127/134] fix: the graph inference of slice_v3 takes negative
 axes

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index cb2caf6..a1dffc1 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2094,6 +2094,7 @@ namespace ts {
 
             for (size_t i = 0; i < N; ++i) {
                 auto dim = axes[i];
+                FIX_DIM(dim, x)
 
                 y_shape[dim] = infer_output(
                         y_shape[dim],
-- 
2.43.0


From 2f0b2ffa2fd663357b2b72e01027a5a5fdc0904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:11 +0000
Subject: [PATCH 128/134] fix: the graph inference of shape_index_patch keeps
 unknown sizes

---
 src/runtime/inferer/factory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index a1dffc1..bc445f1 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1798,10 +1798,10 @@ namespace ts {
             GET_NODE_INT_LIST_ATTR(origin_patch)
             GET_NODE_INT_LIST_ATTR(origin)
 
-            auto x_patch_h = int(origin_patch[0] * height / float(origin[0]) + 0.5f);
-            auto x_patch_w = int(origin_patch[1] * width / float(origin[1]) + 0.5f);
+            auto x_patch_h = height < 0 ? -1 : int(origin_patch[0] * height / float(origin[0]) + 0.5f);
+            auto x_patch_w = width < 0 ? -1 : int(origin_patch[1] * width / float(origin[1]) + 0.5f);
 
-            Shape y_shape = {number, channels, x_patch_h, landmarkx2 / 2, x_patch_w};
+            Shape y_shape = {number, channels, x_patch_h, landmarkx2 < 0 ? -1 : landmarkx2 / 2, x_patch_w};
 
             return {x.dtype(), y_shape};
         }
-- 
2.43.0


From d2b77025d574b45aedb9b99774c20efa5e4f952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:11 +0000
Subject: [PATCH 129/134] fix: the graph inference of _expand takes negative
 limits as no limit

---
 src/runtime/inferer/factory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index bc445f1..9549d58 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -706,6 +706,8 @@ namespace ts {
             if (node->has("front")) front = node->get_int("front");
             if (node->has("end")) end = node->get_int("end");
             if (node->has("inverse")) inverse = node->get_bool("inverse");
+            if (front < 0) front = int32_t(dims);
+            if (end < 0) end = int32_t(dims);
 
             auto y = x.sizes();
 
-- 
2.43.0


From 4b611e1e21a4bb97ee2daf0876e6b358f7004744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:12 +0000
Subject: [PATCH 130/134] fix: constant_of_shape refuses negative sizes

---
 src/kernels/cpu/constant_of_shape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/constant_of_shape.cpp b/src/kernels/cpu/constant_of_shape.cpp
index 3ddbb25..be40974 100644
--- a/src/kernels/cpu/constant_of_shape.cpp
+++ b/src/kernels/cpu/constant_of_shape.cpp
@@ -23,6 +23,7 @@ namespace ts {
 
             auto x = stack[0];
             auto shape = tensor::array::to_int(x);
+            for (auto size : shape) TS_AUTO_CHECK(size >= 0);
 
             output.resize(1);
             output[0] = Tensor::Prototype(m_tensor.dtype(), shape);
-- 
2.43.0


From 6e2f02347e38123498a44168f2f21e954abb140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:03 +0000
Subject: [PATCH 131/134] fix: the graph inference of flatten keeps unknown
 sizes

---
 src/runtime/inferer/factory.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 9549d58..08d406d 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -325,6 +325,11 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "mul", _eltwise)
         TS_STATIC_ACTION(ShapeInferer::Register, "div", _eltwise)
 
+        static int flatten_size(Shape::const_iterator begin, Shape::const_iterator end) {
+            for (auto it = begin; it != end; ++it) if (*it < 0) return -1;
+            return std::accumulate(begin, end, 1, std::multiplies<int>());
+        }
+
         static TensorPrototype flatten(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
@@ -338,7 +343,7 @@ namespace ts {
             if (need_size < x_size) {
                 auto &size = x.sizes();
                 std::vector<int> shape(size.begin(), size.begin() + need_size);
-                shape.back() = std::accumulate(size.begin() + dim, size.end(), 1, std::multiplies<int>());
+                shape.back() = flatten_size(size.begin() + dim, size.end());
                 y_shape = std::move(shape);
             } else if (need_size > x_size) {
                 std::vector<int> ones(need_size - x_size, 1);
@@ -364,12 +369,12 @@ namespace ts {
             std::vector<int> y_shape;
 
             if (dim <= 0) {
-                y_shape = {1, std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>())};
+                y_shape = {1, flatten_size(size.begin(), size.end())};
             } else if (dim >= x.dims()) {
-                y_shape = {std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>()), 1};
+                y_shape = {flatten_size(size.begin(), size.end()), 1};
             } else {
-                y_shape = {std::accumulate(size.begin(), size.begin() + dim, 1, std::multiplies<int>()),
-                           std::accumulate(size.begin() +  dim, size.end(), 1, std::multiplies<int>())};
+                y_shape = {flatten_size(size.begin(), size.begin() + dim),
+                           flatten_size(size.begin() + dim, size.end())};
             }
 
             return {x.dtype(), y_shape};
-- 
2.43.0


From d38a384d8d005a8fac25ede38e48889c47716cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:13 +0000
Subject: [PATCH 132/134] fix: the graph inference of pad keeps one element
 like the operator

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 08d406d..875491e 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1613,6 +1613,7 @@ namespace ts {
             for (size_t i = 0; i < x.dims(); ++i) {
                 if (y_shape[i] < 0) continue;
                 y_shape[i] += padding[i * 2] + padding[i * 2 + 1];
+                if (y_shape[i] < 1) y_shape[i] = 1;
             }
 
             return {x.dtype(), y_shape};
-- 
2.43.0


From 1c297b061b09928185d0a462a6e92c20b2c4e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:13 +0000
Subject: [PATCH 133/134] fix: resizing a shape keeps the elements it still has

---
 include/utils/otl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index 4920708..f220e19 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -367,7 +367,9 @@ namespace ts {
             const T &back() const { return m_buf[m_size - 1]; }
 
             void resize(size_type n, value_type val = value_type()) {
-                *this = self(n, val);
+                auto size = _checked(n);
+                for (size_type i = this->size(); i < n; ++i) m_buf[i] = val;
+                m_size = size;
             }
 
             iterator erase(iterator it) {
-- 
2.43.0


From cc66f0bab9920cdf9e02835bd3fbedca4200d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:13 +0000
Subject: [PATCH 134/134] fix: inserting an element of a shape into itself

---
 include/utils/otl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index f220e19..fdf5333 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -442,8 +442,9 @@ namespace ts {
                 if (this->size() + 1 > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
+                const T copy = val; // val may be an element of this vector
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
-                m_buf[i] = val;
+                m_buf[i] = copy;
                 m_size += 1;
             }
 
-- 
2.43.0

