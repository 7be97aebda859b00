From c1880d98a34dbaf2e2707d4529494c6c581ca4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 01/34] fix: aitisa_resolve returns a status instead of falling
 off its end

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From 7117c80cfcb688cf18996025f89674496c4d2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 02/34] fix: aitisa_create releases what it allocated when it
 fails

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..c2c09bc 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size) {
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status;
+  status = aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 9193d2da23c7cd0e9ab374c0fadcdae85ab460f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 03/34] fix: slice range check no longer overflows int

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..3a5460e 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -53,7 +53,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || (int64_t)begin[i] + size[i] > in_dims[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From b06ca6b7986f4305c1b9cade59ec5efc8cd8eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 04/34] fix: slice of a zero-dimensional tensor does not write
 before its scratch array

---
 src/basic/slice.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 3a5460e..4b06f02 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -108,7 +108,9 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) {
+    offset_recorder[in_ndim - 1] = 1;
+  }
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From 4d38a3b39d83a5a14697a534739e5ac98bf84fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 05/34] fix: failing slice and duplicate keep no memory and
 leave the output handle alone

---
 src/basic/duplicate.c |  3 +++
 src/basic/slice.c     | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..023614f 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
+    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
diff --git a/src/basic/slice.c b/src/basic/slice.c
index 4b06f02..10eecc9 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -86,6 +92,15 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
     }                                                                         \
   }
 
+static Status slice_run_kernel(const Tensor input, int *begin, int *step,
+                               int64_t *index_recorder, int64_t *boundary,
+                               int64_t *offset_recorder, Tensor *output) {
+  int64_t in_ndim = aitisa_tensor_ndim(input);
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
+  return STATUS_SUCCESS;
+}
+
 static Status slice_template(const Tensor input, int *begin, int *size,
                              int *step, Tensor *output) {
   int64_t in_ndim = aitisa_tensor_ndim(input);
@@ -102,6 +117,11 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
   if (!index_recorder || !boundary || !offset_recorder) {
+    if (index_recorder)
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    if (boundary) aitisa_default_cpu_allocator()->raw_dealloc(boundary);
+    if (offset_recorder)
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for (int i = 0; i < in_ndim; i++) {
@@ -115,13 +135,13 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
   // Implement slice kernel
-  DataType dtype = aitisa_tensor_data_type(input);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
+  Status status = slice_run_kernel(input, begin, step, index_recorder, boundary,
+                                   offset_recorder, output);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(boundary);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
@@ -129,9 +149,15 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Make sure parameters are correct
   CHECK_STATUS(slice_check_parameters(input, begin, size, step));
   // Create output
-  CHECK_STATUS(slice_create_output(input, begin, size, step, output));
+  Tensor new_tensor;
+  CHECK_STATUS(slice_create_output(input, begin, size, step, &new_tensor));
   // Implement slice
   Status status;
-  status = slice_template(input, begin, size, step, output);
+  status = slice_template(input, begin, size, step, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From 32c5030c7564870bfbeb000e3da23ec35bd58b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 06/34] fix: squeeze rejects axes out of range and copes with
 repeated axes and zero extents

---
 src/basic/squeeze.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..24d6b50 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
@@ -27,14 +27,15 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+      // an axis listed twice is removed once
+      if (processed_in_dims[axis[i]] == 1) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -46,7 +47,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (!out_dims) return STATUS_ALLOC_FAILED;
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 14f7a85002f5d1b25e1c388f74aa1bf2c1147d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 07/34] fix: squeeze frees its scratch when an allocation fails

---
 src/basic/squeeze.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 24d6b50..f3a8787 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -44,7 +44,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != -1) {
-- 
2.43.0


From 42fad16cd6f72eec2acf6a0083b9b0ac21145efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 08/34] fix: failing cast, sqrt, sigmoid, tanh, relu and
 dropout keep no memory and leave the output handle alone

---
 src/basic/cast.c |  8 ++++++--
 src/math/sqrt.c  | 10 ++++++++--
 src/nn/dropout.c |  6 +++++-
 src/nn/relu.c    | 17 +++++++++++++----
 src/nn/sigmoid.c |  3 +++
 src/nn/tanh.c    |  3 +++
 6 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/basic/cast.c b/src/basic/cast.c
index 3811ebf..9aa8cfb 100644
--- a/src/basic/cast.c
+++ b/src/basic/cast.c
@@ -86,9 +86,13 @@ Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
   int64_t out_ndim = aitisa_tensor_ndim(input);
   CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
                              NULL, 0, &new_tensor));
-  *output = new_tensor;
   // Implement cast
   Status status;
-  status = cast_template(input, dtype, output);
+  status = cast_template(input, dtype, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
diff --git a/src/math/sqrt.c b/src/math/sqrt.c
index 54737bc..8740f9a 100644
--- a/src/math/sqrt.c
+++ b/src/math/sqrt.c
@@ -35,8 +35,14 @@ static Status sqrt_template(const Tensor input, Tensor *output) {
 
 Status aitisa_sqrt(const Tensor input, Tensor *output) {
   // Create output
-  CHECK_STATUS(sqrt_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(sqrt_create_output(input, &new_tensor));
   // Implement square root
-  Status status = sqrt_template(input, output);
+  Status status = sqrt_template(input, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..50412e5 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -32,7 +32,11 @@ Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   Tensor new_tensor;
   CHECK_STATUS(aitisa_duplicate(input, &new_tensor));
   // Implement dropout
-  CHECK_STATUS(dropout_template(&new_tensor, rate));
+  Status status = dropout_template(&new_tensor, rate);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
   *output = new_tensor;
   return STATUS_SUCCESS;
 }
diff --git a/src/nn/relu.c b/src/nn/relu.c
index d87d6a3..e500b4d 100644
--- a/src/nn/relu.c
+++ b/src/nn/relu.c
@@ -12,6 +12,13 @@
     }                                               \
   }
 
+static Status relu_template(const Tensor input, Tensor *output) {
+  int64_t size = aitisa_tensor_size(input);
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, relu_kernel);
+  return STATUS_SUCCESS;
+}
+
 Status aitisa_relu(const Tensor input, Tensor *output) {
   // Create output
   int64_t *dims = aitisa_tensor_dims(input);
@@ -22,10 +29,12 @@ Status aitisa_relu(const Tensor input, Tensor *output) {
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
       aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor));
-  *output = new_tensor;
   // Implement relu
-  int64_t size = aitisa_tensor_size(input);
-  Status status = STATUS_SUCCESS;
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, relu_kernel);
+  Status status = relu_template(input, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
diff --git a/src/nn/sigmoid.c b/src/nn/sigmoid.c
index e190ba2..36c315b 100644
--- a/src/nn/sigmoid.c
+++ b/src/nn/sigmoid.c
@@ -15,6 +15,9 @@ Status aitisa_sigmoid(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..f88e2ff 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -16,6 +16,9 @@ Status aitisa_tanh(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
-- 
2.43.0


From 3de7030015d666c28b9a512601ee464457348fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 09/34] fix: binary operations take their scratch from the
 allocator and check it

---
 src/math/binary_op.c | 87 ++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..1d4d6f1 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -201,6 +201,13 @@ BinaryOpFunc aitisa_binary_op_func(DataType dtype) {
   return binary_op_func[dtype.code];
 }
 
+// Release the buffers which hold one element of each operand.
+static void release_operands(void *a, void *b, void *c) {
+  if (a) aitisa_default_cpu_allocator()->raw_dealloc(a);
+  if (b) aitisa_default_cpu_allocator()->raw_dealloc(b);
+  if (c) aitisa_default_cpu_allocator()->raw_dealloc(c);
+}
+
 Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -225,25 +232,31 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
+  Tensor new_tensor;
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+                             dims_tensor1, ndim_tensor1, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
-  void *data_output = aitisa_tensor_data(*output);
+  void *data_output = aitisa_tensor_data(new_tensor);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    release_operands(a, b, c);
+    aitisa_destroy(&new_tensor);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  release_operands(a, b, c);
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -271,25 +284,31 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
+  Tensor new_tensor;
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+                             dims_tensor1, ndim_tensor1, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
-  void *data_output = aitisa_tensor_data(*output);
+  void *data_output = aitisa_tensor_data(new_tensor);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    release_operands(a, b, c);
+    aitisa_destroy(&new_tensor);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  release_operands(a, b, c);
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -317,25 +336,31 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
+  Tensor new_tensor;
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+                             dims_tensor1, ndim_tensor1, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
-  void *data_output = aitisa_tensor_data(*output);
+  void *data_output = aitisa_tensor_data(new_tensor);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    release_operands(a, b, c);
+    aitisa_destroy(&new_tensor);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  release_operands(a, b, c);
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -363,24 +388,30 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
+  Tensor new_tensor;
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+                             dims_tensor1, ndim_tensor1, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
-  void *data_output = aitisa_tensor_data(*output);
+  void *data_output = aitisa_tensor_data(new_tensor);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  void *a = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *b = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  void *c = aitisa_default_cpu_allocator()->raw_alloc(dtype.size);
+  if (!a || !b || !c) {
+    release_operands(a, b, c);
+    aitisa_destroy(&new_tensor);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  release_operands(a, b, c);
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From cda0111a653df489282fbc07512379b6e41aae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 10/34] fix: integer division by zero is a math error instead
 of a crash

---
 src/math/binary_op.c | 34 ++++++++++++++++++++++++++++++++++
 src/math/binary_op.h |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 1d4d6f1..b24e4b0 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -364,6 +364,33 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   return STATUS_SUCCESS;
 }
 
+// Whether dividing element i of a by element i of b is undefined for the data
+// type: an integer divisor of zero, or a quotient out of range.
+static int div_undefined(DataType dtype, void *a, void *b, int64_t i) {
+  switch (dtype.code) {
+    case TYPE_INT8:
+      return ((int8_t *)b)[i] == 0;
+    case TYPE_UINT8:
+      return ((uint8_t *)b)[i] == 0;
+    case TYPE_INT16:
+      return ((int16_t *)b)[i] == 0;
+    case TYPE_UINT16:
+      return ((uint16_t *)b)[i] == 0;
+    case TYPE_INT32:
+      return ((int32_t *)b)[i] == 0 ||
+             (((int32_t *)b)[i] == -1 && ((int32_t *)a)[i] == INT32_MIN);
+    case TYPE_UINT32:
+      return ((uint32_t *)b)[i] == 0;
+    case TYPE_INT64:
+      return ((int64_t *)b)[i] == 0 ||
+             (((int64_t *)b)[i] == -1 && ((int64_t *)a)[i] == INT64_MIN);
+    case TYPE_UINT64:
+      return ((uint64_t *)b)[i] == 0;
+    default:
+      return 0;
+  }
+}
+
 Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -387,6 +414,13 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  for (int64_t i = 0; i < aitisa_tensor_size(tensor1); i++) {
+    if (div_undefined(aitisa_tensor_data_type(tensor1),
+                      aitisa_tensor_data(tensor1), aitisa_tensor_data(tensor2),
+                      i)) {
+      return STATUS_MATH_ERROR;
+    }
+  }
   // create output
   Tensor new_tensor;
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
diff --git a/src/math/binary_op.h b/src/math/binary_op.h
index 81561f0..305f462 100644
--- a/src/math/binary_op.h
+++ b/src/math/binary_op.h
@@ -78,6 +78,7 @@ AITISA_API_PUBLIC Status aitisa_mul(const Tensor tensor1, const Tensor tensor2,
  * @retval STATUS_TYPE_MISMATCH The datatype of two tensors should be consistent
  * @retval STATUS_NOT_SUPPORTED Device is not supported
  * @retval STATUS_INVALID_ARGUMENT The dimension of two tensors is not consistent
+ * @retval STATUS_MATH_ERROR An integer division is undefined (division by zero)
  */
 AITISA_API_PUBLIC Status aitisa_div(const Tensor tensor1, const Tensor tensor2,
                                     Tensor *output);
-- 
2.43.0


From 6424543bc0c24f3d8410812bb1087043b3cc845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 11/34] fix: failing softmax keeps no memory and leaves the
 output handle alone

---
 src/nn/softmax.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..3d3f534 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -86,6 +88,17 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
 
 
 
+static Status softmax_run_kernel(const Tensor input, const int axis,
+                                 int64_t batch_size, int64_t element_offset,
+                                 int64_t *index_recorder,
+                                 int64_t *offset_recorder, Tensor *output){
+  int64_t* dims = aitisa_tensor_dims(input);
+  int64_t ndim = aitisa_tensor_ndim(input);
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_along_axis_kernel);
+  return STATUS_SUCCESS;
+}
+
 static Status softmax_along_axis(const Tensor input, const int axis,
                                  Tensor *output){
   int64_t* dims = aitisa_tensor_dims(input);
@@ -105,6 +118,10 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    if(index_recorder)
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    if(offset_recorder)
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
@@ -119,12 +136,12 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t element_offset = offset_recorder[axis];
 
   // Choose the right data type
-  DataType dtype = aitisa_tensor_data_type(input);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_along_axis_kernel);
+  Status status = softmax_run_kernel(input, axis, batch_size, element_offset,
+                                     index_recorder, offset_recorder, output);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_softmax(const Tensor input, const int axis,
@@ -135,17 +152,23 @@ Status aitisa_softmax(const Tensor input, const int axis,
   }
 
   // Create output tensor
-  CHECK_STATUS(softmax_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(softmax_create_output(input, &new_tensor));
 
   Status status;
   switch(axis){
     case -1:{
-      status = softmax_with_all(input, output);
+      status = softmax_with_all(input, &new_tensor);
       break;
     }
     default:{
-      status = softmax_along_axis(input, axis, output);
+      status = softmax_along_axis(input, axis, &new_tensor);
     }
   }
+  if(status != STATUS_SUCCESS){
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From bec85b86934bef2795af2bc23f97522407d85cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 12/34] fix: softmax does not overflow to NaN for large inputs

---
 src/nn/softmax.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 3d3f534..27f5631 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -22,16 +22,19 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
 #define softmax_with_all_kernel(typename, input, output)              \
   typename *in_data = (typename *)aitisa_tensor_data(input);          \
   typename *out_data = (typename *)aitisa_tensor_data(*output);       \
-  /*calculate exp(in_data) and temporarily save them in out_data*/    \
   int64_t size = aitisa_tensor_size(input);                           \
+  /*subtract the maximum first so that exp does not overflow*/        \
+  double max = -INFINITY;                                             \
+  for(int64_t i=0; i<size; i++){                                      \
+    if(max < in_data[i]) max = in_data[i];                            \
+  }                                                                   \
   double total = 0;                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
-    total += out_data[i];                                             \
+    total += exp((double)in_data[i] - max);                           \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)(out_data[i] / total);                    \
+    out_data[i] = (typename)(exp((double)in_data[i] - max) / total);  \
   }
 
 static Status softmax_with_all(const Tensor input, Tensor *output){
@@ -57,20 +60,25 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     /*need a copy of linear _idx later*/                        \
     int64_t linear_idx_copy = linear_idx;                       \
     /*implement softmax*/                                       \
+    /*subtract the maximum first so that exp does not overflow*/\
+    double max = -INFINITY;                                     \
+    for(int64_t i=0; i<dims[axis]; i++){                        \
+      if(max < in_data[linear_idx]) max = in_data[linear_idx];  \
+      /*update linear_idx*/                                     \
+      linear_idx += element_offset;                             \
+    }                                                           \
+    linear_idx = linear_idx_copy;                               \
     double total = 0;                                           \
     for(int64_t i=0; i<dims[axis]; i++){                        \
-      /*calculate the exp(in_data) and                          \
-        temporarily save them in out_data*/                     \
-      out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
-      total += out_data[linear_idx];                            \
+      total += exp((double)in_data[linear_idx] - max);          \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
     }                                                           \
     linear_idx = linear_idx_copy;                               \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       out_data[linear_idx] =                                    \
-        (typename)(out_data[linear_idx] / total);               \
+        (typename)(exp((double)in_data[linear_idx] - max)       \
+                   / total);                                    \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
     }                                                           \
-- 
2.43.0


From adb2f806a54fe75db7430c2f3110f9456b122a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 13/34] fix: tanh of large inputs is +-1 instead of NaN

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index f88e2ff..5221431 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh((double)in_data[i]);               \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From 949c29288e29bd86d1d3d85dda4c4aed36ee243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 14/34] fix: matmul refuses operands of different data types
 instead of reading past one of them

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..50bab3b 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From f22b41f027e5a293e4b6c5b6a2d3febc1a3dcd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 15/34] fix: failing matmul keeps no memory, checks its
 allocations and leaves the output handle alone

---
 src/math/matmul.c | 113 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 90 insertions(+), 23 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 50bab3b..3a343de 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -85,9 +85,15 @@ Status batch_mm_template(DataType dtype, void **As, void **Bs, void **Cs,
   return STATUS_SUCCESS;
 }
 
-// Definition of aitisa_matmul.
-Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
-                     Tensor *output) {
+// Release temporary memory, which may not have been allocated.
+static void release(void *ptr) {
+  if (ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
+// Implementation of aitisa_matmul. When it fails, *output may hold a tensor
+// which the caller has to destroy.
+static Status matmul_compute(const Tensor tensor1, const Tensor tensor2,
+                             Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
@@ -190,12 +196,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out, 0.0,
+                         output);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -205,6 +216,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -217,9 +235,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -238,13 +256,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out, 0.0,
+                         output);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -254,6 +277,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -266,9 +296,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -288,21 +318,36 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) return STATUS_ALLOC_FAILED;
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out, 0.0,
+                         output);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
+    if (!strides_t1 || !strides_t2) {
+      release(strides_t2);
+      release(strides_t1);
+      release(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
                   ndim_batch);
     batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
@@ -315,6 +360,15 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(strides_t2);
+      release(strides_t1);
+      release(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -341,9 +395,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -356,3 +410,16 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
   }
   return status;
 }
+
+// Definition of aitisa_matmul.
+Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
+                     Tensor *output) {
+  Tensor new_tensor = NULL;
+  Status status = matmul_compute(tensor1, tensor2, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
+  return status;
+}
-- 
2.43.0


From e4c135a61307f5dc6722b978c4e419e60c5369f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 16/34] fix: scalar dot keeps 64-bit integers exact instead of
 passing them through double

---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..1983871 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  for (int64_t i = 0; i < size; ++i) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 0af57f389f31e0734485843bac200695827a99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 17/34] fix: failing dot keeps no memory and leaves the output
 handle alone

---
 src/math/dot.c | 85 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 19 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 1983871..47af7cf 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,6 +22,11 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
+// Release temporary memory, which may not have been allocated.
+static void release(void *ptr) {
+  if (ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -71,14 +76,21 @@ static Status vector_vector_dot(const Tensor tensor1, const Tensor tensor2,
   // Create output
   int64_t ndim_out = 1;
   int64_t dims_out[1] = {1};
+  Tensor new_tensor;
   CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
                            aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                           0.0, output));
+                           0.0, &new_tensor));
   // Call kernel
   Status status;
   status = dot_template(
       aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
-      aitisa_tensor_data(tensor2), tensor1->size, aitisa_tensor_data(*output));
+      aitisa_tensor_data(tensor2), tensor1->size,
+      aitisa_tensor_data(new_tensor));
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
 
   return status;
 }
@@ -107,11 +119,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -123,6 +135,10 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
   if (!index_recorder || !size || !step) {
+    release(index_recorder);
+    release(size);
+    release(step);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -137,11 +153,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2 = tensor2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) break;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -161,6 +182,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -196,11 +222,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -219,6 +245,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor2);
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
+    release(index_recorder_t1);
+    release(index_recorder_t2);
+    release(size_t1);
+    release(size_t2);
+    release(step_t1);
+    release(step_t2);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -241,15 +274,20 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) break;
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) break;
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec2);
+        break;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -269,6 +307,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
       aitisa_destroy(&vec2);
       aitisa_destroy(&result);
     }
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Update index_recorder_t1
     for (int i = ndim_tensor1 - 2; i >= 0; i--) {
       index_recorder_t1[i] += 1;
@@ -287,6 +329,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 8272783c93aec7325f9bbb53e9491e31ad3e71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 18/34] fix: aitisa_conv returns a status instead of falling
 off its end

---
 src/nn/conv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..1559599 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -127,6 +127,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
 }
 
 /*
@@ -145,6 +146,7 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
     default:
       return STATUS_NOT_SUPPORTED;
   }
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-- 
2.43.0


From 2206c9adb74a41fe2d0447474a924201e0a34234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 19/34] fix: conv rejects filters and parameters that do not
 suit the input

---
 src/nn/conv.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 1559599..4a93775 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -21,6 +21,41 @@ static void conv_output_dims(const int64_t *input_dims,
   }
 }
 
+/*
+ * Check whether the filter and the configurations suit the input.
+ */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (aitisa_tensor_data_type(filter).code !=
+      aitisa_tensor_data_type(input).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  if (ndim < 3 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 0; d < ndim - 2; ++d) {
+    if (stride[d] < 1 || padding[d] < 0 || dilation[d] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    // The filter must not be larger than the padded input
+    if ((fil_dims[2 + d] - 1) * dilation[d] + 1 >
+        2 * (int64_t)padding[d] + in_dims[2 + d]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -29,6 +64,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t *fil_dims = aitisa_tensor_dims(filter);
+  CHECK_STATUS(conv_check_parameters(input, filter, stride, padding, dilation,
+                                     groups));
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
   int64_t *in_coords =
-- 
2.43.0


From 72d4f4d041d65426fa108c631d425799e1f53c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 20/34] fix: conv honours groups

---
 src/nn/conv.c | 6 ++++--
 src/nn/conv.h | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4a93775..cbd778a 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -106,7 +106,9 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  // number of input and output channels of each group
+  int64_t in_chan = aitisa_tensor_dim(input, 1) / groups;
+  int64_t group_out_chan = fil_dims[0] / groups;
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
   int64_t sdim = ndim - 2;
 
@@ -124,7 +126,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
 
         float tmp = 0.0;
         for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+          in_coords[1] = oc / group_out_chan * in_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
diff --git a/src/nn/conv.h b/src/nn/conv.h
index 30858b7..93425e5 100644
--- a/src/nn/conv.h
+++ b/src/nn/conv.h
@@ -8,8 +8,8 @@
  *
  * @param input The input tensor of a shape [num_batches, in_channels,
  *              in_spatial_shapes].
- * @param filter The filter tensor of a shape [out_channnels, in_channels,
- *               in_spatial_shapes].
+ * @param filter The filter tensor of a shape [out_channnels,
+ *               in_channels / groups, in_spatial_shapes].
  * @param stride The stride of a shape [spatial_shapes] each of which is >= 1.
  * @param padding The padding of a shape [spatial_shapes] each of which is >=
  *                0. The left and right of each dimension use the same padding *
-- 
2.43.0


From 58a748a8acf5677b00a3c94e81ab70126ce1f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 21/34] fix: conv checks its allocations and frees them when it
 fails

---
 src/nn/conv.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index cbd778a..583e514 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -56,6 +56,11 @@ static Status conv_check_parameters(const Tensor input, const Tensor filter,
   return STATUS_SUCCESS;
 }
 
+/* Release temporary memory, which may not have been allocated. */
+static void release(void *ptr) {
+  if (ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -83,14 +88,38 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
 
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    release(out_dims);
+    release(in_coords);
+    release(fil_coords);
+    release(out_coords);
+    release(tmp_coords);
+    release(in_strides);
+    release(fil_strides);
+    release(out_strides);
+    return STATUS_ALLOC_FAILED;
+  }
+
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  Status status =
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    release(out_dims);
+    release(in_coords);
+    release(fil_coords);
+    release(out_coords);
+    release(tmp_coords);
+    release(in_strides);
+    release(fil_strides);
+    release(out_strides);
+    return status;
+  }
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
-- 
2.43.0


From 10151970e7ac269cc1b049f9ea176997ed7bd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 22/34] fix: max pooling is right for windows of negative and
 of large 64-bit values

---
 src/nn/pooling.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..2c2aeaf 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,8 +9,9 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
-      temp = ((typename*)in_data)[linear_idx];        \
+    if (max_idx < 0 || ((typename*)in_data)[max_idx]  \
+                       < ((typename*)in_data)[linear_idx]) { \
+      max_idx = linear_idx;                           \
     }                                                 \
   }
 
@@ -19,7 +20,10 @@
     ((typename*)out_data)[out_linear_idx] = (typename)(temp / window_size);   \
   }                                                                           \
   else if (!strcmp(mode, "max")) {                                            \
-    ((typename*)out_data)[out_linear_idx] = (typename)temp;                   \
+    /* padded elements are zeros */                                           \
+    typename max = max_idx < 0 ? 0 : ((typename*)in_data)[max_idx];           \
+    if (has_padding && max < 0) max = 0;                                      \
+    ((typename*)out_data)[out_linear_idx] = max;                              \
   }
 
 
@@ -109,6 +113,8 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int64_t max_idx = -1;
+        int has_padding = 0;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -122,7 +128,9 @@ static Status pooling_double(const Tensor input, const char *mode,
             }
           }
           // need to consider padding
-          if(!padded){
+          if(padded){
+            has_padding = 1;
+          }else{
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
           }
           // update index
-- 
2.43.0


From 33c784b5263ab8bc53610480db0b2291eb086681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 23/34] fix: pooling rejects unknown modes and invalid
 parameters, and frees its scratch when it does

---
 src/nn/pooling.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 2c2aeaf..1691095 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -55,6 +55,21 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  // Check the mode and the parameters of every axis
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_INVALID_ARGUMENT;
+  }
+  for(int64_t i=0; i<ndim-2; i++){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  // Check whether the kernel window is larger than a channel
+  for(int64_t i=0; i<ndim-2; i++){
+    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   int64_t *out_dims =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim);
   int64_t *index =
@@ -67,12 +82,6 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
-  // Check whether the kernel window is larger than a channel
-  for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
-    }
-  }
   // Create output
   Tensor new_tensor;
   CHECK_STATUS(
-- 
2.43.0


From 86e2f81cf90ec2404a7279bab04e7b35ca526339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 24/34] fix: pooling checks its allocations and frees them when
 it fails

---
 src/nn/pooling.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 1691095..a6818cc 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -48,6 +48,11 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
     aitisa_create(dtype, device, out_dims, ndim, NULL, 0, output);
 }
 
+// Release temporary memory, which may not have been allocated.
+static void release(void *ptr){
+  if(ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
 static Status pooling_double(const Tensor input, const char *mode,
                              const int *ksize,	 const int *stride,
                              const int *padding, const int *dilation,
@@ -82,11 +87,29 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
+  if(!out_dims || !index || !strides || !out_strides || !k_head || !k_tail){
+    release(out_dims);
+    release(index);
+    release(strides);
+    release(out_strides);
+    release(k_head);
+    release(k_tail);
+    return STATUS_ALLOC_FAILED;
+  }
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  Status status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if(status != STATUS_SUCCESS){
+    release(out_dims);
+    release(index);
+    release(strides);
+    release(out_strides);
+    release(k_head);
+    release(k_tail);
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
-- 
2.43.0


From ec52991ac8c64d0cfafa02e5141e2eeb25854edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 25/34] fix: failing batch_norm keeps no memory, checks its
 allocations and leaves the output handle alone

---
 src/nn/batch_norm.c | 267 ++++++++++++++++++++++++++------------------
 1 file changed, 161 insertions(+), 106 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..58447ee 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -111,6 +111,51 @@ static void batch_norm_transport(const Tensor source, Tensor *destination,
   }
 }
 
+// Release temporary memory, which may not have been allocated.
+static void release(void *ptr) {
+  if (ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
+// Allocate an array of n tensors which do not exist yet.
+static Tensor *create_tensor_array(int64_t n) {
+  Tensor *array = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*array) * n);
+  for (int64_t i = 0; array && i < n; i++) {
+    array[i] = NULL;
+  }
+  return array;
+}
+
+// Destroy an array of n tensors, which may not have been allocated.
+static void destroy_tensor_array(Tensor *array, int64_t n) {
+  for (int64_t i = 0; array && i < n; i++) {
+    aitisa_destroy(&array[i]);
+  }
+  release(array);
+}
+
+// Implement the equation on the part of input selected by begin, size and
+// step, whose axes listed in axis are squeezed.
+static Status batch_norm_equation(const Tensor input, int *begin, int *size,
+                                  int *step, int64_t *axis, int64_t num_axis,
+                                  const Tensor scale, const Tensor bias,
+                                  const Tensor mean, const Tensor denominator,
+                                  Tensor *output) {
+  Tensor temp0 = NULL, temp1 = NULL;
+  Status status = aitisa_slice(input, begin, size, step, &temp0);
+  if (status == STATUS_SUCCESS)
+    status = aitisa_squeeze(temp0, axis, num_axis, &temp1);
+  aitisa_destroy(&temp0);
+  if (status == STATUS_SUCCESS) status = aitisa_sub(temp1, mean, &temp0);
+  aitisa_destroy(&temp1);
+  if (status == STATUS_SUCCESS) status = aitisa_div(temp0, denominator, &temp1);
+  aitisa_destroy(&temp0);
+  if (status == STATUS_SUCCESS) status = aitisa_mul(scale, temp1, &temp0);
+  aitisa_destroy(&temp1);
+  if (status == STATUS_SUCCESS) status = aitisa_add(temp0, bias, output);
+  aitisa_destroy(&temp0);
+  return status;
+}
+
 static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
                                          const Tensor bias, const Tensor mean,
                                          const Tensor denominator,
@@ -122,35 +167,33 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  if (!begin || !size || !step || !axis) {
+    release(begin);
+    release(size);
+    release(step);
+    release(axis);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
+  Status status = STATUS_SUCCESS;
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    Tensor temp1;
+    status = batch_norm_equation(input, begin, size, step, axis, num_axis,
+                                 scale, bias, mean, denominator, &temp1);
+    if (status != STATUS_SUCCESS) break;
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,7 +201,7 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    aitisa_destroy(&temp1);
     // Update begin
     begin[0]++;
   }
@@ -167,7 +210,7 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -185,28 +228,34 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    release(begin);
+    release(size);
+    release(step);
+    release(squeeze_axis);
+    release(index_recorder);
+    release(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -215,33 +264,27 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     offset_recorder[i] = offset_recorder[i + 1] * dims[i + 1];
   }
   // Implement batch norm
-  for (int64_t s = 0; s < batch_size; s++) {
+  Status status = STATUS_SUCCESS;
+  for (int64_t s = 0; s < batch_size && status == STATUS_SUCCESS; s++) {
     // Set begin
     begin[0] = (int)s;
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
+      Tensor temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      status = batch_norm_equation(input, begin, size, step, squeeze_axis,
+                                   num_saxis, scale_array[c], bias_array[c],
+                                   mean_array[c], denominator[c], &temp1);
+      if (status != STATUS_SUCCESS) break;
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
-      // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      // Destroy temp1
+      aitisa_destroy(&temp1);
     }
   }
   // Destroy parameters for slice and squeeze
@@ -251,7 +294,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -277,11 +320,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
-    // Destroy epsilon and temp tensor
+    Status status = aitisa_add(variance, eps_tensor, &temp);
     aitisa_destroy(&eps_tensor);
+    CHECK_STATUS(status);
+    status = aitisa_sqrt(temp, *denominator);
     aitisa_destroy(&temp);
+    CHECK_STATUS(status);
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
@@ -303,37 +347,38 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     }
     // Get epsilon tensor
     Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    Status status = aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
+                                &eps_tensor);
+    if (status != STATUS_SUCCESS) {
+      release(param_dims);
+      return status;
+    }
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
-    *mean_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**mean_array) * num_channels);
-    *scale_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**scale_array) * num_channels);
-    *bias_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**bias_array) * num_channels);
-    *denominator = NULL;
-    *denominator = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**denominator) * num_channels);
-    Tensor *temp = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**temp) * num_channels); 
-    Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(*var_array) * num_channels);
-    if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
-      return STATUS_ALLOC_FAILED;
-    } 
-    for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+    *mean_array = create_tensor_array(num_channels);
+    *scale_array = create_tensor_array(num_channels);
+    *bias_array = create_tensor_array(num_channels);
+    *denominator = create_tensor_array(num_channels);
+    Tensor *temp = create_tensor_array(num_channels);
+    Tensor *var_array = create_tensor_array(num_channels);
+    if (!*mean_array || !*scale_array || !*bias_array || !*denominator ||
+        !temp || !var_array) {
+      status = STATUS_ALLOC_FAILED;
+    }
+    for (uint32_t c = 0; c < num_channels && status == STATUS_SUCCESS; c++) {
+      status = aitisa_create(dtype, device, param_dims, param_ndim, NULL, 0,
+                             &((*mean_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim, NULL, 0,
+                             &((*scale_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim, NULL, 0,
+                             &((*bias_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim, NULL, 0,
+                             &(var_array[c]));
+      if (status != STATUS_SUCCESS) break;
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -354,17 +399,23 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      status = aitisa_add(var_array[c], eps_tensor, &(temp[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_sqrt(temp[c], &((*denominator)[c]));
+      if (status != STATUS_SUCCESS) break;
       aitisa_destroy(&(var_array[c]));
     }
     aitisa_destroy(&eps_tensor);
-    aitisa_default_cpu_allocator()->raw_dealloc(var_array);
     aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
+    destroy_tensor_array(var_array, num_channels);
+    destroy_tensor_array(temp, num_channels);
+    if (status != STATUS_SUCCESS) {
+      destroy_tensor_array(*mean_array, num_channels);
+      destroy_tensor_array(*scale_array, num_channels);
+      destroy_tensor_array(*bias_array, num_channels);
+      destroy_tensor_array(*denominator, num_channels);
+      return status;
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(temp);
   }
   return STATUS_SUCCESS;
 }
@@ -377,7 +428,8 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   CHECK_STATUS(batch_norm_check_parameters(input, axis, scale, bias, mean,
                                            variance, epsilon));
   // Create output
-  CHECK_STATUS(batch_norm_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(batch_norm_create_output(input, &new_tensor));
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
@@ -386,31 +438,34 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
     // Get denominator which is sqrt(variance+epsilon)
     Tensor denominator;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
-    aitisa_destroy(&denominator);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          &new_tensor);
+      aitisa_destroy(&denominator);
+    }
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, &new_tensor);
+      int64_t num_channels = aitisa_tensor_dim(input, axis);
+      destroy_tensor_array(scale_array, num_channels);
+      destroy_tensor_array(bias_array, num_channels);
+      destroy_tensor_array(mean_array, num_channels);
+      destroy_tensor_array(denominators, num_channels);
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(denominators);
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From 845e1d154db25648f78f7491628eb258c0cd9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 26/34] fix: dropout follows rates which are not whole percents

---
 src/nn/dropout.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 50412e5..d8b1318 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -6,8 +6,7 @@
 #define dropout_kernel(typename)                            \
   typename *data = (typename *)aitisa_tensor_data(*tensor); \
   for (int64_t i = 0; i < size; i++) {                      \
-    int random_num = rand() % 100 + 1;                      \
-    if (random_num <= rate_line) {                          \
+    if (rand() / (RAND_MAX + 1.0) < rate) {                 \
       data[i] = 0;                                          \
     }                                                       \
   }
@@ -18,7 +17,6 @@ static Status dropout_template(Tensor *tensor, const double rate) {
   DataType dtype = aitisa_tensor_data_type(*tensor);
   Status status = STATUS_SUCCESS;
   srand(time(NULL));
-  int rate_line = (int)(rate * 100);
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dropout_kernel);
   return status;
 }
-- 
2.43.0


From 857fd0515b68dcfe5e4ee57b31b4bfc6d9b09643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 27/34] fix: pooling computes the reach of its windows in 64
 bits

ksize * dilation and 2 * padding overflowed int: windows far larger than the
padded input were accepted, and valid ones with a large padding rejected.
---
 src/nn/pooling.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index a6818cc..8a532ee 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -38,7 +38,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (double)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -71,7 +71,8 @@ static Status pooling_double(const Tensor input, const char *mode,
   }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if((int64_t)(ksize[i]-1)*dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
       return STATUS_INVALID_ARGUMENT;
     }
   }
@@ -135,7 +136,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
       }
       int window_idx = 0;
       int hasWindow = 1;
@@ -184,12 +185,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0


From 058a49233bf8bb0d65fffbfc0b2c8dacee0cf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 28/34] fix: convolution computes the padded extent in 64 bits

2 * padding overflowed int, so the output had the wrong extents.
---
 src/nn/conv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 583e514..8b64e1e 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,7 +16,7 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
-- 
2.43.0


From c04ab48bc389e1798899ef36c1e262d1a5d9421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 29/34] fix: full fills tensors of more than 2^31 elements

---
 src/basic/factories.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -7,7 +7,7 @@ Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(new_tensor);
   aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
+  for (int64_t i = 0; i < size; ++i) {
     aitisa_tensor_set_item(new_tensor, i, &value);
   }
   *output = new_tensor;
-- 
2.43.0


From 46180eb87592c2a9e87c6eb5cfb5451b70ba60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 30/34] fix: arithmetic reaches the elements from 2^31 on

---
 src/math/binary_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index b24e4b0..63d82be 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -249,7 +249,7 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
@@ -301,7 +301,7 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
@@ -353,7 +353,7 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
@@ -439,7 +439,7 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
-- 
2.43.0


From c5803157e94df7f2b1c64bcdaf689f8a6f598fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 31/34] fix: dot sums more than 2^31 products

---
 src/math/dot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 47af7cf..095fe66 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         ((typename *)data1)[i] * ((typename *)data2)[i];   \
   }
-- 
2.43.0


From fda15448dd3042c0521d046e5b755c28df8be7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 32/34] fix: matmul takes extents of more than 2^31

---
 src/math/matmul.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 3a343de..da531da 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -24,23 +24,23 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
     }                                                                        \
   }
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
       }                                                              \
-- 
2.43.0


From 03c923c950022ce44789bef29b4b024a1b7ca943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 33/34] fix: slice writes the elements from 2^31 on

---
 src/basic/slice.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 10eecc9..7bd0661 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -72,7 +72,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
-- 
2.43.0


From b0314173bd61029b504bbca1a6784973b50a73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 34/34] fix: duplicate copies tensors with an extent of 2^31
 and more

---
 src/basic/duplicate.c | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 023614f..0de8d60 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -1,31 +1,21 @@
 #include "src/basic/duplicate.h"
-#include "src/basic/slice.h"
-#include "src/core/allocator.h"
+#include <string.h>
+#include "src/basic/factories.h"
 
 Status aitisa_duplicate(const Tensor input, Tensor *output) {
   Tensor new_tensor;
   int64_t *dims = aitisa_tensor_dims(input);
-  int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
-  int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
-  int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) {
-    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
-    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
-    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
-    return STATUS_ALLOC_FAILED;
-  }
+  int64_t ndim = aitisa_tensor_ndim(input);
   for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    size[i] = (int)(dims[i]);
-    step[i] = 1;
-  }
-  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
-  if (status == STATUS_SUCCESS) {
-    *output = new_tensor;
+    if (dims[i] <= 0) {
+      return STATUS_INVALID_ARGUMENT;
+    }
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return status;
+  DataType dtype = aitisa_tensor_data_type(input);
+  CHECK_STATUS(aitisa_create(dtype, aitisa_tensor_device(input), dims, ndim,
+                             NULL, 0, &new_tensor));
+  memcpy(aitisa_tensor_data(new_tensor), aitisa_tensor_data(input),
+         aitisa_tensor_size(input) * dtype.size);
+  *output = new_tensor;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0

