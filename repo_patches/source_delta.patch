From 8218132483eb15ca15be75c961be02f8b202b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 01/34] fix: starpu::add passes (alpha, nelems) to scal_inplace
 in the right order

add(0, src, beta, dst) scaled the first 'beta' elements by 'nelems', which is
a wrong result and a write out of bounds for a large beta.
---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From 5aa1dfec7c8f04c124fd8614d80a18b53ca80036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 02/34] fix: add_fiber applies beta when alpha is zero

dst = beta*dst + 0*src was skipped altogether unless beta happened to be one.
---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..2cc42a3 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..22fe557 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 4cec728f6fd6480a1652bde305fd827e4ea06dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 03/34] fix: hypot(0, src, 1, dst) returns the modulus of dst

---
 src/tensor/hypot.cc | 5 -----
 src/tile/hypot.cc   | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/src/tensor/hypot.cc b/src/tensor/hypot.cc
index 4b656d9..56b5f74 100644
--- a/src/tensor/hypot.cc
+++ b/src/tensor/hypot.cc
@@ -42,11 +42,6 @@ void hypot_async(T alpha, const Tensor<T> &src, T beta, const Tensor<T> &dst)
                     "src.basetile_shape[i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0 && beta == 1.)
-    {
-        return;
-    }
     // Apply per-tile hypot asynchronously as needed
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < src.grid.nelems; ++i)
diff --git a/src/tile/hypot.cc b/src/tile/hypot.cc
index 5f0f237..e9340f5 100644
--- a/src/tile/hypot.cc
+++ b/src/tile/hypot.cc
@@ -37,11 +37,6 @@ void hypot_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst)
             throw std::runtime_error("dst.shape[i] != src.shape[i]");
         }
     }
-    // Do nothing if alpha is zero and beta is one
-    if(alpha == 0.0 && beta == 1.0)
-    {
-        return;
-    }
     // Insert corresponding task
     starpu::hypot::submit<T>(src.nelems, alpha, src, beta, dst);
 }
-- 
2.43.0


From 9e24f8c29e510d9344b5df0e56fbd2f837f4fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 04/34] fix: gelutanh and its derivatives are finite for large
 finite inputs

The compensated exponent of gelutanh became inf-inf and the derivative
inf*0 once the cubic term overflowed.
---
 src/kernel/dgelutanh/cpu.cc         | 5 +++++
 src/kernel/gelutanh/cpu.cc          | 3 ++-
 src/kernel/gelutanh_backward/cpu.cc | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/kernel/dgelutanh/cpu.cc b/src/kernel/dgelutanh/cpu.cc
index 53e48d0..49ede31 100644
--- a/src/kernel/dgelutanh/cpu.cc
+++ b/src/kernel/dgelutanh/cpu.cc
@@ -55,6 +55,11 @@ void cpu(Index nelems, T *data)
         {
             data[i] = zero;
         }
+        // Avoid inf*0 for a large positive input
+        else if(expy1 == zero)
+        {
+            data[i] = one;
+        }
         else
         {
             T inv_expy1p1 = one / (expy1 + one);
diff --git a/src/kernel/gelutanh/cpu.cc b/src/kernel/gelutanh/cpu.cc
index 3b3aa90..7618bdc 100644
--- a/src/kernel/gelutanh/cpu.cc
+++ b/src/kernel/gelutanh/cpu.cc
@@ -51,7 +51,8 @@ void cpu(Index nelems, const T *src, T *dst)
         //dst[i] = z / (one+std::exp(y));
         T y1 = f4 * z * z;
         T y2 = f3 + y1;
-        T c = y1 - (y2-f3);
+        // Overflown y1 has no meaningful rounding error to compensate
+        T c = std::isinf(y1) ? T{0} : y1 - (y2-f3);
         y2 *= z;
         c *= z;
         T y3 = one + std::exp(c)*std::exp(y2);
diff --git a/src/kernel/gelutanh_backward/cpu.cc b/src/kernel/gelutanh_backward/cpu.cc
index 411cdac..14ec055 100644
--- a/src/kernel/gelutanh_backward/cpu.cc
+++ b/src/kernel/gelutanh_backward/cpu.cc
@@ -50,7 +50,12 @@ void cpu(Index nelems, const T *x, const T *dy, T *dx)
         T y1 = x[i] * (f3 + f4*z2);
         T y2 = x[i] * (f3 + f5*z2);
         T expy1 = std::exp(y1);
-        if(not std::isinf(expy1))
+        // Avoid inf*0 for a large positive input
+        if(expy1 == zero)
+        {
+            dx[i] += dy[i];
+        }
+        else if(not std::isinf(expy1))
         {
             T inv_expy1p1 = one / (expy1 + one);
             dx[i] += (one-y2*(one-inv_expy1p1)) * inv_expy1p1 * dy[i];
-- 
2.43.0


From e310e78b7e6161ae3b5e0c97dc844382f2a95200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 05/34] fix: normalize a slice of zeros without dividing zero
 by zero

---
 src/kernel/normalize/cpu.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..816bb64 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -47,7 +47,7 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
  * */
 {
     Index dst_offset = 0;
-    constexpr T one = 1;
+    constexpr T zero = 0, one = 1;
     const T invl = one / T(l);
     const T rinvl = std::sqrt(invl);
     const T reps = std::sqrt(eps);
@@ -73,8 +73,9 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
                 T tmp = std::fabs(mean) / rms;
-                // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Check if rounding errors broke theoretical invariant or if all
+                // the values were zero (tmp is undefined then)
+                if(rms == zero or tmp >= one)
                 {
                     dev = reps;
                 }
-- 
2.43.0


From f3bd57d3e83bf2ab43454055ed280f980ccf8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 06/34] fix: reject operands with different tiles before
 submitting work

addcdiv, adam_step, adamw_step, sumprod_slice and sumprod_fiber accepted
operands of different tile sizes, embedding and embedding_backward did not
check the axis, the dimension before the axis and the tiling of embeddings.
---
 src/tensor/adam_step.cc          | 17 +++++++++++++++++
 src/tensor/adamw_step.cc         | 17 +++++++++++++++++
 src/tensor/addcdiv.cc            |  8 ++++++++
 src/tensor/embedding.cc          | 15 ++++++++++++++-
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 src/tensor/sumprod_fiber.cc      |  4 ++++
 src/tensor/sumprod_slice.cc      |  4 ++++
 7 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..99ee5a4 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -41,6 +41,23 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "first_moment.basetile_shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "second_moment.basetile_shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..49cf78b 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -42,6 +42,23 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "first_moment.basetile_shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "second_moment.basetile_shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..daaad06 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -33,6 +33,14 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
 
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("nom.basetile_shape != denom.basetile_shape");
+    }
+
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("src.basetile_shape != nom.basetile_shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..7231c59 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..88acf2a 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,10 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From fb896e4ca55a6e1b11c7bd10473159d84ab55a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 07/34] fix: block_cyclic accepts scalars and rejects
 non-positive process grids

---
 src/tensor/distributions.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..cc450b5 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -31,6 +31,14 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
         throw std::runtime_error("Wrong number of dimensions");
     }
     const Index ndim = mpi_grid.size();
+    // Check mpi grid
+    for(Index i = 0; i < ndim; ++i)
+    {
+        if(mpi_grid[i] <= 0)
+        {
+            throw std::runtime_error("mpi_grid[i] <= 0");
+        }
+    }
     // Check starting and maximum ranks
     if(start_rank < 0 or start_rank >= max_rank)
     {
@@ -50,8 +58,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        int mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From e584903ccfe08afebd02d0262e2abfe6a75d1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 08/34] fix: scatter_async accepts fp64 tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From 41955ab76a95e8c18b3faab4b6998aa6767a48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 09/34] fix: subcopy of fp16 data uses the fp16 kernel

---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From 29667081b1ba7faf8e3fe2b4503dd4fac0607c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 10/34] fix: to_array refuses arrays it cannot fill instead of
 writing to a copy

---
 wrappers/python/nntile/nntile_core.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..0dfe6c0 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -167,9 +167,10 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        def("to_array", tile_to_array<T>, py::arg("array").noconvert());
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_array<T>, py::arg("tile"),
+            py::arg("array").noconvert());
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -344,7 +345,7 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        def("to_array", tensor_to_array<T>, py::arg("array").noconvert()).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -353,7 +354,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
+    m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+            py::arg("array").noconvert());
     m.def("tensor_from_array", tensor_from_array<T>);
 }
 
-- 
2.43.0


From b22bd63393e34008476d8cd3f5a48d949e248d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 11/34] fix: half precision tensors exchange data with
 numpy.float16 arrays

---
 wrappers/python/nntile/nntile_core.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 0dfe6c0..50ba322 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -23,6 +23,19 @@
 #include <cstring>
 #include <thread>
 
+// NNTile half precision numbers are numpy.float16 on the Python side
+namespace pybind11 { namespace detail {
+template<>
+struct npy_format_descriptor<nntile::fp16_t>
+{
+    static constexpr auto name = const_name("numpy.float16");
+    static pybind11::dtype dtype()
+    {
+        return pybind11::dtype("float16");
+    }
+};
+}} // namespace pybind11::detail
+
 using namespace nntile;
 namespace py = pybind11;
 
-- 
2.43.0


From d1a383fd524fe4f7982991d71ceb483731f8b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 12/34] fix: flash attention operations check their operands
 and handle partial batch and head tiles

---
 src/tensor/flash_maxsumexp.cc             |  99 +++++++++----------
 src/tensor/flash_softmax_gemm.cc          | 101 +++++++++----------
 src/tensor/flash_softmax_gemm_backward.cc | 114 +++++++++++-----------
 3 files changed, 148 insertions(+), 166 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..2084694 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -22,76 +22,65 @@ namespace nntile
 namespace tensor
 {
 
+//! Throw if traits of an operand differ from the required ones
+static
+void check_operand(const TensorTraits &traits,
+        const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape, const std::string &name)
+{
+    if(traits.shape != shape)
+    {
+        throw std::runtime_error("Incompatible shape of " + name);
+    }
+    if(traits.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Incompatible basetile_shape of " + name);
+    }
+}
+
 //! Compute max and sum of exponents of slices along given axis
 template<typename T>
 void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions of queries
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head size is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // Kernels work with square blocks of the attention matrix
+    if(Q.shape[1] % Q.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("Q.shape[1] % Q.basetile_shape[1] != 0");
+    }
+    // Check all other operands
+    const auto &s = Q.shape, &b = Q.basetile_shape;
+    check_operand(K, s, b, "K");
+    check_operand(mask, {s[1], s[1]}, {b[1], b[1]}, "mask");
+    check_operand(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]},
+            "maxsumexp");
+    check_operand(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]},
+            "tmp");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
     Index n_seq_tile = Q.basetile_shape[1];
-    Index n_batch_tile = Q.basetile_shape[2];
-    Index n_head_tile = Q.basetile_shape[3];
     for(Index i = 0; i < maxsumexp.grid.nelems; ++i)
     {
         // Destination tile on dest node must be already prepared (cleared)
         auto maxsumexp_tile_handle = maxsumexp.get_tile_handle(i);
         // Obtain indices of applicable source tiles
         auto maxsumexp_tile_index = maxsumexp.grid.linear_to_index(i);
+        // Actual number of matrices in the tile
+        auto maxsumexp_tile_traits = maxsumexp.get_tile_traits(i);
+        Index n_batch_head = maxsumexp_tile_traits.shape[2]
+            * maxsumexp_tile_traits.shape[3];
         std::vector<Index> tmp_tile_index(maxsumexp_tile_index),
             q_tile_index(maxsumexp_tile_index),
             k_tile_index(maxsumexp_tile_index),
@@ -110,7 +99,7 @@ void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
             auto mask_tile_handle = mask.get_tile_handle(mask_tile_index);
             // Insert tasks
             starpu::flash_maxsumexp::submit<T>(n_seq_tile, head_size,
-                    n_batch_tile*n_head_tile, k_tile_handle, q_tile_handle,
+                    n_batch_head, k_tile_handle, q_tile_handle,
                     mask_tile_handle, maxsumexp_tile_handle, tmp_tile_handle,
                     redux=0, fp32_fast_tf32=fp32_fast_tf32);
         }
diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..d375ede 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -25,76 +25,67 @@ namespace nntile
 namespace tensor
 {
 
+//! Throw if traits of an operand differ from the required ones
+static
+void check_operand(const TensorTraits &traits,
+        const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape, const std::string &name)
+{
+    if(traits.shape != shape)
+    {
+        throw std::runtime_error("Incompatible shape of " + name);
+    }
+    if(traits.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Incompatible basetile_shape of " + name);
+    }
+}
+
 template<typename T>
 void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &V, const Tensor<bool_t> &mask,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions of queries
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head size is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // Kernels work with square blocks of the attention matrix
+    if(Q.shape[1] % Q.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("Q.shape[1] % Q.basetile_shape[1] != 0");
+    }
+    // Check all other operands
+    const auto &s = Q.shape, &b = Q.basetile_shape;
+    check_operand(K, s, b, "K");
+    check_operand(V, s, b, "V");
+    check_operand(mask, {s[1], s[1]}, {b[1], b[1]}, "mask");
+    check_operand(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]},
+            "maxsumexp");
+    check_operand(dst, s, b, "dst");
+    check_operand(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]},
+            "tmp");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
     Index n_seq_tile = Q.basetile_shape[1];
-    Index n_batch_tile = Q.basetile_shape[2];
-    Index n_head_tile = Q.basetile_shape[3];
     for(Index i = 0; i < maxsumexp.grid.nelems; ++i)
     {
         // Destination tile on dest node must be already prepared (cleared)
         auto maxsumexp_tile_handle = maxsumexp.get_tile_handle(i);
         // Obtain indices of applicable source tiles
         auto maxsumexp_tile_index = maxsumexp.grid.linear_to_index(i);
+        // Actual number of matrices in the tile
+        auto maxsumexp_tile_traits = maxsumexp.get_tile_traits(i);
+        Index n_batch_head = maxsumexp_tile_traits.shape[2]
+            * maxsumexp_tile_traits.shape[3];
         std::vector<Index> tmp_tile_index(maxsumexp_tile_index),
             q_tile_index(maxsumexp_tile_index),
             k_tile_index(maxsumexp_tile_index),
@@ -120,7 +111,7 @@ void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
             auto mask_tile_handle = mask.get_tile_handle(mask_tile_index);
             // Insert a fused task
             starpu::flash_softmax_gemm::submit<T>(
-                    n_seq_tile, head_size, n_batch_tile*n_head_tile,
+                    n_seq_tile, head_size, n_batch_head,
                     k_tile_handle, q_tile_handle, mask_tile_handle,
                     maxsumexp_tile_handle, v_tile_handle, dst_tile_handle,
                     tmp_tile_handle, redux=0, fp32_fast_tf32=fp32_fast_tf32);
diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..d641f5a 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -23,6 +23,22 @@ namespace nntile
 namespace tensor
 {
 
+//! Throw if traits of an operand differ from the required ones
+static
+void check_operand(const TensorTraits &traits,
+        const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape, const std::string &name)
+{
+    if(traits.shape != shape)
+    {
+        throw std::runtime_error("Incompatible shape of " + name);
+    }
+    if(traits.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Incompatible basetile_shape of " + name);
+    }
+}
+
 template<typename T>
 void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &K, const Tensor<T> &dK, const Tensor<T> &V,
@@ -31,64 +47,42 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions of queries
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head size is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // Kernels work with square blocks of the attention matrix
+    if(Q.shape[1] % Q.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("Q.shape[1] % Q.basetile_shape[1] != 0");
+    }
+    // Check all other operands
+    const auto &s = Q.shape, &b = Q.basetile_shape;
+    check_operand(dQ, s, b, "dQ");
+    check_operand(K, s, b, "K");
+    check_operand(dK, s, b, "dK");
+    check_operand(V, s, b, "V");
+    check_operand(dV, s, b, "dV");
+    check_operand(mask, {s[1], s[1]}, {b[1], b[1]}, "mask");
+    check_operand(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]},
+            "maxsumexp");
+    check_operand(dst_grad, s, b, "dst_grad");
+    check_operand(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]},
+            "tmp");
+    check_operand(tmp_grad, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]},
+            "tmp_grad");
+    check_operand(tmp_sumprod_slice, {s[1], s[2], s[3]}, {b[1], b[2], b[3]},
+            "tmp_sumprod_slice");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
     Index n_seq_tile = Q.basetile_shape[1];
-    Index n_batch_tile = Q.basetile_shape[2];
-    Index n_head_tile = Q.basetile_shape[3];
     // Cycle for all tiles of dV tensor
     for(Index i = 0; i < dV.grid.nelems; ++i)
     {
@@ -96,6 +90,10 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         auto dK_tile_handle = dK.get_tile_handle(i);
         auto dV_tile_handle = dV.get_tile_handle(i);
         auto dV_tile_index = dV.grid.linear_to_index(i);
+        // Actual number of matrices in the tile
+        auto dV_tile_traits = dV.get_tile_traits(i);
+        Index n_batch_head = dV_tile_traits.shape[2]
+            * dV_tile_traits.shape[3];
         // Indices of all required tensors
         std::vector<Index> tmp_tile_index(dV_tile_index),
             q_tile_index(dV_tile_index), dq_tile_index(dV_tile_index),
@@ -139,7 +137,7 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
                     maxsumexp_tile_index);
             // Insert a fused task
             starpu::flash_softmax_gemm_backward_sumprod_slice::submit<T>(
-                    n_seq_tile, head_size, n_batch_tile*n_head_tile,
+                    n_seq_tile, head_size, n_batch_head,
                     k_tile_handle, q_tile_handle, mask_tile_handle,
                     maxsumexp_tile_handle, dst_grad_tile_handle, v_tile_handle,
                     dV_tile_handle, tmp_sumprod_slice_tile_handle,
@@ -152,6 +150,10 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
     {
         auto dK_tile_handle = dK.get_tile_handle(i);
         auto dV_tile_index = dV.grid.linear_to_index(i);
+        // Actual number of matrices in the tile
+        auto dV_tile_traits = dV.get_tile_traits(i);
+        Index n_batch_head = dV_tile_traits.shape[2]
+            * dV_tile_traits.shape[3];
         // Indices of all required tensors
         std::vector<Index> tmp_tile_index(dV_tile_index),
             q_tile_index(dV_tile_index), dq_tile_index(dV_tile_index),
@@ -191,7 +193,7 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
             auto dQ_tile_handle = dQ.get_tile_handle(dq_tile_index);
             // Insert a fused task
             starpu::flash_softmax_gemm_backward_dq_dk::submit<T>(
-                    n_seq_tile, head_size, n_batch_tile*n_head_tile,
+                    n_seq_tile, head_size, n_batch_head,
                     k_tile_handle, q_tile_handle, mask_tile_handle,
                     maxsumexp_tile_handle, dst_grad_tile_handle, v_tile_handle,
                     tmp_sumprod_slice_tile_handle, dQ_tile_handle, dK_tile_handle,
-- 
2.43.0


From 99a2f8806365a6dbfa0ecb479dc493ffe29e6452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 13/34] fix: mask_scalar rejects a negative number of batch
 dimensions

---
 src/tensor/mask_scalar.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tensor/mask_scalar.cc b/src/tensor/mask_scalar.cc
index f804b23..beee18c 100644
--- a/src/tensor/mask_scalar.cc
+++ b/src/tensor/mask_scalar.cc
@@ -28,6 +28,10 @@ template<typename T>
 void mask_scalar_async(const Tensor<bool_t> &mask, T val, const Tensor<T> &A,
         Index batch_ndim)
 {
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(mask.ndim != A.ndim-batch_ndim)
     {
         throw std::runtime_error("mask.ndim != A.ndim-batch_ndim");
-- 
2.43.0


From c5b935be601b353cada324abe9de8f527720f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 14/34] fix: mask_scalar checks shapes of tiles

---
 src/tile/mask_scalar.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..7d32c7b 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("Scalar input makes no sense");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(A.shape[i] != mask.shape[i])
+        {
+            throw std::runtime_error("A.shape[i] != mask.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
-- 
2.43.0


From 815ca6ae118b49662af92c0a3a75bd699525f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 15/34] fix: randn never returns infinity

---
 src/kernel/randn/cpu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..7840531 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -29,6 +29,11 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
     fp32_t t1 = CORE_slaran(&seed);
+    // Logarithm of zero would turn into infinity
+    if(t1 == 0)
+    {
+        t1 = RndF_Mul;
+    }
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -39,6 +44,11 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
     fp64_t t1 = CORE_dlaran(&seed);
+    // Logarithm of zero would turn into infinity
+    if(t1 == 0)
+    {
+        t1 = RndD_Mul;
+    }
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


From 14221b6182aa83e53fefc69ac61891d55535b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 16/34] fix: tile::sqrt and tile::gelutanh check shapes of
 tiles

---
 src/tile/gelutanh.cc | 7 ++++++-
 src/tile/sqrt.cc     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From 51cd6efb881426154a302d2c341c266ddcb978a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 17/34] fix: Add layer writes only requested gradients

---
 wrappers/python/nntile/layer/add.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/layer/add.py b/wrappers/python/nntile/layer/add.py
index cb5a01c..c480203 100644
--- a/wrappers/python/nntile/layer/add.py
+++ b/wrappers/python/nntile/layer/add.py
@@ -45,10 +45,12 @@ class Add(BaseLayer):
         self.res.value.wont_use()
     
     def backward_async(self):
-        add_async(1, self.res.grad, 1, self.x.grad)
-        add_async(1, self.res.grad, 1, self.y.grad)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.res.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            add_async(1, self.res.grad, 1, self.y.grad)
+            self.y.grad.wont_use()
         self.res.grad.wont_use()
 
     def unregister(self):
-- 
2.43.0


From 09a174e04c792395d763468bfadfe8bd37172785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 18/34] fix: AddSlice layer writes only requested gradients

---
 wrappers/python/nntile/layer/add_slice.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wrappers/python/nntile/layer/add_slice.py b/wrappers/python/nntile/layer/add_slice.py
index 1b28202..f909f3f 100644
--- a/wrappers/python/nntile/layer/add_slice.py
+++ b/wrappers/python/nntile/layer/add_slice.py
@@ -24,7 +24,8 @@ class AddSlice(BaseLayer):
         # Set up local named parameters
         self.x = x
         self.y = y
-        self.y.grad.set_reduction_add()
+        if self.y.grad is not None:
+            self.y.grad.set_reduction_add()
         self.u = u
         self.axis = axis
         if redux:
@@ -43,11 +44,13 @@ class AddSlice(BaseLayer):
         self.u.value.wont_use()
 
     def backward_async(self):
-        add_async(1, self.u.grad, 1, self.x.grad)
-        sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
-                redux=self.redux)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.u.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
+                    redux=self.redux)
+            self.y.grad.wont_use()
         self.u.grad.wont_use()
         
     # Simple generator for the add_slice layer
-- 
2.43.0


From a1bcc23fcbd22db2d2bca9033b7199fc89ffd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 19/34] fix: Embedding layer writes its gradient only when
 requested

---
 wrappers/python/nntile/layer/embedding.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wrappers/python/nntile/layer/embedding.py b/wrappers/python/nntile/layer/embedding.py
index f53eead..dc46791 100644
--- a/wrappers/python/nntile/layer/embedding.py
+++ b/wrappers/python/nntile/layer/embedding.py
@@ -79,11 +79,13 @@ class Embedding(BaseLayer):
 
     # Backward propagation of the embedding layer
     def backward_async(self):
-        # redux=1 leads to performance loss, as each embedding_backward is a
-        # sparse operation, but reduction plays with a full dense vocabulary
-        embedding_backward_async(self.x, self.y.grad, self.w.grad, self.axis, \
-                redux=0)
+        if self.w.grad_required:
+            # redux=1 leads to performance loss, as each embedding_backward is
+            # a sparse operation, but reduction plays with a full dense
+            # vocabulary
+            embedding_backward_async(self.x, self.y.grad, self.w.grad, \
+                    self.axis, redux=0)
+            self.w.grad.wont_use()
         self.x.wont_use()
         self.y.grad.wont_use()
-        self.w.grad.wont_use()
 
-- 
2.43.0


From 4168d64fbc8e9288666362a0545edf71685cf619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 20/34] fix: GAP and Mixer layers accumulate only requested
 gradients

---
 wrappers/python/nntile/layer/mixer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..fab8d34 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -65,9 +65,10 @@ class GAP(BaseLayer):
 
 
     def backward_async(self):
-        alpha = 1 / (self.x.value.shape[0])
-        transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        if self.x.grad_required:
+            alpha = 1 / (self.x.value.shape[0])
+            transpose_async(1.0, self.y.grad, self.yT.grad, 1)
+            add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
@@ -224,4 +225,5 @@ class Mixer(BaseLayer):
         add_async(1.0, self.mlp_2.linear_2.y.grad, 1.0, self.mlp_1.y.grad)
         self.mlp_1.backward_async()
         self.norm_1.backward_async()
-        add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
+        if self.x.grad_required:
+            add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
-- 
2.43.0


From 3e690ad608e15e6ce761442a4094461e67966539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 21/34] fix: LayerNorm computes only requested gradients

---
 wrappers/python/nntile/layer/layer_norm.py | 25 +++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/wrappers/python/nntile/layer/layer_norm.py b/wrappers/python/nntile/layer/layer_norm.py
index bc811fc..31dcb70 100644
--- a/wrappers/python/nntile/layer/layer_norm.py
+++ b/wrappers/python/nntile/layer/layer_norm.py
@@ -169,15 +169,24 @@ class LayerNorm(BaseLayer):
     # Backward propagation of the normalization layer
     def backward_async(self):
         # Accumulate gradient over beta
-        sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, self.axis, 0,
-                redux=self.redux)
-        # d_beta can be offloaded from GPU
-        self.beta.grad.wont_use()
+        if self.beta.grad_required:
+            sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, self.axis, \
+                    0, redux=self.redux)
+            # d_beta can be offloaded from GPU
+            self.beta.grad.wont_use()
         # Accumulate gradient over gamma
-        sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
-                self.gamma.grad, self.axis, redux=self.redux)
-        # d_gamma can be offloaded from GPU
-        self.gamma.grad.wont_use()
+        if self.gamma.grad_required:
+            sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
+                    self.gamma.grad, self.axis, redux=self.redux)
+            # d_gamma can be offloaded from GPU
+            self.gamma.grad.wont_use()
+        if not self.x.grad_required:
+            # Gradient over X is not needed, temporaries can be deleted
+            self.y.grad.wont_use()
+            self.mean.invalidate_submit()
+            self.inv_stddev.invalidate_submit()
+            self.tmp_y_value.invalidate_submit()
+            return
         # Define gradient over normalized input
         prod_fiber3_async(self.gamma.value, 1.0, self.y.grad, \
                 self.tmp_y_grad, self.axis)
-- 
2.43.0


From 1b52edaf1d1d3afe6810d84074715fbc092168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 22/34] fix: attention layers accept inputs without gradients

---
 wrappers/python/nntile/layer/attention.py       | 17 ++++++++++-------
 wrappers/python/nntile/layer/flash_attention.py | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/wrappers/python/nntile/layer/attention.py b/wrappers/python/nntile/layer/attention.py
index c6662f4..a16515a 100644
--- a/wrappers/python/nntile/layer/attention.py
+++ b/wrappers/python/nntile/layer/attention.py
@@ -86,11 +86,14 @@ class Attention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -689,7 +692,8 @@ class Attention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad_required:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -735,7 +739,8 @@ class Attention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad_required:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -781,8 +786,6 @@ class Attention(BaseLayer):
             self.x_q.grad.wont_use()
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
-        # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
diff --git a/wrappers/python/nntile/layer/flash_attention.py b/wrappers/python/nntile/layer/flash_attention.py
index 2f1ac31..2d04260 100644
--- a/wrappers/python/nntile/layer/flash_attention.py
+++ b/wrappers/python/nntile/layer/flash_attention.py
@@ -89,11 +89,14 @@ class FlashAttention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -680,7 +683,8 @@ class FlashAttention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad_required:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -726,7 +730,8 @@ class FlashAttention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad_required:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -772,8 +777,6 @@ class FlashAttention(BaseLayer):
             self.x_q.grad.wont_use()
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
-        # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
-- 
2.43.0


From 688725c0122771c4dca01c7f9c03366b7a926391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 23/34] fix: CrossEntropy without a gradient

---
 wrappers/python/nntile/loss/crossentropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..6ecba44 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -93,7 +93,8 @@ class CrossEntropy:
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
+        if self.model_output.grad_required is True:
+            self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From c8796b3c1618691c8454119ede8361434931607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 24/34] fix: bias correction of Adam with amsgrad

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From f30136146281863c4772b1657fef094e98535f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 25/34] fix: Adam.save_state stores every maximum of second
 moments

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..2af365d 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -112,8 +112,8 @@ class Adam:
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
-            m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
-            self.max_second_moments[i].to_array(m_s_m)
+            m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
+            m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
-- 
2.43.0


From 116b4a75b2393e6db47f98b8711e790d4e3ac4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 26/34] fix: FusedAdam restores the state it saved

---
 wrappers/python/nntile/optimizer/adam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 2af365d..44967b9 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
@@ -255,6 +255,8 @@ class FusedAdam:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            self.first_moments[i].from_array(first_moments[i].to(torch.float32))
-            self.second_moments[i].from_array(second_moments[i].to(torch.float32))
+            self.first_moments[i].from_array(first_moments[i] \
+                    .to(torch.from_numpy(np.zeros(0, self.dtype)).dtype))
+            self.second_moments[i].from_array(second_moments[i] \
+                    .to(torch.from_numpy(np.zeros(0, self.dtype)).dtype))
 
-- 
2.43.0


From 5ccb4347c0ba0b3c4deef5547c1784bf997f69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 27/34] fix: FusedAdamW restores double precision moments
 exactly

---
 wrappers/python/nntile/optimizer/adamw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 6621970..7906536 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -120,10 +120,12 @@ class FusedAdamW:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            f = first_moments[i].to(torch.float32)
+            f = first_moments[i].to(torch.from_numpy( \
+                    np.zeros(0, self.dtype)).dtype)
             self.first_moments[i].from_array(f)
             del f
-            s = second_moments[i].to(torch.float32)
+            s = second_moments[i].to(torch.from_numpy( \
+                    np.zeros(0, self.dtype)).dtype)
             self.second_moments[i].from_array(s)
             del s
         del stored_states, first_moments, second_moments
-- 
2.43.0


From 373546f6782b4830ee7c310aef1e76b5d60d8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 28/34] fix: blocking forward and backward of layers

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From dd1dabbdcaf3dcd1a30669668faff40d40c51fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 29/34] fix: BaseModel.append adds tensors rather than lists

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From ab5b6c3ea350e80e3e60ccdb40dd2e41266468c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 30/34] fix: MlpMixer transposes a square initial weight

---
 wrappers/python/nntile/model/mlp_mixer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..5a096a8 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,9 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters())):
+            # The initial linear layer multiplies from the right
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +129,9 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, torch_mlp_mixer.parameters())):
+                # The initial linear layer multiplies from the right
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From fd150afb4d370e337631cf8af3c01f96ef4a1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 31/34] fix: Pipeline reads the loss in double precision

---
 wrappers/python/nntile/pipeline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/pipeline.py b/wrappers/python/nntile/pipeline.py
index 59d98fd..536ca4a 100644
--- a/wrappers/python/nntile/pipeline.py
+++ b/wrappers/python/nntile/pipeline.py
@@ -13,7 +13,7 @@
 # @date 2023-09-20
 
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
-        copy_async, axpy_async, clear_async
+        copy_async, axpy_async, clear_async, Tensor_fp64
 from nntile.layer.base_layer import BaseLayer
 from nntile.model.base_model import BaseModel
 import numpy as np
@@ -80,7 +80,10 @@ class Pipeline(object):
                     if t.grad_required:
                         t.grad.wont_use()
                 # Limit parallelism through value of loss
-                loss_np = np.zeros((1,), dtype=np.float32, order="F")
+                loss_dtype = np.float32
+                if type(self.loss.val) is Tensor_fp64:
+                    loss_dtype = np.float64
+                loss_np = np.zeros((1,), dtype=loss_dtype, order="F")
                 self.loss.get_val(loss_np)
                 self.loss_hist.append(loss_np[0])
                 # print("Loss in {} epoch = {}".format(i_epoch, loss_np[0]))
-- 
2.43.0


From 92dff3da5fad60ca7ceca0bed425f073820555e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 32/34] fix: Frob loss works with Pipeline

---
 wrappers/python/nntile/loss/frob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..253f984 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,12 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
+    def get_grad(self, grad_np):
+        self.x.grad.to_array(grad_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From ab2c7b8678232ec174eb5b96dec1f0b90e69906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 33/34] fix: Config shuts StarPU down only once

---
 include/nntile/starpu/config.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..6b465db 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -57,6 +57,7 @@ namespace starpu
 class Config: public starpu_conf
 {
     int cublas;
+    bool running = false;
 public:
     explicit Config(int ncpus_=-1, int ncuda_=-1, int cublas_=-1)
     {
@@ -86,6 +87,7 @@ public:
         }
         else
         {
+            running = true;
             int ncpus_ = starpu_worker_get_count_by_type(STARPU_CPU_WORKER);
             int ncuda_ = starpu_worker_get_count_by_type(STARPU_CUDA_WORKER);
             std::cout << "Initialized NCPU=" << ncpus_ << " NCUDA=" << ncuda_
@@ -105,6 +107,12 @@ public:
     }
     void shutdown()
     {
+        // StarPU shall be shut down only once
+        if(not running)
+        {
+            return;
+        }
+        running = false;
 #ifdef NNTILE_USE_CUDA
         if(cublas != 0)
         {
-- 
2.43.0


From 40ed0079cf6a00967047116d417eb3333733f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:12 +0000
Subject: [PATCH 34/34] fix: tensors may be released after StarPU is shut down

---
 include/nntile/starpu/config.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 6b465db..2e74a17 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -178,9 +178,20 @@ class HandleLocalData;
 // the data handle automatically at the end of lifetime.
 class Handle
 {
+    // Let the handle be unregistered after StarPU is shut down
+    static void _detach(starpu_data_handle_t ptr)
+    {
+        // There are no tasks to wait for after the shutdown, but unregistering
+        // may still try to submit a task for an implicit data dependency
+        if(not starpu_is_initialized())
+        {
+            starpu_data_set_sequential_consistency_flag(ptr, 0);
+        }
+    }
     // Different deleters for the handle
     static void _deleter(starpu_data_handle_t ptr)
     {
+        _detach(ptr);
         // Unregister data and bring back result
         // All the tasks using given starpu data handle shall be finished
         // before unregistering the handle
@@ -189,6 +200,7 @@ class Handle
     }
     static void _deleter_no_coherency(starpu_data_handle_t ptr)
     {
+        _detach(ptr);
         // Unregister data without bringing back result
         // All the tasks using given starpu data handle shall be finished
         // before unregistering the handle
@@ -197,6 +209,7 @@ class Handle
     }
     static void _deleter_temporary(starpu_data_handle_t ptr)
     {
+        _detach(ptr);
         // Lazily unregister data as it is defined as temporary and may still
         // be in use. This shall only appear in use for data, allocated by
         // starpu as it will be deallocated during actual unregistering and at
-- 
2.43.0

