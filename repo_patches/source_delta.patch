From 7d7dfa456b847549d1b69c0dc63d6d0c5398f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/59] fix: guess a flat shape for data offered to a tensor of
 undefined shape

loosely_guess_shape indexed an empty dimension list (out of bounds write) when
the allowed shape was undefined, e.g. constant::get(data, tensorshape()).
---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..7e146fe 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -294,6 +294,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		}
 		return bestshape;
 	}
+	// undefined shape accepts data as a flat list (see guess_shape)
+	if (false == allowed_shape_.is_part_defined())
+	{
+		return tensorshape({ndata});
+	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
-- 
2.43.0


From 7b3d303786a9e6cc821e1b5c08ad8740bbb3c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 02/59] fix: accept serialized tensors whose allowed shape has
 another rank

A tensor of undefined (or differently ranked but compatible) allowed shape can be
allocated and serialized, but reading it back failed an assertion. Compatibility of
the two stored shapes is what matters and is checked right below.
---
 app/tenncor/src/tensor/tensor.ipp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 7e146fe..137cc71 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -517,8 +517,6 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
 	std::string protostr = other.data();
 	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
 	allowed_shape_ = tensorshape(allow);
-- 
2.43.0


From 9499a7a4912e6cc9f50e6b45911f0b96d0a4c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 03/59] fix: reject serialized tensors whose data does not fill
 their shape

from_proto copied however many bytes the message held into a buffer sized by its
shape (heap overflow, or uninitialised elements when too short), and replaced the
allowed shape even when it rejected the message.
---
 app/tenncor/src/tensor/tensor.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 137cc71..f7f695b 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -519,13 +519,15 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 	const char* protoraw = protostr.c_str();
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allowed_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	// sanity check before changing anything, be less stringent, since this may represent some less evident issue
+	if (false == temp_alloc_shape.is_compatible_with(temp_allowed_shape) ||
+		false == temp_alloc_shape.is_fully_defined() ||
+		temp_alloc_shape.n_elems() * sizeof(T) != protostr.size()) return false;
 
 	deallocate();
+	allowed_shape_ = temp_allowed_shape;
 	alloc_shape_ = temp_alloc_shape;
 	assert(allocate());
 
-- 
2.43.0


From 595239de49142339cdb921e59a65e8824577dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 04/59] fix: give copied and moved nodes an id of their own

The id is documented to be unique, but nodes with an implicit copy or move
constructor (variables) copied the id of their source.
---
 app/tenncor/include/graph/react/identifiable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/app/tenncor/include/graph/react/identifiable.hpp b/app/tenncor/include/graph/react/identifiable.hpp
index 678a0ff..5bb081f 100644
--- a/app/tenncor/include/graph/react/identifiable.hpp
+++ b/app/tenncor/include/graph/react/identifiable.hpp
@@ -26,6 +26,13 @@ namespace nnet
 class identifiable
 {
 public:
+	identifiable (void) {}
+
+	//! copies and moves are distinct objects: they do not take over the id
+	identifiable (const identifiable&) {}
+
+	identifiable (identifiable&&) {}
+
 	virtual ~identifiable (void) {}
 
 	//! get the unique hash value
-- 
2.43.0


From e8aaeaaaba93a8fd9534dbd467f28f36c987d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 05/59] fix: do not share conditional nodes between scalar-left
 and scalar-right forms

---
 app/tenncor/src/graph/operations/elementary.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..3c742d5 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1101,7 +1101,8 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	// operand order matters, so scalars on the left must not share nodes with scalars on the right
+	std::string opname = nnutils::formatter() << a << "_conditional_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From 64f42a3df573ce3e74843d1357cd51cf49b0e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 06/59] fix: format scalars with full precision so that
 operations by close scalars are not shared

---
 app/tenncor/src/utils/utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..77ff1a3 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 
 #include "utils/utils.hpp"
 
@@ -7,7 +8,12 @@
 namespace nnutils
 {
 
-formatter::formatter (void) {}
+formatter::formatter (void)
+{
+	// nodes are shared by the name of their operation,
+	// so distinct scalars must not be formatted alike
+	stream_.precision(std::numeric_limits<double>::max_digits10);
+}
 
 formatter::~formatter (void) {}
 
-- 
2.43.0


From 6ed422bcd5e5e72d63d03551949b18aa1aa2ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 07/59] fix: unary plus of a node is its absolute value, as for
 constants

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 3c742d5..18948d4 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -461,12 +461,16 @@ varptr<T> operator + (const varptr<T> a)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		std::transform(src[0], src[0] + n_elems, dest,
-		[](const T data) { return +data; });
+		[](const T data) { return std::abs(data); });
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// |f(x)|' = f'(x) * sign(f(x))
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return +grad;
+		varptr<T> positive = conditional<T>(a, (T)0,
+		[](T left, T right) { return left >= right; }, "nonnegative");
+		return grad * ((T)2 * positive - (T)1);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 65fcfd44a35144a293d8b7fb8684b3dced723055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 08/59] fix: axial operations along axis 0 of tensors whose
 first two dimensions are equal read past the smaller operand

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 18948d4..201a876 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -137,7 +137,7 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
+				if (axis == 0 && ilist.size() < olist.size())
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					if (ilist[axis] != olist[axis+1])
-- 
2.43.0


From b1a4e741b573d719d24ce47c1236d03af127fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 09/59] fix: the index of an extremum over a whole tensor is a
 scalar

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..5496dd0 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -423,10 +423,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From d73644f51f6c8be6ab3de00056c41d5c993731a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 10/59] fix: reduce_mean of a missing operand or along a
 dimension beyond the rank

---
 app/tenncor/src/graph/operations/transform.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 5496dd0..3e06c37 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -330,13 +330,15 @@ varptr<T> reduce_sum (const varptr<T> a, optional<size_t> dimension)
 template <typename T>
 varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 {
+	if (nullptr == a.get()) return nullptr;
 	varptr<T> denom;
 	if (dimension)
 	{
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			// dimensions beyond the rank are of size 1
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From 65cf22d4fd8ea03c1398433d682d5f1039ba39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 11/59] fix: transpose along dimensions beyond the rank of the
 operand

---
 .../src/graph/operations/transform.ipp        | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 3e06c37..943ed80 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,12 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
-		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		// flat_idx ignores coordinates of dimensions src does not have (they are always 0)
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			std::vector<size_t> coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From d2119a96cf22737be11601da45e8d5f2f47398a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 12/59] fix: extend along a dimension beyond the rank of the
 operand read past its shape

---
 app/tenncor/src/graph/operations/transform.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 943ed80..3bdde6a 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -158,8 +158,8 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
-		std::vector<size_t> coords;
+		// dimensions beyond the rank are of size 1
+		size_t dim = index < shape.ins_[0].rank() ? shape.ins_[0].as_list()[index] : 1;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			std::vector<size_t> coords = shape.outs_.coordinate_from_idx(i);
-- 
2.43.0


From b5dce3b638db6f34dbd48daa183072706f988687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 13/59] fix: flip along a dimension beyond the rank of the
 operand wrote past its coordinates

---
 app/tenncor/src/graph/operations/transform.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 3bdde6a..c771b9b 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -475,7 +475,11 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
-				coord[d] = outlist[d] - coord[d] - 1;
+				// dimensions beyond the rank are of size 1
+				if (d < coord.size())
+				{
+					coord[d] = outlist[d] - coord[d] - 1;
+				}
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
 		}
-- 
2.43.0


From a0aeead63b2f232256968835a045ed5868402e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 14/59] fix: 2-d cross correlation slides the filter over its
 operand

---
 .../src/graph/operations/transform.ipp        | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index c771b9b..4c9caaa 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -506,10 +506,19 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	immutable<T>* cv = immutable<T>::get(std::vector<inode<T>*>{a, filter},
 	[dims](std::vector<tensorshape> shapes) -> tensorshape
 	{
+		shapes[0].assert_is_fully_defined();
+		shapes[1].assert_is_fully_defined();
 		std::vector<size_t> outshape = shapes[0].as_list();
 		std::vector<size_t> filtshape = shapes[1].as_list();
-		outshape[dims.first] -= filtshape[dims.first] + 1;
-		outshape[dims.second] -= filtshape[dims.second] + 1;
+		for (size_t d : {dims.first, dims.second})
+		{
+			if (d >= outshape.size() || d >= filtshape.size() || filtshape[d] > outshape[d])
+			{
+				throw std::logic_error(nnutils::formatter()
+				<< "filter does not fit in operand along dimension " << d);
+			}
+			outshape[d] -= filtshape[d] - 1;
+		}
 		return outshape;
 	},
 	new transfer_func<T>(
@@ -517,24 +526,24 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		assert(2 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		std::vector<size_t> outlist = shape.outs_.as_list();
-		std::vector<size_t> inlist = shape.ins_[0].as_list();
-		size_t firstn = inlist[dims.first] - outlist[dims.first];
-		size_t secondn = inlist[dims.second] - outlist[dims.second];
-		std::vector<size_t> coord;
+		std::vector<size_t> filtlist = shape.ins_[1].as_list();
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			dest[i] = 0;
-			coord = shape.outs_.coordinate_from_idx(i);
-			for (size_t j = 0; j < firstn; j++)
+			std::vector<size_t> outcoord = shape.outs_.coordinate_from_idx(i);
+			std::vector<size_t> coord = outcoord;
+			std::vector<size_t> filtcoord(filtlist.size(), 0);
+			for (size_t j = 0; j < filtlist[dims.first]; j++)
 			{
-				for (size_t k = 0; k < secondn; k++)
+				for (size_t k = 0; k < filtlist[dims.second]; k++)
 				{
-					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[0][k * firstn + j];
-
-					coord[dims.second]++;
+					coord[dims.first] = outcoord[dims.first] + j;
+					coord[dims.second] = outcoord[dims.second] + k;
+					filtcoord[dims.first] = j;
+					filtcoord[dims.second] = k;
+					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] *
+						src[1][shape.ins_[1].flat_idx(filtcoord)];
 				}
-				coord[dims.first]++;
 			}
 		}
 	}),
-- 
2.43.0


From 02c5f599aa71604af52759b8d319acc9d3c249bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 15/59] fix: matmul of a matrix with a tensor of several
 matrices wrote past its result

---
 app/tenncor/src/graph/operations/matmul.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..2ec5aff 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,11 +205,14 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
+	}
+	if (std::max(rank1, rank2) > 2)
+	{
 		// check that remaining shape values are ones,
 		// otherwise one shape is larger than the other
 		auto it = rank1 > rank2 ? al.begin() : bl.begin();
 		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
+		if (!std::all_of(it + std::max<size_t>(minend, 2), et, [](size_t e) { return e == 1; }))
 		{
 			std::stringstream ss;
 			ss << "attempting to matrix multiple different sized shapes ";
-- 
2.43.0


From 032a1e68d3779fa6c116a316ceb43423246140d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 16/59] fix: a node whose update failed was not updated again

---
 app/tenncor/src/graph/connector/iconnector.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..fc33c87 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -419,10 +419,11 @@ struct iconnector<T>::graph_manager
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
 			updates_.pop();
+			// forget the update before it is made, since updater can throw
+			update_map_.erase(iconn);
 			updater();
 			iconn->notify(UPDATE);
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
-- 
2.43.0


From 253c29ff010e75579e8ebf03ca078d42b6250c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 17/59] fix: copied and moved nodes kept depth 0 and so were
 updated before their arguments

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index fc33c87..92924f2 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -298,6 +298,7 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -308,6 +309,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
-- 
2.43.0


From 6d8e179e27b209a4f5eeb7f2bd5d6b62dd93e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 18/59] fix: copies of a node whose update is pending were
 never updated

---
 app/tenncor/src/graph/connector/iconnector.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 92924f2..01009f2 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -304,6 +304,11 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 	// this copies other's dependencies so, this and other share a graph
 	if (g_man_) g_man_->suicide(this);
 	g_man_ = graph_manager::get(const_cast<iconnector<T>*>(&other), this);
+	// other's data is outdated, so is the copy of it
+	if (g_man_->is_pending(&other))
+	{
+		g_man_->add_update(this, [this] { this->update(std::unordered_set<size_t>{}); });
+	}
 }
 
 template <typename T>
@@ -318,6 +323,11 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 		g_man_->suicide(this);
 	}
 	g_man_ = graph_manager::get(&other, this);
+	// other's data is outdated, so it is after the move
+	if (g_man_->is_pending(&other))
+	{
+		g_man_->add_update(this, [this] { this->update(std::unordered_set<size_t>{}); });
+	}
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -413,6 +423,11 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
+	bool is_pending (const iconnector<T>* user) const
+	{
+		return update_map_.end() != update_map_.find(const_cast<iconnector<T>*>(user));
+	}
+
 	void update (void)
 	{
 		// todo: add multithreading
-- 
2.43.0


From c064236a18fd04b4d459236ad7a032366993721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 19/59] fix: nodes dying with a pending update were still
 updated

---
 .../src/graph/connector/iconnector.ipp        | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 01009f2..19f74b1 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -392,7 +392,25 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
-		if (users_.empty()) delete this;
+		if (users_.empty())
+		{
+			delete this;
+			return;
+		}
+		// user is leaving (or dying), it can no longer be updated here
+		if (update_map_.erase(user))
+		{
+			std::vector<iconnector<T>*> remaining;
+			while (false == updates_.empty())
+			{
+				if (updates_.top() != user) remaining.push_back(updates_.top());
+				updates_.pop();
+			}
+			for (iconnector<T>* conn : remaining)
+			{
+				updates_.push(conn);
+			}
+		}
 	}
 
 	void consume (graph_manager* other)
-- 
2.43.0


From 2365b0062fbae67d18a95a3577bcc7e850c3f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 20/59] fix: copying a node without jacobian operators looked
 at the last of them

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 19f74b1..718d15b 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -346,7 +346,7 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	for (auto& jpair : jacobians_)
 	{
 		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		if (false == js.empty() && js.back().second == other)
 		{
 			js.back().second = this;
 		}
-- 
2.43.0


From fa13d0b4e3d52032ebab4ee288f1443ab2629d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 21/59] fix: gradients of sums of more than two branches, or
 with a branch without matrix product, left out or misapplied operators

---
 .../include/graph/connector/iconnector.hpp    |  1 +
 .../src/graph/connector/iconnector.ipp        | 58 ++++++++++++-------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 5eef3f9..0663e57 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -14,6 +14,7 @@
 
 #include "graph/varptr.hpp"
 #include "graph/leaf/constant.hpp"
+#include "graph/leaf/variable.hpp"
 
 #pragma once
 #ifndef TENNCOR_ICONNECTOR_HPP
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 718d15b..3977898 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -156,6 +156,8 @@ void iconnector<T>::set_jacobian_front (JTRANSFER<T> jac, std::vector<variable<T
 {
 	for (variable<T>* l : leaves)
 	{
+		// the list differs from that of the arguments
+		jacobians_[l].uid_ = nnutils::uuid(this);
 		jacobians_[l].list_.push_front({jac, this});
 	}
 }
@@ -165,6 +167,8 @@ void iconnector<T>::set_jacobian_back (JTRANSFER<T> jac, std::vector<variable<T>
 {
 	for (variable<T>* l : leaves)
 	{
+		// the list differs from that of the arguments
+		jacobians_[l].uid_ = nnutils::uuid(this);
 		jacobians_[l].list_.push_back({jac, this});
 	}
 }
@@ -198,37 +202,47 @@ iconnector<T>::iconnector (std::vector<inode<T>*> dependencies, std::string labe
 	}
 
 	std::unordered_set<inode<T>*> deps;
+	// variables reached through at least one argument without operators
+	std::unordered_set<variable<T>*> direct;
 	// todo: test for jacobian, and leaf transfer
 	// if we have more than 1 jacobian, separate the operators for each branch
 	for (subject* sub : this->dependencies_)
 	{
 		inode<T>* arg = static_cast<inode<T>*>(sub);
 		// only perform following on unique dependent nodes:
-		if (deps.end() == deps.find(arg))
+		if (false == deps.emplace(arg).second) continue;
+		iconnector<T>* imm = dynamic_cast<iconnector<T>*>(arg);
+		for (ileaf<T>* l : arg->get_leaves())
 		{
-			if (iconnector<T>* imm = dynamic_cast<iconnector<T>*>(arg))
+			variable<T>* leaf = dynamic_cast<variable<T>*>(l);
+			if (nullptr == leaf) continue;
+			if (nullptr == imm || imm->jacobians_.end() == imm->jacobians_.find(leaf) ||
+				imm->jacobians_[leaf].list_.empty())
 			{
-				for (auto jpair : imm->jacobians_)
-				{
-					variable<T>* leaf = jpair.first;
-					auto j = jpair.second;
-					if (false == j.list_.empty())
-					{
-						auto jit = this->jacobians_.find(leaf);
-						if (this->jacobians_.end() == jit)
-						{
-							this->jacobians_[leaf] = j;
-							this->jacobians_[leaf].terminal_ = false;
-						}
-						else if (j.uid_ != jit->second.uid_)
-						{
-							this->jacobians_[leaf].terminal_ = true; // terminate
-							this->jacobians_[leaf].list_.clear();
-						}
-					}
-				}
+				direct.emplace(leaf);
+				continue;
 			}
-			deps.emplace(arg);
+			JList& j = imm->jacobians_[leaf];
+			auto jit = this->jacobians_.find(leaf);
+			if (this->jacobians_.end() == jit)
+			{
+				this->jacobians_[leaf] = j;
+				this->jacobians_[leaf].terminal_ = false;
+			}
+			else if (j.uid_ != jit->second.uid_)
+			{
+				jit->second.terminal_ = true; // terminate
+				jit->second.list_.clear();
+			}
+		}
+	}
+	for (variable<T>* leaf : direct)
+	{
+		auto jit = this->jacobians_.find(leaf);
+		if (this->jacobians_.end() != jit)
+		{
+			jit->second.terminal_ = true; // terminate
+			jit->second.list_.clear();
 		}
 	}
 	update_graph(to_con<T, inode<T> >(dependencies));
-- 
2.43.0


From ac2b428c226fd3bb0c94f4f0789d0fbff12edfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 22/59] fix: the norm of a node counted its first element only
 and clipping by norm rescaled tensors below the cap

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 201a876..511acb2 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1010,7 +1010,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
-		return constant<T>::get(l2norm);
+		return constant<T>::get((T) std::sqrt(l2norm));
 	}
 	std::string opname = "l2norm";
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
@@ -1023,7 +1023,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
@@ -1053,6 +1053,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1079,7 +1080,8 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			// normalize only above capacity
+			return l2norm > cap ? data * cap / l2norm : data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From ef4a265f304410a4d17c42ca08579572874a1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 23/59] fix: assigning a single element to a variable of
 several aborted

---
 app/tenncor/src/tensor/tensor_handler.ipp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..f1a52b1 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -103,14 +103,15 @@ template <typename T>
 void assign_func<T>::operator () (tensor<T>& out, const tensor<T>& arg,
 	std::function<T(const T&,const T&)> f) const
 {
-	tensorshape outshape = out.get_shape();
-	size_t n = arg.n_elems();
-	assert(n == outshape.n_elems());
+	size_t n = out.n_elems();
+	// single elements stand for tensors of equal elements
+	size_t stride = arg.n_elems() == 1 ? 0 : 1;
+	assert(0 == stride || n == arg.n_elems());
 	T* dest = this->get_raw(out);
 	const T* src = this->get_raw(arg);
 	for (size_t i = 0; i < n; i++)
 	{
-		dest[i] = f(dest[i], src[i]);
+		dest[i] = f(dest[i], src[i * stride]);
 	}
 }
 
@@ -120,11 +121,13 @@ void assign_func<T>::operator () (tensor<T>& out, std::vector<T> indata,
 {
 	tensorshape outshape = out.get_shape();
 	size_t n = outshape.n_elems();
-	assert(n <= indata.size());
+	// single elements stand for tensors of equal elements
+	size_t stride = indata.size() == 1 ? 0 : 1;
+	assert(0 == stride || n <= indata.size());
 	T* dest = this->get_raw(out);
 	for (size_t i = 0; i < n; i++)
 	{
-		dest[i] = f(dest[i], indata[i]);
+		dest[i] = f(dest[i], indata[i * stride]);
 	}
 }
 
-- 
2.43.0


From 39170e7df8b12b966b4f868953285860605e39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 24/59] fix: random initialisers drew from a copy of the
 generator, so variables initialised in a row were equal

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index f1a52b1..2d35957 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -271,7 +271,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -307,7 +307,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From 9239f6bad3d017a5fbe352982554658edf237de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 25/59] fix: rmsprop kept stepping by an old momentum while the
 gradient did not change

---
 app/tenncor/src/utils/gd_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..7bbf131 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -230,6 +230,8 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	{
 		momentum_update(false);
 		leaf_update(notify);
+		// the next step depends on the momentum even when the gradient does not change
+		if (notify) momentum->notify(UPDATE);
 	};
 }
 
-- 
2.43.0


From d37b674253674c8e556359dfde70d219ea6f8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 26/59] fix: gradients through a product with a transposed
 operand combined factors of different shapes

---
 app/tenncor/src/graph/operations/matmul.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 2ec5aff..5bb0340 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -391,17 +391,18 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			return root;
 		}
-		varptr<T> mA = matmul<T>(root, argb, false, true);
-		varptr<T> mB = matmul<T>(arga, root, true);
-		if (transposeA)
+		// gradients of the arguments are transposed like them, the operators following are not
+		varptr<T> mA = matmul<T>(root, argb, false, true) * grada;
+		varptr<T> mB = matmul<T>(arga, root, true) * gradb;
+		if (transposeA && nullptr == dynamic_cast<constant<T>*>(mA.get()))
 		{
 			mA = transpose<T>(mA);
 		}
-		if (transposeB)
+		if (transposeB && nullptr == dynamic_cast<constant<T>*>(mB.get()))
 		{
 			mB = transpose<T>(mB);
 		}
-		return mA * grada + mB * gradb;
+		return mA + mB;
 	}, leef);
 	return mmul;
 }
-- 
2.43.0


From d1524d4d23f856727e4d9ced792ce3dc77a1f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 27/59] fix: assigning a restricted machine did nothing, and
 destroyed it when assigned to itself

---
 app/rocnnet/src/models/rbm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..164c030 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
-- 
2.43.0


From 508ffc84765db1d4d8d9c7dea53e4cb13232e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 28/59] fix: copied and moved restricted machines did not know
 their number of hidden units

---
 app/rocnnet/src/models/rbm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 164c030..e542eb6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From 05a7275a841f15486c14cf778b0999a10c6212dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 29/59] fix: copied and moved belief networks lost their output
 layer

---
 app/rocnnet/src/models/db_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..392ad59 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +185,8 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = std::move(other.log_layer_);
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From ae54903f12f77d83c4559e3deb570324c46289f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 30/59] fix: moving a trainer left nodes referring to destroyed
 placeholders

---
 app/rocnnet/src/models/gd_net.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 8f9f786..ef67dc3 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -123,14 +123,24 @@ void gd_net::copy_helper (const gd_net& other, std::string scope)
 
 void gd_net::move_helper (gd_net&& other)
 {
+	// take over the entire graph, nodes refer to each other
 	scope_ = std::move(other.scope_);
-	updater_ = other.updater_->move();
-	test_in_ = other.test_in_->move();
-	test_out_ = other.test_out_->move();
-	train_in_ = other.train_in_->move();
-	expected_out_ = other.expected_out_->move();
-	brain_ = other.brain_->move();
-	setup();
+	updates_ = std::move(other.updates_);
+	updater_ = other.updater_;
+	test_in_ = other.test_in_;
+	test_out_ = other.test_out_;
+	train_in_ = other.train_in_;
+	expected_out_ = other.expected_out_;
+	brain_ = other.brain_;
+	error_ = other.error_;
+	other.updates_.clear();
+	other.updater_ = nullptr;
+	other.test_in_ = nullptr;
+	other.test_out_ = nullptr;
+	other.train_in_ = nullptr;
+	other.expected_out_ = nullptr;
+	other.brain_ = nullptr;
+	other.error_ = nullptr;
 }
 
 void gd_net::clean_up (void)
-- 
2.43.0


From 3bcea7710f51dd633defeb263bcc9a10f059cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 31/59] fix: moving a restricted machine left nodes referring
 to destroyed variables

---
 app/rocnnet/src/models/rbm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index e542eb6..da46e11 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -219,9 +219,13 @@ void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
 	n_hidden_ = std::move(other.n_hidden_);
-	weight_ = other.weight_->move();
-	hbias_ = other.hbias_->move();
-	vbias_ = other.vbias_->move();
+	// nodes using these variables refer to them
+	weight_ = other.weight_;
+	hbias_ = other.hbias_;
+	vbias_ = other.vbias_;
+	other.weight_ = nullptr;
+	other.hbias_ = nullptr;
+	other.vbias_ = nullptr;
 }
 
 void rbm::clean_up (void)
-- 
2.43.0


From 7fe8c974f6659d9299672b03915f97fadddb0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 32/59] fix: moving a convolution layer left nodes referring to
 destroyed variables

---
 app/rocnnet/src/layers/conv_layer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/layers/conv_layer.cpp b/app/rocnnet/src/layers/conv_layer.cpp
index 8812110..1833691 100644
--- a/app/rocnnet/src/layers/conv_layer.cpp
+++ b/app/rocnnet/src/layers/conv_layer.cpp
@@ -106,8 +106,11 @@ void conv_layer::copy_helper (const conv_layer& other)
 
 void conv_layer::move_helper (conv_layer&& other)
 {
-	weight_ = other.weight_->move();
-	bias_ = other.bias_->move();
+	// nodes using these variables refer to them
+	weight_ = other.weight_;
+	bias_ = other.bias_;
+	other.weight_ = nullptr;
+	other.bias_ = nullptr;
 }
 
 void conv_layer::clean_up (void)
-- 
2.43.0


From 1d242bcaf663c90d86d4327a180d6614788fc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 33/59] fix: sampling from constants wrote past an empty vector

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 511acb2..a4509aa 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1232,7 +1232,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size(), (T) 0);
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1270,7 +1270,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size(), (T) 0);
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
-- 
2.43.0


From 4a421beb3599f7563648910de69976777efa5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 34/59] fix: sampling by a number of trials given as a node did
 not depend on that node

---
 app/tenncor/src/graph/operations/elementary.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index a4509aa..26ea77b 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1284,7 +1284,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1319,15 +1319,17 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
+		bool n_mul = shapes.ins_[0].n_elems() > 1;
+		bool p_mul = shapes.ins_[1].n_elems() > 1;
 		std::default_random_engine& gen = nnutils::get_generator();
 		for (size_t i = 0; i < n_out; i++)
 		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
+			size_t n = srcs[0][i * n_mul];
+			T p = srcs[1][i * p_mul];
 			assert(p >= 0 && p <= 1);
 			std::binomial_distribution<int> dist(n, p);
 			dest[i] = dist(gen);
-- 
2.43.0


From a32f5ef2a94f7eb09f1d168ed6fc004511144d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 35/59] fix: the pseudo likelihood of a restricted machine
 negated every bit it should have kept

---
 app/rocnnet/src/models/rbm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index da46e11..d9560a6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -255,7 +255,8 @@ nnet::varptr<double> rbm::get_pseudo_likelihood_cost (nnet::inode<double>* input
 	nnet::varptr<double> one_i = nnet::const_axis<double>(0, 0, 1, input->get_shape());
 
 	nnet::varptr<double> xi = nnet::round(nnet::varptr<double>(input)); // xi = [0|1...]
-	nnet::varptr<double> xi_flip = one_i - xi;
+	// flip the first bit only: |1 - x| where one_i is set, |0 - x| = x elsewhere
+	nnet::varptr<double> xi_flip = +(one_i - xi);
 
 	nnet::varptr<double> fe_xi = free_energy(xi);
 	nnet::varptr<double> fe_xi_flip = free_energy(xi_flip);
-- 
2.43.0


From 34190c0551163b62561b58c7154e84e3301e7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 36/59] fix: moving a generator that has observers destroyed it
 on the way

---
 app/tenncor/src/graph/react/subject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..94f8fc6 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -47,6 +47,7 @@ subject& subject::operator = (subject&& other)
 	if (this != &other)
 	{
 		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+		other.audience_[nullptr]; // other must not die of losing its last observer while moving
 		for (auto& audpair : temp)
 		{
 			iobserver* aud = audpair.first;
@@ -136,6 +137,7 @@ subject::subject (const subject&) {}
 subject::subject (subject&& other)
 {
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+	other.audience_[nullptr]; // other must not die of losing its last observer while moving
 	for (auto& audpair : temp)
 	{
 		iobserver* aud = audpair.first;
-- 
2.43.0


From f9666cfd0a9727f38a591661664421bf3ad6cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 37/59] fix: consumers of a shareable cache ran past its nodes
 after the only, or the first, one was replaced

---
 app/tenncor/src/thread/shareable_cache.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..abf641f 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -74,10 +74,15 @@ public:
 	{
 		if (head_ == it || nullptr == it) return false;
 		bool broken = nullptr == it->prev_;
-		while (nullptr == it->prev_)
+		while (nullptr != it && head_ != it && nullptr == it->prev_)
 		{
 			it = it->next_;
 		}
+		if (nullptr == it)
+		{
+			// nothing unbroken is left after it, so everything is unread
+			it = head_;
+		}
 		return broken;
 	}
 
-- 
2.43.0


From 8eef68add4c1a7b0b1e9a19bc57d5bb72fe30490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 38/59] fix: new data in a shareable cache woke only one of its
 waiting consumers

---
 app/tenncor/src/thread/shareable_cache.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index abf641f..71c0ba8 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -143,13 +143,13 @@ void shareable_cache<K, T>::add_latest (T data)
 		content_.unlink(iter->second);
 	}
 	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From acf044aca30737ba744b3761832587771b5421b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 39/59] fix: stopping a thread that was never started followed
 an undefined pointer

---
 app/tenncor/include/thread/stoppable_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..c34601b 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -59,7 +59,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	stop_flag* flag_ = nullptr;
 };
 
 }
-- 
2.43.0


From 975c7cf80cc7b104add1db0c7aa393a8241f81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 40/59] fix: a thread that is told to stop while it starts
 waiting for that waited forever

---
 app/tenncor/include/thread/stop_flag.hpp | 5 +++++
 app/tenncor/src/thread/stop_flag.cpp     | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..d157fcc 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <mutex>
 
 #pragma once
 #ifndef STOP_FLAG_HPP
@@ -21,10 +22,14 @@ public:
 
 	std::condition_variable& get_condition (void) { return cond_; }
 
+	std::mutex& get_mutex (void) { return mutex_; }
+
 private:
 	std::atomic<bool> flag_;
 
 	std::condition_variable cond_;
+
+	std::mutex mutex_; // guards waiting for flag_
 };
 
 struct thread_interrupted {};
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..8e6e33d 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -14,6 +14,8 @@ thread_local stop_flag thread_stop_flag;
 
 void stop_flag::set (void)
 {
+	// a waiter must not miss this between looking at flag_ and starting to wait
+	std::lock_guard<std::mutex> lk(mutex_);
 	flag_.store(true, std::memory_order_relaxed); // no constraints
 	cond_.notify_one(); // should have only stopped once per thread
 }
@@ -33,8 +35,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
+	std::unique_lock<std::mutex> lk(thread_stop_flag.get_mutex());
 	thread_stop_flag.get_condition().wait(lk,
 	[]{ return thread_stop_flag.is_set(); });
 }
-- 
2.43.0


From 12ebea51db4fbf725575c43c6235f17e1485e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 41/59] fix: stopping a thread that had already ended touched
 its destroyed flag

---
 app/tenncor/include/thread/stop_flag.hpp        |  6 ++++--
 app/tenncor/include/thread/stoppable_thread.hpp |  6 +++---
 app/tenncor/src/thread/stop_flag.cpp            | 10 +++++-----
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index d157fcc..7cf87da 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 
 #pragma once
@@ -25,7 +26,7 @@ public:
 	std::mutex& get_mutex (void) { return mutex_; }
 
 private:
-	std::atomic<bool> flag_;
+	std::atomic<bool> flag_{false};
 
 	std::condition_variable cond_;
 
@@ -34,7 +35,8 @@ private:
 
 struct thread_interrupted {};
 
-extern thread_local stop_flag thread_stop_flag;
+// shared with whoever may stop the thread, since it can end before that
+extern thread_local std::shared_ptr<stop_flag> thread_stop_flag;
 
 void stop_throw (void); // exit thread by throwing
 
diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index c34601b..992bb20 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -23,13 +23,13 @@ public:
 	template <typename FUNC, typename... ARGS>
 	explicit stoppable_thread (FUNC&& f, ARGS&&... args)
 	{
-		std::promise<stop_flag*> promise_flag;
+		std::promise<std::shared_ptr<stop_flag> > promise_flag;
 
 		internal_op_ = std::thread([&promise_flag,
 			f = std::forward<FUNC>(f),
 			args = std::make_tuple(std::forward<ARGS>(args)...)]
 		{
-			promise_flag.set_value(&thread_stop_flag);
+			promise_flag.set_value(thread_stop_flag);
 
 			try
 			{
@@ -59,7 +59,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_ = nullptr;
+	std::shared_ptr<stop_flag> flag_ = nullptr;
 };
 
 }
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 8e6e33d..f014afa 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -10,7 +10,7 @@
 namespace nnet
 {
 
-thread_local stop_flag thread_stop_flag;
+thread_local std::shared_ptr<stop_flag> thread_stop_flag = std::make_shared<stop_flag>();
 
 void stop_flag::set (void)
 {
@@ -27,7 +27,7 @@ bool stop_flag::is_set (void) const
 
 void stop_throw (void)
 {
-	if (thread_stop_flag.is_set())
+	if (thread_stop_flag->is_set())
 	{
 		throw thread_interrupted(); // force worker to stop operation
 	}
@@ -35,9 +35,9 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::unique_lock<std::mutex> lk(thread_stop_flag.get_mutex());
-	thread_stop_flag.get_condition().wait(lk,
-	[]{ return thread_stop_flag.is_set(); });
+	std::unique_lock<std::mutex> lk(thread_stop_flag->get_mutex());
+	thread_stop_flag->get_condition().wait(lk,
+	[]{ return thread_stop_flag->is_set(); });
 }
 
 }
-- 
2.43.0


From 6a5dd2123fa2df84794bab6c0ad26e7aef88666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:25 +0000
Subject: [PATCH 42/59] fix: deriving by a variable that moved, or through an
 operation that moved, used the instance it moved from

---
 .../include/graph/connector/iconnector.hpp    |  4 +++
 .../connector/immutable/base_immutable.hpp    |  4 +++
 app/tenncor/include/graph/leaf/variable.hpp   | 14 +++++++-
 app/tenncor/include/graph/react/iobserver.hpp |  5 +++
 app/tenncor/include/graph/react/subject.hpp   |  4 +++
 .../src/graph/connector/iconnector.ipp        | 34 +++++++++++++++++++
 .../connector/immutable/base_immutable.ipp    | 18 ++++++++++
 app/tenncor/src/graph/leaf/placeholder.ipp    |  5 ++-
 app/tenncor/src/graph/leaf/variable.ipp       | 29 ++++++++++++++++
 app/tenncor/src/graph/react/iobserver.cpp     |  2 ++
 app/tenncor/src/graph/react/subject.cpp       |  8 +++++
 11 files changed, 125 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 0663e57..9469c1e 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -138,6 +138,10 @@ protected:
 
 	varptr<T> jacobian_call (varptr<T> out, variable<T>* leaf) const;
 
+	// >>>> MOVE MESSAGE <<<<
+	//! Inherited from iobserver: keep operators derived by, or originating from, what moved
+	virtual void subject_moved (const subject* from, subject* to);
+
 	//! specialized operator: jacobian operators for each variable,
 	//! executed in derive
 	std::unordered_map<variable<T>*,JList> jacobians_;
diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index 4913123..a006b78 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -104,6 +104,10 @@ protected:
 	//! delay instantiate gcache elements if target leaf was never instantiated
 	virtual inode<T>* get_gradient (variable<T>* leaf);
 
+	// >>>> MOVE MESSAGE <<<<
+	//! Inherited from iconnector: keep gradients derived by what moved
+	virtual void subject_moved (const subject* from, subject* to);
+
 	// >>>> FORWARD & BACKWARD <<<<
 	//! forward pass step: populate data_
 	virtual void forward_pass (void) = 0;
diff --git a/app/tenncor/include/graph/leaf/variable.hpp b/app/tenncor/include/graph/leaf/variable.hpp
index a260c44..e1c794d 100644
--- a/app/tenncor/include/graph/leaf/variable.hpp
+++ b/app/tenncor/include/graph/leaf/variable.hpp
@@ -43,7 +43,19 @@ public:
 	variable (const tensorshape& shape,
 		const initializer<T>& init, std::string name = "");
 
-	// >>>> CLONER <<<<
+	//! declare copy constructor, since move is declared
+	variable (const variable<T>& other);
+
+	//! declare move constructor to tell what was derived by other
+	variable (variable<T>&& other);
+
+	// >>>> CLONER & ASSIGNMENT OPERATORS <<<<
+	//! declare copy assignment, since constructors are declared
+	virtual variable<T>& operator = (const variable<T>& other);
+
+	//! declare move assignment, since constructors are declared
+	virtual variable<T>& operator = (variable<T>&& other);
+
 	//! clone function
 	variable<T>* clone (void) const;
 
diff --git a/app/tenncor/include/graph/react/iobserver.hpp b/app/tenncor/include/graph/react/iobserver.hpp
index ba98685..8429383 100644
--- a/app/tenncor/include/graph/react/iobserver.hpp
+++ b/app/tenncor/include/graph/react/iobserver.hpp
@@ -80,6 +80,11 @@ protected:
 	//! replace dependency
 	void replace_dependency (subject* dep, size_t idx);
 
+	// >>>> MOVE MESSAGE <<<<
+	//! a direct or indirect dependency, from, moved to another instance
+	//! action: nothing, dependencies are already replaced
+	virtual void subject_moved (const subject* from, subject* to);
+
 	//! order of subject matters;
 	//! observer-subject relation is non-unique
 	std::vector<subject*> dependencies_;
diff --git a/app/tenncor/include/graph/react/subject.hpp b/app/tenncor/include/graph/react/subject.hpp
index bad72d9..653a609 100644
--- a/app/tenncor/include/graph/react/subject.hpp
+++ b/app/tenncor/include/graph/react/subject.hpp
@@ -83,6 +83,10 @@ protected:
 
 	void detach_killer (iobserver* killer);
 
+	// >>>> MOVE MESSAGE <<<<
+	//! tell all observers that to took the place of from
+	void tell_moved (const subject* from, subject* to) const;
+
 	// >>>> OBSERVER MUTATORS SHARED WITH OBSERVERS <<<<
 	//! Add observer to audience
 	void attach (iobserver* viewer, size_t idx);
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 3977898..a09039e 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -309,6 +309,39 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 	return out;
 }
 
+template <typename T>
+void iconnector<T>::subject_moved (const subject* from, subject* to)
+{
+	bool found = false;
+	auto it = std::find_if(jacobians_.begin(), jacobians_.end(),
+	[from](const std::pair<variable<T>* const,JList>& jpair)
+	{
+		return jpair.first == from;
+	});
+	if (jacobians_.end() != it)
+	{
+		JList jlist = it->second;
+		jacobians_.erase(it);
+		jacobians_[static_cast<variable<T>*>(to)] = jlist;
+		found = true;
+	}
+	for (auto& jpair : jacobians_)
+	{
+		for (auto& jt : jpair.second.list_)
+		{
+			if (jt.second == from)
+			{
+				jt.second = static_cast<inode<T>*>(to);
+				found = true;
+			}
+		}
+	}
+	if (found)
+	{
+		this->tell_moved(from, to);
+	}
+}
+
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
@@ -347,6 +380,7 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 		other.g_man_->suicide(&other);
 		other.g_man_ = nullptr;
 	}
+	this->tell_moved(&other, this);
 }
 
 template <typename T>
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..e0dcf3b 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -231,6 +231,24 @@ inode<T>* base_immutable<T>::get_gradient (variable<T>* leaf)
 	return gcache_[leaf];
 }
 
+template <typename T>
+void base_immutable<T>::subject_moved (const subject* from, subject* to)
+{
+	auto it = std::find_if(gcache_.begin(), gcache_.end(),
+	[from](const std::pair<ileaf<T>* const,varptr<T> >& gpair)
+	{
+		return gpair.first == from;
+	});
+	if (gcache_.end() != it)
+	{
+		varptr<T> grad = it->second;
+		gcache_.erase(it);
+		gcache_[static_cast<ileaf<T>*>(to)] = grad;
+		this->tell_moved(from, to);
+	}
+	iconnector<T>::subject_moved(from, to);
+}
+
 template <typename T>
 void base_immutable<T>::copy_helper (const base_immutable& other)
 {
diff --git a/app/tenncor/src/graph/leaf/placeholder.ipp b/app/tenncor/src/graph/leaf/placeholder.ipp
index fcc34bd..160d70f 100644
--- a/app/tenncor/src/graph/leaf/placeholder.ipp
+++ b/app/tenncor/src/graph/leaf/placeholder.ipp
@@ -19,7 +19,10 @@ template <typename T>
 placeholder<T>::placeholder (const placeholder<T>& other) : ivariable<T>(other) {}
 
 template <typename T>
-placeholder<T>::placeholder (placeholder<T>&& other) : ivariable<T>(std::move(other)) {}
+placeholder<T>::placeholder (placeholder<T>&& other) : ivariable<T>(std::move(other))
+{
+	this->tell_moved(&other, this);
+}
 
 template <typename T>
 placeholder<T>* placeholder<T>::clone (void) const
diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index c28ddc5..971926e 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -28,6 +28,35 @@ variable<T>::variable (const tensorshape& shape,
 	const initializer<T>& init, std::string name) :
 ivariable<T>(shape, init.clone(), name) {}
 
+template <typename T>
+variable<T>::variable (const variable<T>& other) : ivariable<T>(other) {}
+
+template <typename T>
+variable<T>::variable (variable<T>&& other) : ivariable<T>(std::move(other))
+{
+	this->tell_moved(&other, this);
+}
+
+template <typename T>
+variable<T>& variable<T>::operator = (const variable<T>& other)
+{
+	if (this != &other)
+	{
+		ivariable<T>::operator = (other);
+	}
+	return *this;
+}
+
+template <typename T>
+variable<T>& variable<T>::operator = (variable<T>&& other)
+{
+	if (this != &other)
+	{
+		ivariable<T>::operator = (std::move(other));
+	}
+	return *this;
+}
+
 template <typename T>
 variable<T>* variable<T>::clone (void) const
 {
diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..117a2ec 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -143,6 +143,8 @@ void iobserver::replace_dependency (subject* dep, size_t idx)
 	dependencies_[idx] = dep;
 }
 
+void iobserver::subject_moved (const subject*, subject*) {}
+
 void iobserver::update (std::unordered_set<size_t> dep_indices, notification msg)
 {
 	switch (msg)
diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index 94f8fc6..abf4606 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -132,6 +132,14 @@ void subject::detach_killer (iobserver* killer)
 	}
 }
 
+void subject::tell_moved (const subject* from, subject* to) const
+{
+	for (auto& audpair : audience_)
+	{
+		audpair.first->subject_moved(from, to);
+	}
+}
+
 subject::subject (const subject&) {}
 
 subject::subject (subject&& other)
-- 
2.43.0


From 7bed658b424c1a113ca323e3247eb71fd8354e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 43/59] fix: copies of an operation kept their original as the
 origin of some of their derivatives

---
 app/tenncor/src/graph/connector/iconnector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index a09039e..e2b00ac 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -393,10 +393,12 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	// check other's jacobians leafset for references to other and set to this
 	for (auto& jpair : jacobians_)
 	{
-		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (false == js.empty() && js.back().second == other)
+		for (auto& jt : jpair.second.list_)
 		{
-			js.back().second = this;
+			if (jt.second == other)
+			{
+				jt.second = this;
+			}
 		}
 	}
 }
-- 
2.43.0


From 4e22de03e9d06fcbce54f5e564c848a4d78d8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 44/59] fix: axial operations with a one-element operand in
 place of the full one read past it

---
 app/tenncor/src/graph/operations/elementary.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 26ea77b..1047268 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -132,6 +132,13 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i]);
 			}
 		}
+		else if (1 == shapes.ins_[(idx + 1) % 2].n_elems())
+		{
+			for (size_t i = 0; i < n_elems; i++)
+			{
+				dest[i] = aggregate(srcs[idx][i], srcs[(idx + 1) % 2][0]);
+			}
+		}
 		else
 		{
 			for (size_t i = 0; i < n_elems; i++)
-- 
2.43.0


From 32e72c5ef8ecb3bb5554fbc48b72849a94f96b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 45/59] fix: shareable_cache used condition_variable without
 including it

---
 app/tenncor/include/thread/shareable_cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..4a8824d 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -7,6 +7,8 @@
 //
 
 #include <mutex>
+#include <condition_variable>
+#include <functional>
 #include <memory>
 #include <unordered_map>
 #include <experimental/optional>
-- 
2.43.0


From 29bcf4913680cde1fe4daa6bbd0c638893ff8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 46/59] fix: gradients of operations and reductions along an
 axis lacked that axis, missed paired elements or were refused

---
 .../graph/connector/immutable/immutable.hpp   |   4 +
 .../graph/connector/immutable/immutable.ipp   |  39 +++
 .../src/graph/operations/elementary.ipp       | 241 ++++++++++++++----
 .../src/graph/operations/transform.ipp        |   8 +-
 4 files changed, 232 insertions(+), 60 deletions(-)

diff --git a/app/tenncor/include/graph/connector/immutable/immutable.hpp b/app/tenncor/include/graph/connector/immutable/immutable.hpp
index 4414451..5a459ea 100644
--- a/app/tenncor/include/graph/connector/immutable/immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/immutable.hpp
@@ -48,6 +48,10 @@ public:
 	//! declare move assignment to move over transfer functions
 	virtual immutable<T>& operator = (immutable<T>&& other);
 
+	// >>>> FORWARD & BACKWARD DATA <<<<
+	//! get top-level gradient value, without the grouping used while building it
+	virtual varptr<T> derive (inode<T>* wrt);
+
 protected:
 	// >>>> CONSTRUCTORS <<<<
 	//! immutable constructing an aggregate transfer function
diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index e0a5432..4bb5515 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -76,6 +76,45 @@ immutable<T>& immutable<T>::operator = (immutable<T>&& other)
 	return *this;
 }
 
+template <typename T>
+varptr<T> immutable<T>::derive (inode<T>* wrt)
+{
+	varptr<T> out = base_immutable<T>::derive(wrt);
+	if (nullptr == out.get() || false == (bool)out->get_metadata("grouping"))
+	{
+		return out;
+	}
+	// operations on the gradient itself must not be along an axis
+	std::vector<inode<T>*> args;
+	if (iconnector<T>* spread = dynamic_cast<iconnector<T>*>(out.get()))
+	{
+		args = spread->get_arguments();
+	}
+	if (0 == out->get_label().compare(0, 12, "spread_axis_") && 2 == args.size() &&
+		nullptr != dynamic_cast<constant<T>*>(args.back()) && 1 == args.back()->get_shape().n_elems())
+	{
+		// one element stands for all elements
+		return args.back();
+	}
+	std::string label = "ungrouped";
+	std::unordered_set<inode<T>*> audience;
+	if (out->find_audience(label, audience))
+	{
+		return *audience.begin();
+	}
+	return immutable<T>::get(std::vector<inode<T>*>{out},
+	[](std::vector<tensorshape> shapes) -> tensorshape { return shapes[0]; },
+	new transfer_func<T>(
+	[](T* dest, std::vector<const T*> src, shape_io shape)
+	{
+		std::memcpy(dest, src[0], sizeof(T) * shape.outs_.n_elems());
+	}),
+	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
+	{
+		return varptr<T>(args.front().second);
+	}, label);
+}
+
 template <typename T>
 immutable<T>::immutable (
 	std::vector<inode<T>*> args,
diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 1047268..b62d2f7 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -208,11 +208,11 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, 1, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, 0, axis);
 		}
 	}
 	return out;
@@ -258,11 +258,11 @@ static varptr<T> sub_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, 1, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, 0, axis);
 		}
 	}
 	return out;
@@ -308,11 +308,11 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, 1, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, 0, axis);
 		}
 	}
 	return out;
@@ -359,18 +359,140 @@ static varptr<T> div_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, 1, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, 0, axis);
 		}
 	}
 	return out;
 }
 
+// gradients can be of one element, or lack the axis, of what they are gradients of:
+// repeat them for every element of like, any other gradient stays as it is
+// (constants of one element stand for all elements, those are only repeated when always is set)
 template <typename T>
-static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t axis)
+static varptr<T> axial_spread (const varptr<T> grad, const varptr<T> like, size_t axis, bool always = false)
+{
+	constant<T>* gconst = dynamic_cast<constant<T>*>(grad.get());
+	if (nullptr == grad.get() || (gconst && (*gconst == (T) 0 ||
+		(false == always && 1 == gconst->get_shape().n_elems()))))
+	{
+		return grad;
+	}
+	std::string opname = nnutils::formatter() << "spread_axis_" << axis;
+	if (inode<T>* parent = ordered_binary_parent_search(like.get(), grad.get(), opname))
+	{
+		return parent;
+	}
+	auto is_lacking = [axis](const tensorshape& like, const tensorshape& grad) -> bool
+	{
+		std::vector<size_t> lacking = like.as_list();
+		if (1 == grad.n_elems() || axis >= lacking.size())
+		{
+			return 1 == grad.n_elems();
+		}
+		if (axis == 0 || axis == lacking.size() - 1)
+		{
+			lacking.erase(lacking.begin() + axis);
+		}
+		else
+		{
+			lacking[axis] = 1;
+		}
+		return grad.as_list() == lacking;
+	};
+	TRANSFER_FUNC<T> repeat = binary_axial(AGGREGATE<T>([](T, T right) -> T
+	{
+		return right;
+	}), axis, false);
+	return immutable<T>::get(std::vector<inode<T>*>{like, grad},
+	[is_lacking](std::vector<tensorshape> shapes) -> tensorshape
+	{
+		return is_lacking(shapes[0], shapes[1]) ? shapes[0] : shapes[1];
+	},
+	new transfer_func<T>(
+	[repeat, is_lacking](T* dest, std::vector<const T*> srcs, shape_io shapes)
+	{
+		if (is_lacking(shapes.ins_[0], shapes.ins_[1]))
+		{
+			repeat(dest, srcs, shapes);
+		}
+		else
+		{
+			std::memcpy(dest, srcs[1], sizeof(T) * shapes.outs_.n_elems());
+		}
+	}),
+	[axis](std::vector<std::pair<inode<T>*,inode<T>*> > args)
+	{
+		return axial_spread<T>(args.at(1).second, args.at(0).first, axis);
+	}, opname);
+}
+
+// sum the gradient along an axis, a gradient of one element stands for all elements of like
+template <typename T>
+static varptr<T> axial_sum (const varptr<T> grad, const varptr<T> like, size_t axis)
+{
+	if (nullptr == grad.get()) return nullptr;
+	std::string opname = nnutils::formatter() << "sum_axis_" << axis;
+	if (inode<T>* parent = ordered_binary_parent_search(like.get(), grad.get(), opname))
+	{
+		return parent;
+	}
+	return immutable<T>::get(std::vector<inode<T>*>{like, grad},
+	[axis](std::vector<tensorshape> shapes) -> tensorshape
+	{
+		std::vector<size_t> dims = shapes[1].as_list();
+		if (1 == shapes[1].n_elems() || axis >= dims.size())
+		{
+			return shapes[1];
+		}
+		if (1 == dims.size())
+		{
+			return std::vector<size_t>{1};
+		}
+		if (axis == 0 || axis == dims.size() - 1)
+		{
+			dims.erase(dims.begin() + axis);
+		}
+		else
+		{
+			dims[axis] = 1;
+		}
+		return dims;
+	},
+	new transfer_func<T>(
+	[axis](T* dest, std::vector<const T*> srcs, shape_io shapes)
+	{
+		std::vector<size_t> like = shapes.ins_[0].as_list();
+		std::vector<size_t> dims = shapes.ins_[1].as_list();
+		size_t n_elems = shapes.ins_[1].n_elems();
+		if (1 == n_elems || axis >= dims.size())
+		{
+			T times = 1 == n_elems && axis < like.size() ? like[axis] : 1;
+			std::transform(srcs[1], srcs[1] + n_elems, dest,
+			[times](const T data) { return data * times; });
+			return;
+		}
+		size_t inner = std::accumulate(dims.begin(), dims.begin() + axis,
+			(size_t) 1, std::multiplies<size_t>());
+		std::fill(dest, dest + shapes.outs_.n_elems(), 0);
+		for (size_t i = 0; i < n_elems; i++)
+		{
+			dest[i / (inner * dims[axis]) * inner + i % inner] += srcs[1][i];
+		}
+	}),
+	[axis](std::vector<std::pair<inode<T>*,inode<T>*> > args)
+	{
+		varptr<T> bg = axial_spread<T>(args.at(1).second, args.at(1).first, axis, true);
+		if (nullptr == dynamic_cast<constant<T>*>(bg.get())) bg->set_metadata("grouping", axis);
+		return bg;
+	}, opname);
+}
+
+template <typename T>
+static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t full, size_t axis)
 {
 	if (iconnector<T>* iconn = dynamic_cast<iconnector<T>*>(root.get()))
 	{
@@ -384,13 +506,24 @@ static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t
 			}
 		}
 		iconn->set_jacobian_front(
-		[axis](inode<T>* root, std::vector<inode<T>*>, std::vector<inode<T>*>) -> inode<T>*
+		[full, axis](inode<T>* root, std::vector<inode<T>*> args, std::vector<inode<T>*>) -> inode<T>*
 		{
-			return reduce_sum(varptr<T>(root), axis);
+			return axial_sum<T>(root, args.at(full), axis);
 		}, leef);
 	}
 }
 
+// results of operands grouped along an axis are grouped along it too
+template <typename T>
+static varptr<T> axial_group (varptr<T> out, const varptr<T>& a, const varptr<T>& b, optional<size_t> axis)
+{
+	if (axis && out.get() != a.get() && out.get() != b.get() &&
+		nullptr == dynamic_cast<constant<T>*>(out.get()))
+	{
+		out->set_metadata("grouping", *axis);
+	}
+	return out;
+}
 
 // samples cannot be backpropogated, so we need a special handler
 template <typename T>
@@ -1442,18 +1575,17 @@ varptr<T> operator + (const varptr<T> a, const varptr<T> b)
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
 	optional<size_t> aaxis = a->get_metadata("grouping");
 	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
+	if (aaxis && false == (bool)baxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return add_axial_b(a, b, *aaxis);
-		}
+		return axial_group<T>(add_axial_b(a, b, *aaxis), a, b, aaxis);
 	}
-	else if (baxis)
+	else if (baxis && false == (bool)aaxis)
 	{
-		return add_axial_a(a, b, *baxis);
+		return axial_group<T>(add_axial_a(a, b, *baxis), a, b, baxis);
 	}
-	return add_helper<T>(a, b, "add", elementary_shaper,
+	// operands grouped along the same axis both have it
+	optional<size_t> axis = aaxis && *aaxis == *baxis ? aaxis : optional<size_t>();
+	return axial_group<T>(add_helper<T>(a, b, "add", elementary_shaper,
 	binary_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
@@ -1465,7 +1597,7 @@ varptr<T> operator + (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag + bg;
-	});
+	}), a, b, axis);
 }
 
 template<typename T>
@@ -1566,18 +1698,17 @@ varptr<T> operator - (const varptr<T> a, const varptr<T> b)
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
 	optional<size_t> aaxis = a->get_metadata("grouping");
 	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
+	if (aaxis && false == (bool)baxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return sub_axial_b(a, b, *aaxis);
-		}
+		return axial_group<T>(sub_axial_b(a, b, *aaxis), a, b, aaxis);
 	}
-	else if (baxis)
+	else if (baxis && false == (bool)aaxis)
 	{
-		return sub_axial_a(a, b, *baxis);
+		return axial_group<T>(sub_axial_a(a, b, *baxis), a, b, baxis);
 	}
-	return sub_helper<T>(a, b, "sub", elementary_shaper,
+	// operands grouped along the same axis both have it
+	optional<size_t> axis = aaxis && *aaxis == *baxis ? aaxis : optional<size_t>();
+	return axial_group<T>(sub_helper<T>(a, b, "sub", elementary_shaper,
 	binary_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
@@ -1589,7 +1720,7 @@ varptr<T> operator - (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag - bg;
-	});
+	}), a, b, axis);
 }
 
 template<typename T>
@@ -1706,18 +1837,17 @@ varptr<T> operator * (const varptr<T> a, const varptr<T> b)
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
 	optional<size_t> aaxis = a->get_metadata("grouping");
 	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
+	if (aaxis && false == (bool)baxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return mul_axial_b(a, b, *aaxis);
-		}
+		return axial_group<T>(mul_axial_b(a, b, *aaxis), a, b, aaxis);
 	}
-	else if (baxis)
+	else if (baxis && false == (bool)aaxis)
 	{
-		return mul_axial_a(a, b, *baxis);
+		return axial_group<T>(mul_axial_a(a, b, *baxis), a, b, baxis);
 	}
-	return mul_helper<T>(a, b, "mul", elementary_shaper,
+	// operands grouped along the same axis both have it
+	optional<size_t> axis = aaxis && *aaxis == *baxis ? aaxis : optional<size_t>();
+	return axial_group<T>(mul_helper<T>(a, b, "mul", elementary_shaper,
 	binary_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
@@ -1731,7 +1861,7 @@ varptr<T> operator * (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag * b + bg * a;
-	});
+	}), a, b, axis);
 }
 
 template<typename T>
@@ -1847,18 +1977,17 @@ varptr<T> operator / (const varptr<T> a, const varptr<T> b)
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
 	optional<size_t> aaxis = a->get_metadata("grouping");
 	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
+	if (aaxis && false == (bool)baxis)
 	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return div_axial_b(a, b, *aaxis);
-		}
+		return axial_group<T>(div_axial_b(a, b, *aaxis), a, b, aaxis);
 	}
-	else if (baxis)
+	else if (baxis && false == (bool)aaxis)
 	{
-		return div_axial_a(a, b, *baxis);
+		return axial_group<T>(div_axial_a(a, b, *baxis), a, b, baxis);
 	}
-	return div_helper<T>(a, b, "div", elementary_shaper,
+	// operands grouped along the same axis both have it
+	optional<size_t> axis = aaxis && *aaxis == *baxis ? aaxis : optional<size_t>();
+	return axial_group<T>(div_helper<T>(a, b, "div", elementary_shaper,
 	binary_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
@@ -1872,7 +2001,7 @@ varptr<T> operator / (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return (ag * b - bg * a) / (b * b);
-	});
+	}), a, b, axis);
 }
 
 template <typename T>
@@ -1889,7 +2018,7 @@ varptr<T> add_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return add_axial_a(ag, bg, axis_a);
+		return axial_spread<T>(add_axial_a(ag, bg, axis_a), args.at(1).first, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1907,7 +2036,7 @@ varptr<T> add_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return add_axial_b(ag, bg, axis_b);
+		return axial_spread<T>(add_axial_b(ag, bg, axis_b), args.at(0).first, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -1925,7 +2054,7 @@ varptr<T> sub_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return sub_axial_a(ag, bg, axis_a);
+		return axial_spread<T>(sub_axial_a(ag, bg, axis_a), args.at(1).first, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1943,7 +2072,7 @@ varptr<T> sub_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return sub_axial_b(ag, bg, axis_b);
+		return axial_spread<T>(sub_axial_b(ag, bg, axis_b), args.at(0).first, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -1964,7 +2093,7 @@ varptr<T> mul_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, bg, axis_a);
+		return mul_axial_a(ag, b, axis_a) + axial_spread<T>(mul_axial_a(a, bg, axis_a), b, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1985,7 +2114,7 @@ varptr<T> mul_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_b(ag, b, axis_b) + mul_axial_b(a, bg, axis_b);
+		return axial_spread<T>(mul_axial_b(ag, b, axis_b), a, axis_b) + mul_axial_b(a, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -2006,7 +2135,8 @@ varptr<T> div_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(bg, a, axis_a)) / pow(b, 2);
+		return (mul_axial_a(ag, b, axis_a) -
+			axial_spread<T>(mul_axial_b(bg, a, axis_a), b, axis_a)) / pow(b, 2);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -2027,7 +2157,8 @@ varptr<T> div_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b)) / pow(b, 2);
+		return div_axial_b<T>(axial_spread<T>(mul_axial_b(ag, b, axis_b), a, axis_b) -
+			mul_axial_a(bg, a, axis_b), pow(b, 2), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 4c9caaa..f462f9f 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -283,11 +283,9 @@ varptr<T> compress (const varptr<T> a, AGGREGATE<T> collector,
 		varptr<T> bnode = args.front().second;
 		if (index)
 		{
-			if (bnode.get() == bnode.get())
-			{
-				bnode = identity<T>(bnode);
-			}
-			bnode->set_metadata("grouping", *index);
+			// the node marked must not be shared by reductions along other dimensions
+			bnode = axial_spread<T>(bnode, args.front().first, *index, true);
+			if (nullptr == dynamic_cast<constant<T>*>(bnode.get())) bnode->set_metadata("grouping", *index);
 		}
 		return bnode;
 	}, imm_name);
-- 
2.43.0


From f7dd9ca0743bdf61ed86dc5aeeb00f410cbc5208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 47/59] fix: the visualisation service announced handles as
 operations

---
 app/tenncor/src/edgeinfo/grpc_vis_record.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis_record.cpp b/app/tenncor/src/edgeinfo/grpc_vis_record.cpp
index b5062fe..4ffb428 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis_record.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis_record.cpp
@@ -63,6 +63,10 @@ void rpc_record::data_update (const nnet::subject* sub)
 void rpc_record::edge_capture (const nnet::iobserver* obs,
 	const nnet::subject* sub, size_t obs_idx)
 {
+	if (!obs->is_recordable())
+	{
+		return;
+	}
 	std::string oid = obs->get_uid();
 	std::string sid = sub->get_uid();
 	visor::EdgeMessage message;
@@ -78,6 +82,10 @@ void rpc_record::edge_capture (const nnet::iobserver* obs,
 void rpc_record::edge_release (const nnet::iobserver* obs,
 	const nnet::subject* sub, size_t obs_idx)
 {
+	if (!obs->is_recordable())
+	{
+		return;
+	}
 	std::string oid = obs->get_uid();
 	std::string sid = sub->get_uid();
 	visor::EdgeMessage message;
-- 
2.43.0


From 68bc1169d9783e2393b33905d5550a82d39069ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 48/59] fix: subscriptions of the visualisation service raced,
 slept through their end and outlived their clients

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        | 13 ++++-
 .../include/thread/shareable_cache.hpp        |  5 +-
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 51 ++++++++++++++-----
 app/tenncor/src/thread/shareable_cache.ipp    |  7 ++-
 4 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 6f27490..6aed0cc 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -10,6 +10,8 @@
 #ifdef EDGE_RCD
 
 #include <experimental/optional>
+#include <mutex>
+#include <unordered_set>
 
 #include <grpc++/grpc++.h>
 #include <grpc/support/log.h>
@@ -53,13 +55,22 @@ public:
 	void clear_subscriptions (void);
 
 private:
+	// start a subscription unless all are cleared
+	void subscribe (std::string client);
+
+	bool is_subscribed (std::string client) const;
+
 	// shared with graph_vis_record
 	nodecache_t* node_src_;
 
 	edgecache_t* edge_src_;
 
-	// own
+	// own, shared between the threads of all requests
 	std::unordered_set<std::string> subscriptions_;
+
+	bool cleared_ = false;
+
+	mutable std::mutex mutex_;
 };
 
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src);
diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index 4a8824d..761325c 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -55,12 +55,15 @@ public:
 	// assert that iter's data has been read
 	// grab data from iter->next_ and increment iter if possible
 	// if value is unavailable wait until the next value is available and return unset optional
-	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter) const;
+	// don't start waiting unless waiting (if given) returns true
+	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter,
+		std::function<bool(void)> waiting = nullptr) const;
 
 	// add data mapped by key remove previous iterators mapped by it if necessary
 	void add_latest (T data);
 
 	// escape get_latest's wait by forceable notifying cond_
+	// whatever get_latest's waiting observes must be changed before
 	void escape_wait (void);
 
 private:
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 85c5068..67b0849 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,15 +20,16 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
+	std::function<bool(void)> subscribed = [this, cli_id] { return is_subscribed(cli_id); };
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
+		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter, subscribed))
 		{
-			writer->Write(*msg);
+			// stop when the client is gone
+			if (false == writer->Write(*msg)) break;
 		}
 	}
 	return grpc::Status::OK;
@@ -39,15 +40,16 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
+	std::function<bool(void)> subscribed = [this, cli_id] { return is_subscribed(cli_id); };
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
+		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter, subscribed))
 		{
-			writer->Write(*msg);
+			// stop when the client is gone
+			if (false == writer->Write(*msg)) break;
 		}
 	}
 	return grpc::Status::OK;
@@ -56,7 +58,13 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
-	subscriptions_.erase(client->id());
+	{
+		std::lock_guard<std::mutex> lock(mutex_);
+		subscriptions_.erase(client->id());
+	}
+	// wake the client's streams
+	node_src_->escape_wait();
+	edge_src_->escape_wait();
 	return grpc::Status::OK;
 }
 
@@ -70,11 +78,30 @@ grpc::Status gui_notifier::GetNodeData (grpc::ServerContext* context,
 
 void gui_notifier::clear_subscriptions (void)
 {
-	subscriptions_.clear();
+	{
+		std::lock_guard<std::mutex> lock(mutex_);
+		subscriptions_.clear();
+		cleared_ = true;
+	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
 }
 
+void gui_notifier::subscribe (std::string client)
+{
+	std::lock_guard<std::mutex> lock(mutex_);
+	if (false == cleared_)
+	{
+		subscriptions_.emplace(client);
+	}
+}
+
+bool gui_notifier::is_subscribed (std::string client) const
+{
+	std::lock_guard<std::mutex> lock(mutex_);
+	return subscriptions_.end() != subscriptions_.find(client);
+}
+
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src)
 {
 	gui_notifier service(node_src, edge_src);
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 71c0ba8..35375b4 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -97,7 +97,8 @@ shareable_cache<K, T>::shareable_cache (std::function<K(const T&)> hasher) :
 	hasher_(hasher) {}
 
 template <typename K, typename T>
-optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter) const
+optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter,
+	std::function<bool(void)> waiting) const
 {
 	std::unique_lock<std::mutex> locker(mutex_);
 
@@ -124,7 +125,7 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 		value = iter->next_->data_;
 		iter = iter->next_;
 	}
-	if (!value)
+	if (!value && (!waiting || waiting()))
 	{
 		cond_.wait(locker); // no current wait to check for spurious wait
 	}
@@ -149,6 +150,8 @@ void shareable_cache<K, T>::add_latest (T data)
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
+	// no consumer is between looking at waiting and starting to wait
+	std::unique_lock<std::mutex> locker(mutex_);
 	cond_.notify_all();
 }
 
-- 
2.43.0


From 1d37005f13772f38440268427eff1bf770b21b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 49/59] fix: a visualisation service whose address is in use
 took the program down

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 67b0849..e26791f 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -111,6 +111,11 @@ void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_sr
 	builder.RegisterService(&service);
 
 	std::unique_ptr<grpc::Server> server(builder.BuildAndStart());
+	if (nullptr == server)
+	{
+		std::cerr << "server cannot listen on " << addr << std::endl;
+		return;
+	}
 	std::cout << "server listening on " << addr << std::endl;
 	std::thread server_wait([&server]
 	{
-- 
2.43.0


From ed2cb2f6a7e085e8c6ca9356e8d49465e4dcd520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 50/59] fix: naming an operation without arguments, as one that
 moved, read past them

---
 .../src/graph/connector/iconnector.ipp        | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index e2b00ac..b14cbac 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -73,25 +73,15 @@ template <typename T>
 std::string iconnector<T>::get_name (void) const
 {
 	std::string args = "";
-	auto it = this->dependencies_.begin();
-	auto et = this->dependencies_.end();
-	const inode <T>* arg = dynamic_cast<const inode<T>*>(*it);
-	while (args.empty() && nullptr == arg)
-	{
-		arg = dynamic_cast<const inode<T>*>(*++it);
-	}
-	if (arg)
-	{
-		args = arg->get_label();
-		++it;
-	}
-	while (it != et)
+	bool first = true;
+	for (subject* sub : this->dependencies_)
 	{
-		if (nullptr != (arg = dynamic_cast<const inode<T>*>(*it)))
+		if (const inode<T>* arg = dynamic_cast<const inode<T>*>(sub))
 		{
-			args += "," + arg->get_label();
+			if (false == first) args += ",";
+			args += arg->get_label();
+			first = false;
 		}
-		it++;
 	}
 	return inode<T>::get_name() + "(" + args + ")";
 }
-- 
2.43.0


From 7e11a325a1c8b8a5dfe96a615ca7c43de4c3a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 51/59] fix: deriving an expression by an operation that is no
 part of it gave the expression instead of zero

---
 .../connector/immutable/base_immutable.hpp      |  3 +++
 .../connector/immutable/base_immutable.ipp      | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index a006b78..7a98e0b 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -132,6 +132,9 @@ private:
 	//! move helper
 	void move_helper (base_immutable&& other);
 
+	//! check if temporary evaluation with respect to target reaches target
+	bool temp_eval_reaches (const iconnector<T>* target) const;
+
 	//! temporary_eval helper
 	inode<T>* temp_eval_helper (const iconnector<T>* target, constant<T>*& out) const;
 };
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index e0dcf3b..8664ab3 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -66,7 +66,7 @@ varptr<T> base_immutable<T>::derive (inode<T>* wrt)
 		out = this->jacobian_call(out, leaf);
 	}
 	// check graph
-	else if (conn && this->is_same_graph(conn))
+	else if (conn && this->is_same_graph(conn) && temp_eval_reaches(conn))
 	{
 		// WARNING: this is one of the more expensive operations
 		inode<T>* temp_out = nullptr;
@@ -276,6 +276,21 @@ void base_immutable<T>::move_helper (base_immutable&& other)
 	gcache_ = std::move(other.gcache_);
 }
 
+template <typename T>
+bool base_immutable<T>::temp_eval_reaches (const iconnector<T>* target) const
+{
+	if (this == target) return true;
+	for (subject* sub : this->dependencies_)
+	{
+		base_immutable<T>* con = dynamic_cast<base_immutable<T>*>(sub);
+		if (nullptr != con && con->potential_descendent(target) && con->temp_eval_reaches(target))
+		{
+			return true;
+		}
+	}
+	return false;
+}
+
 template <typename T>
 inode<T>* base_immutable<T>::temp_eval_helper (const iconnector<T>* target, constant<T>*& base) const
 {
-- 
2.43.0


From eb7d6e8786e5d5975e40d8e9dd5f2eb5178747c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 52/59] fix: a full replay memory replaced its newest
 experience and kept the oldest ones

---
 app/rocnnet/include/models/dq_net.hpp | 3 ++-
 app/rocnnet/src/models/dq_net.cpp     | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/include/models/dq_net.hpp b/app/rocnnet/include/models/dq_net.hpp
index f3cd8f3..1c26a7c 100644
--- a/app/rocnnet/include/models/dq_net.hpp
+++ b/app/rocnnet/include/models/dq_net.hpp
@@ -14,6 +14,7 @@
 #define ROCNNET_DQN_HPP
 
 #include <algorithm>
+#include <deque>
 #include <numeric>
 #include <vector>
 #include <cassert>
@@ -175,7 +176,7 @@ private:
 
 	std::uniform_real_distribution<double> explore_;
 
-	std::vector<exp_batch> experiences_;
+	std::deque<exp_batch> experiences_; // oldest first
 
 	std::string scope_;
 };
diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..02f4c53 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -92,8 +92,7 @@ void dq_net::store (std::vector<double> observation, size_t action_idx,
 		experiences_.push_back(exp_batch{observation, action_idx, reward, new_obs});
 		if (experiences_.size() > params_.max_exp_)
 		{
-			experiences_.front() = std::move(experiences_.back());
-			experiences_.pop_back();
+			experiences_.pop_front();
 		}
 	}
 	n_store_called_++;
-- 
2.43.0


From cbe8afa685f64fdf8d6a4a52093bedb823942bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 53/59] fix: copied and moved agents lost their experiences,
 and assigned ones kept those of the network they replaced

---
 app/rocnnet/src/models/dq_net.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 02f4c53..cab7227 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -230,6 +230,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_store_called_ = other.n_store_called_;
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
+	experiences_ = other.experiences_;
 	generator_ = other.generator_;
 
 	// copy over actors
@@ -253,6 +254,7 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_store_called_ = std::move(other.n_store_called_);
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
+	experiences_ = std::move(other.experiences_);
 	generator_ = std::move(other.generator_);
 
 	// move over actors
-- 
2.43.0


From 8f0a87d70a2c4627aa4364522da99da5654f1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 54/59] fix: asking a frozen node for its shape keeps the
 frozen values

---
 app/tenncor/src/graph/connector/immutable/base_immutable.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 8664ab3..27ffd02 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,8 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	// frozen graphs keep their values
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape();
-- 
2.43.0


From 7529427e2306ac4bf27598363a7aa728cf4b5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 55/59] fix: derivative of the norm of a node

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index b62d2f7..aad7b91 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1173,8 +1173,10 @@ varptr<T> l2norm (const varptr<T> a)
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// |f(x)|' = f(x) * f'(x) / |f(x)|
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return l2norm(grad);
+		return a * grad / l2norm(a);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 0ea06247274f03de8247ca070bb09c91b2b99cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 56/59] fix: stored shapes whose element count overflows were
 accepted

---
 app/tenncor/src/tensor/tensor.ipp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index f7f695b..affbe40 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -523,8 +523,17 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 	tensorshape temp_alloc_shape(alloc);
 	// sanity check before changing anything, be less stringent, since this may represent some less evident issue
 	if (false == temp_alloc_shape.is_compatible_with(temp_allowed_shape) ||
-		false == temp_alloc_shape.is_fully_defined() ||
-		temp_alloc_shape.n_elems() * sizeof(T) != protostr.size()) return false;
+		false == temp_alloc_shape.is_fully_defined()) return false;
+	// the number of elements is untrusted: divide instead of multiplying dimensions which can overflow
+	size_t nbytes = protostr.size();
+	if (nbytes % sizeof(T)) return false;
+	size_t nremain = nbytes / sizeof(T);
+	for (size_t dim : alloc)
+	{
+		if (nremain % dim) return false;
+		nremain /= dim;
+	}
+	if (nremain != 1) return false;
 
 	deallocate();
 	allowed_shape_ = temp_allowed_shape;
-- 
2.43.0


From fffd84921e436856e90d78165c04ff5e81d3a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:12 +0000
Subject: [PATCH 57/59] fix: restoring a tensor with another allocator released
 its data to the wrong one

---
 app/tenncor/src/tensor/tensor.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index affbe40..e4b6100 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -549,8 +549,11 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 template <typename T>
 bool tensor<T>::from_proto (const tenncor::tensor_proto& other, size_t alloc_id)
 {
-	set_allocator(alloc_id);
-	return from_proto(other);
+	// existing data is returned to the allocator it came from
+	tensor<T> restored(tensorshape(), alloc_id);
+	if (false == restored.from_proto(other)) return false;
+	*this = std::move(restored);
+	return true;
 }
 
 // slice along the first dimension
-- 
2.43.0


From 5de51cb5c51ca170780453a89afcf43ac8c6c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:31 +0000
Subject: [PATCH 58/59] fix: joining a frozen graph with another one thawed it

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index b14cbac..45bf64e 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -456,6 +456,8 @@ struct iconnector<T>::graph_manager
 	void consume (graph_manager* other)
 	{
 		if (this == other) return;
+		// joining another graph is no reason to thaw a frozen one
+		freeze_ = freeze_ || other->freeze_;
 		while (false == other->updates_.empty())
 		{
 			updates_.push(other->updates_.top());
-- 
2.43.0


From 7ae03b0d7b118254e78fafb734ca9c35a5a9172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 59/59] fix: assigning or moving a shape node leaked its
 previous function

---
 app/tenncor/src/graph/connector/immutable/shape_dep.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
index 88bd1e4..4e28dab 100644
--- a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
+++ b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
@@ -62,6 +62,7 @@ shape_dep<T>& shape_dep<T>::operator = (const shape_dep<T>& other)
 	{
 		base_immutable<T>::operator = (other);
 		shape_ = other.shape_;
+		delete shape_info;
 		shape_info = other.shape_info->clone();
 	}
 	return *this;
@@ -74,7 +75,9 @@ shape_dep<T>& shape_dep<T>::operator = (shape_dep<T>&& other)
 	{
 		base_immutable<T>::operator = (std::move(other));
 		shape_ = std::move(other.shape_);
+		delete shape_info;
 		shape_info = other.shape_info->move();
+		delete other.shape_info;
 		other.shape_info = nullptr;
 	}
 	return *this;
@@ -106,6 +109,7 @@ shape_dep<T>::shape_dep (shape_dep<T>&& other) :
 {
 	shape_ = std::move(other.shape_);
 	shape_info = other.shape_info->move();
+	delete other.shape_info;
 	other.shape_info = nullptr;
 }
 
-- 
2.43.0

