From bb654477a0c62b8ca99eb47b87d0b7c5b8b01c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 001/161] fix: reset capacity of a moved-from Vector

The move constructor left the source with its old capacity but no storage,
so the next pushBack wrote through a null pointer.
---
 include/FlameIDE/Templates/Vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 324bde2..5753e64 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -434,6 +434,7 @@ VECTOR_TYPE::Vector(VECTOR_TYPE &&vector) noexcept
 {
 	vector.head = nullptr;
 	vector.tail = nullptr;
+	vector.vectorCapacity = 0;
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 87843909fe3a5c2c5a68d47eb6457af11ebab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 002/161] fix: create the requested number of elements in
 Vector(size)

The constructor filled the whole enlarged capacity, so Vector(2) had three
elements.
---
 include/FlameIDE/Templates/Vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 5753e64..0eda737 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -441,8 +441,10 @@ TEMPLATE_DEFINE
 VECTOR_TYPE::Vector(typename VECTOR_TYPE::SizeType size)
 		: Allocator()
 		, vectorCapacity((size * VECTOR_RESIZE_FACTOR_MULT) / VECTOR_RESIZE_FACTOR_DIV)
-		, head(construct(vectorCapacity)), tail(head + vectorCapacity)
-{}
+		, head(this->createArray(vectorCapacity)), tail(head)
+{
+	resize(size);
+}
 
 TEMPLATE_DEFINE
 template<SizeTraits::SizeType INIT_LIST_SIZE>
-- 
2.43.0


From 1425d43eaf026aafa53079ec2d8159f1b08e9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 003/161] fix: let Vector::resize reach its capacity and shrink

resize(n) did nothing when n equalled the capacity or was below the size.
---
 include/FlameIDE/Templates/Vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 0eda737..fd28e86 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -555,17 +555,19 @@ void VECTOR_TYPE::resize(typename VECTOR_TYPE::SizeType newSize)
 {
 	if (size() < newSize)
 	{
-		if (capacity() > newSize)
+		if (capacity() >= newSize)
 		{
 			while (size() != newSize)
 				emplaceNew<Type>(tail++);
 		}
-		else if (capacity() < newSize)
+		else
 		{
 			reserve(nextCapacity());
 			resize(newSize);
 		}
 	}
+	while (size() > newSize)
+		popBack();
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From de99f5577d2aa935c9944b409802bd8501677b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 004/161] fix: grow a Vector of capacity one

1 * 3 / 2 is 1, so growing a vector of capacity one recursed forever.
---
 include/FlameIDE/Templates/Vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index fd28e86..d3ed539 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -928,7 +928,10 @@ typename VECTOR_TYPE::SizeType VECTOR_TYPE::nextCapacity() const
 {
 	if (capacity())
 	{
-		return ((capacity() * VECTOR_RESIZE_FACTOR_MULT) / VECTOR_RESIZE_FACTOR_DIV);
+		auto next = SizeType(
+				(capacity() * VECTOR_RESIZE_FACTOR_MULT) / VECTOR_RESIZE_FACTOR_DIV
+		);
+		return next > capacity() ? next : capacity() + 1;
 	}
 	else
 	{
-- 
2.43.0


From 4f0ca91fe4e2b57df1fee76006cfa71469fe0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 005/161] fix: define copy and move assignment of Vector

Both operators were declared but had no definition.
---
 include/FlameIDE/Templates/Vector.hpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index d3ed539..2264392 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -489,6 +489,36 @@ VECTOR_TYPE &VECTOR_TYPE::operator=(const VECTOR_TYPE_1 &vector)
 	return *this;
 }
 
+TEMPLATE_DEFINE
+VECTOR_TYPE &VECTOR_TYPE::operator=(const Me &vector)
+{
+	if (this == &vector)
+		return *this;
+
+	clean();
+	reserve(vector.size());
+	for (ConstReference i : vector)
+		pushBack(i);
+	return *this;
+}
+
+TEMPLATE_DEFINE
+VECTOR_TYPE &VECTOR_TYPE::operator=(Me &&vector) noexcept
+{
+	if (this == &vector)
+		return *this;
+
+	clean();
+	freeArray(head);
+	head = vector.head;
+	tail = vector.tail;
+	vectorCapacity = vector.vectorCapacity;
+	vector.head = nullptr;
+	vector.tail = nullptr;
+	vector.vectorCapacity = 0;
+	return *this;
+}
+
 TEMPLATE_DEFINE TEMPLATE_DEFINE_1
 VECTOR_TYPE &VECTOR_TYPE::operator=(VECTOR_TYPE_1 &&vector) noexcept
 {
-- 
2.43.0


From 59e60418504153eab540667c6767e48cf7b4b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 006/161] fix: return the copy from Vector::clone

---
 include/FlameIDE/Templates/Vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 2264392..89d3ccb 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -656,6 +656,7 @@ VECTOR_TYPE VECTOR_TYPE::clone()
 	clone.reserve(size());
 	for (const Type &i : *this)
 		clone.pushBack(i);
+	return clone;
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 916807a290525763e965851a25ea5982a5a6692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 007/161] fix: make Vector::insert of an rvalue compile

placementNew needs a value; the other overloads use emplaceNew here. The
reallocating path also lost the rvalue category.
---
 include/FlameIDE/Templates/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 89d3ccb..430474a 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -818,7 +818,7 @@ void VECTOR_TYPE::insert(typename VECTOR_TYPE::Iterator it
 			pushBack(move(object));
 		else
 		{
-			placementNew<Type>(tail);
+			emplaceNew<Type>(tail);
 
 			Range<ReverseIterator> rangeOld(rbegin(), ReverseIterator(it - 1))
 					, rangeNew(--rangeOld.begin(), --rangeOld.end());
@@ -835,7 +835,7 @@ void VECTOR_TYPE::insert(typename VECTOR_TYPE::Iterator it
 	{
 		auto newIt = it - begin();
 		reserve(nextCapacity());
-		insert(begin() + newIt, object);
+		insert(begin() + newIt, move(object));
 	}
 }
 
-- 
2.43.0


From 0b717857327d1df5b5c46f488232b8942ecab3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 008/161] fix: keep the value when a Vector element is added to
 its own vector

Reallocation or shifting invalidated the reference before it was read.
---
 include/FlameIDE/Templates/Vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 430474a..ace2db9 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -741,8 +741,9 @@ void VECTOR_TYPE::pushBack(typename VECTOR_TYPE::ConstReference object)
 	}
 	else
 	{
+		Type copy(object);
 		reserve(nextCapacity());
-		pushBack(object);
+		pushBack(move(copy));
 	}
 }
 
@@ -788,6 +789,7 @@ void VECTOR_TYPE::insert(typename VECTOR_TYPE::Iterator it
 			pushBack(object);
 		else
 		{
+			Type copy(object);
 			emplaceNew<Type>(tail);
 
 			Range<ReverseIterator> rangeOld(rbegin(), ReverseIterator(it - 1))
@@ -796,15 +798,16 @@ void VECTOR_TYPE::insert(typename VECTOR_TYPE::Iterator it
 					itNew != rangeNew.end(); ++itOld, ++itNew)
 				*itNew = move(*itOld);
 
-			*it = object;
+			*it = move(copy);
 			++tail;
 		}
 	}
 	else
 	{
+		Type copy(object);
 		auto newIt = it - begin();
 		reserve(nextCapacity());
-		insert(begin() + newIt, object);
+		insert(begin() + newIt, move(copy));
 	}
 }
 
-- 
2.43.0


From 7c8d39c694e1d2ea0715278178efcb77befea5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 009/161] fix: do not construct over a live element in
 Vector::emplace

---
 include/FlameIDE/Templates/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index ace2db9..b04119a 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -904,7 +904,7 @@ void VECTOR_TYPE::emplace(typename VECTOR_TYPE::Iterator it, Args &&...args)
 					++itOld, ++itNew)
 				*itNew = move(*itOld);
 
-			placementNew<Type>(getPointer(it), forward<decltype(args)>(args)...);
+			*it = Type(forward<decltype(args)>(args)...);
 			++tail;
 		}
 	}
-- 
2.43.0


From ad636ebcbf7e08db40dd9245b29e56c956d04cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 010/161] fix: destroy the vacated element in Vector::erase(it)

---
 include/FlameIDE/Templates/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index b04119a..b1a00e3 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -930,7 +930,7 @@ void VECTOR_TYPE::erase(VECTOR_TYPE::Iterator it)
 		for (Iterator itOld = rangeOld.begin(), itNew = rangeNew.begin();
 				itOld != rangeOld.end(); ++itOld, ++itNew)
 			*itNew = move(*itOld);
-		--tail;
+		popBack();
 	}
 }
 
-- 
2.43.0


From deb2edb48566da142a98fe9c30e43dc421ce08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 011/161] fix: destroy the right elements in
 Vector::erase(range)

The erased elements were destroyed and then assigned to, while the vacated
elements at the end were never destroyed.
---
 include/FlameIDE/Templates/Vector.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index b1a00e3..7202e1e 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -943,9 +943,7 @@ void VECTOR_TYPE::erase(typename VECTOR_TYPE::Iterator itBegin
 	else if (itEnd - itBegin < SizeTraits::SsizeType(size())
 			&& itEnd - itBegin > SizeTraits::SsizeType(0))
 	{
-		Range<Iterator> rangeErasing(itBegin, itEnd);
-		for (auto &i : rangeErasing)
-			i.~T();
+		auto newSize = size() - SizeType(itEnd - itBegin);
 
 		auto rangeOld = makeRange(itEnd, end());
 		auto rangeNew = makeRange(itBegin, itBegin + (end() - itEnd));
@@ -953,7 +951,8 @@ void VECTOR_TYPE::erase(typename VECTOR_TYPE::Iterator itBegin
 				itOld != rangeOld.end(); ++itNew, ++itOld)
 			*itNew = move(*itOld);
 
-		tail -= SizeType(rangeErasing.end() - rangeErasing.begin());
+		while (size() != newSize)
+			popBack();
 	}
 }
 
-- 
2.43.0


From 75320b18eae63e3c3753b73a34d037dfd4afff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:04 +0000
Subject: [PATCH 012/161] fix: destroy InitializerList elements once

The destructor destroyed the elements of a plain array member, which the
language destroys again right after it.
---
 include/FlameIDE/Templates/InitializerList.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/FlameIDE/Templates/InitializerList.hpp b/include/FlameIDE/Templates/InitializerList.hpp
index 60d5e62..5a32a2b 100644
--- a/include/FlameIDE/Templates/InitializerList.hpp
+++ b/include/FlameIDE/Templates/InitializerList.hpp
@@ -137,8 +137,6 @@ typename InitializerList<U, SIZE1>::Iterator InitializerList<T, SIZE>::end(
 template<typename T, SizeTraits::SizeType SIZE>
 InitializerList<T, SIZE>::~InitializerList()
 {
-	for (auto &it : *this)
-		it.~T();
 }
 
 }}
-- 
2.43.0


From 6b225124b3141e37aa3c4bdfba42be451d967cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 013/161] fix: compare every element in Array::operator==

The second iterator was never advanced, so each element was compared with
the first element of the other array.
---
 include/FlameIDE/Templates/Array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index a1e73ae..af12308 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -571,6 +571,7 @@ bool ARRAY_TYPE::operator==(const ARRAY_TYPE &array) const noexcept
 			{
 				return false;
 			}
+			++it;
 		}
 	}
 	return true;
-- 
2.43.0


From cd70e9475bae8e9416d8966ad607936dccda2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 014/161] fix: keep the value when an Array element is inserted
 into its own array

Shifting overwrote the referenced element before it was read.
---
 include/FlameIDE/Templates/Array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index af12308..85e6fe6 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -817,6 +817,7 @@ void ARRAY_TYPE::insert(typename ARRAY_TYPE::Iterator it
 			pushBack(object);
 		else
 		{
+			Type copy(object);
 			emplaceNew<Type>(tail);
 
 			Range<ReverseIterator> rangeOld(rbegin(), ReverseIterator(it - 1))
@@ -825,7 +826,7 @@ void ARRAY_TYPE::insert(typename ARRAY_TYPE::Iterator it
 					itNew != rangeNew.end(); ++itOld, ++itNew)
 				*itNew = move(*itOld);
 
-			*it = object;
+			*it = move(copy);
 			++tail;
 		}
 	}
-- 
2.43.0


From fc7629840f4c0e0b8a6fd8b0b2eb7668282a8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 015/161] fix: destroy the vacated element in Array::erase(it)

---
 include/FlameIDE/Templates/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index 85e6fe6..cd34b19 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -944,7 +944,7 @@ void ARRAY_TYPE::erase(ARRAY_TYPE::Iterator it)
 		for (Iterator itOld = rangeOld.begin(), itNew = rangeNew.begin();
 				itOld != rangeOld.end(); ++itOld, ++itNew)
 			*itNew = move(*itOld);
-		--tail;
+		popBack();
 	}
 }
 
-- 
2.43.0


From ce5848b4aaae7d57d61710fcc82e531101689b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 016/161] fix: destroy the right elements in
 Array::erase(range)

The erased elements were destroyed and then assigned to, while the vacated
elements at the end were never destroyed.
---
 include/FlameIDE/Templates/Array.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index cd34b19..785d419 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -956,9 +956,7 @@ void ARRAY_TYPE::erase(ARRAY_TYPE::Iterator itBegin, ARRAY_TYPE::Iterator itEnd)
 	else if (itEnd - itBegin < SizeTraits::SsizeType(size())
 			&& itEnd - itBegin > SizeTraits::SsizeType(0))
 	{
-		Range<Iterator> rangeErasing(itBegin, itEnd);
-		for (auto &i : rangeErasing)
-			i.~T();
+		auto newSize = size() - SizeType(itEnd - itBegin);
 
 		Range<Iterator> rangeOld(itEnd, end())
 				, rangeNew(itBegin, itBegin + (end() - itEnd));
@@ -966,7 +964,8 @@ void ARRAY_TYPE::erase(ARRAY_TYPE::Iterator itBegin, ARRAY_TYPE::Iterator itEnd)
 				itOld != rangeOld.end(); ++itNew, ++itOld)
 			*itNew = move(*itOld);
 
-		tail -= SizeType(rangeErasing.end() - rangeErasing.begin());
+		while (size() != newSize)
+			popBack();
 	}
 }
 
-- 
2.43.0


From ca6f5efd88622c1960060790ef18e140d44676ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 017/161] fix: copy every element in StaticArray copy
 assignment and clone

The destination iterator was never advanced, so only the first element was
written.
---
 include/FlameIDE/Templates/Array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index 785d419..f143dfb 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -1351,6 +1351,7 @@ ARRAY_TYPE &ARRAY_TYPE::operator=(const ARRAY_TYPE_1 &array)
 		for (auto const &i : array)
 		{
 			*it = i;
+			++it;
 		}
 	}
 	return *this;
@@ -1365,6 +1366,7 @@ ARRAY_TYPE &ARRAY_TYPE::operator=(const ARRAY_TYPE &array)
 		for (auto const &i : array)
 		{
 			*it = i;
+			++it;
 		}
 	}
 	return *this;
@@ -1480,6 +1482,7 @@ typename ARRAY_TYPE::Me ARRAY_TYPE::clone() const
 	for (ConstReference i : *this)
 	{
 		*copyIt = i;
+		++copyIt;
 	}
 	return copy;
 }
-- 
2.43.0


From 9cf5fa0217cdb34272c8c86d48624738ca2e00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:15 +0000
Subject: [PATCH 018/161] fix: make StaticArray movable

Move construction and assignment did not compile: an rvalue reference was
bound to an element. The assignments also returned nothing.
---
 include/FlameIDE/Templates/Array.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index f143dfb..6bed4a3 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -1312,7 +1312,7 @@ ARRAY_TYPE::Array(ARRAY_TYPE_1 &&array) noexcept
 	if (array.size() <= capacity())
 	{
 		auto it = this->begin();
-		for (MoveReference i : array)
+		for (Reference i : array)
 		{
 			*it = move(i);
 			++it;
@@ -1324,7 +1324,7 @@ TEMPLATE_DEFINE
 ARRAY_TYPE::Array(ARRAY_TYPE &&array) noexcept
 {
 	auto it = this->begin();
-	for (MoveReference i : array)
+	for (Reference i : array)
 	{
 		*it = move(i);
 		++it;
@@ -1405,23 +1405,28 @@ ARRAY_TYPE &ARRAY_TYPE::operator=(ARRAY_TYPE_1 &&array) noexcept
 	if (array.size() <= capacity())
 	{
 		auto it = this->begin();
-		for (MoveReference i : array)
+		for (Reference i : array)
 		{
 			*it = move(i);
 			++it;
 		}
 	}
+	return *this;
 }
 
 TEMPLATE_DEFINE
 ARRAY_TYPE &ARRAY_TYPE::operator=(ARRAY_TYPE &&array) noexcept
 {
+	if (&array == this)
+		return *this;
+
 	auto it = this->begin();
-	for (MoveReference i : array)
+	for (Reference i : array)
 	{
 		*it = move(i);
 		++it;
 	}
+	return *this;
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 268b56f526b1f6dc9102790bff7d169880af0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 019/161] fix: allow to measure and walk an empty List

Without elements head and tail are null, so size() dereferenced null and
begin() never met end().
---
 include/FlameIDE/Templates/List.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 36ba566..7c201db 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -512,7 +512,7 @@ TEMPLATE_DEFINE
 typename LIST_TYPE::SizeType LIST_TYPE::size() const
 {
 	SizeType resultSize = 0;
-	for (Node *pointer = head; pointer != &postLast; pointer = pointer->next)
+	for (Node *pointer = head; pointer && pointer != &postLast; pointer = pointer->next)
 		++resultSize;
 	return resultSize;
 }
@@ -542,13 +542,13 @@ LIST_TYPE LIST_TYPE::clone() const
 TEMPLATE_DEFINE
 typename LIST_TYPE::Iterator LIST_TYPE::begin()
 {
-	return Iterator(head);
+	return head ? Iterator(head) : end();
 }
 
 TEMPLATE_DEFINE
 typename LIST_TYPE::ConstIterator LIST_TYPE::begin() const
 {
-	return ConstIterator(head);
+	return head ? ConstIterator(head) : end();
 }
 
 TEMPLATE_DEFINE
@@ -560,13 +560,13 @@ typename LIST_TYPE::ConstIterator LIST_TYPE::cbegin() const
 TEMPLATE_DEFINE
 typename LIST_TYPE::ReverseIterator LIST_TYPE::rbegin()
 {
-	return ReverseIterator(Iterator(tail));
+	return tail ? ReverseIterator(Iterator(tail)) : rend();
 }
 
 TEMPLATE_DEFINE
 typename LIST_TYPE::ConstReverseIterator LIST_TYPE::rbegin() const
 {
-	return ConstReverseIterator(ConstIterator(tail));
+	return tail ? ConstReverseIterator(ConstIterator(tail)) : rend();
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 0cc56e14dda4f824b6008be936fcfb7db56cab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 020/161] fix: move from an empty List

Relinking dereferenced the null head of the source.
---
 include/FlameIDE/Templates/List.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 7c201db..1ce7f81 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -386,7 +386,8 @@ LIST_TYPE::List(LIST_TYPE &&list)
 	list.tail = nullptr;
 	list.cleanLinks();
 
-	updateLinks();
+	if (head)
+		updateLinks();
 }
 
 TEMPLATE_DEFINE
@@ -446,10 +447,14 @@ LIST_TYPE &LIST_TYPE::operator=(const LIST_TYPE &list)
 TEMPLATE_DEFINE
 LIST_TYPE &LIST_TYPE::operator=(LIST_TYPE &&list)
 {
+	if (this == &list)
+		return *this;
+
 	clean();
 	head = list.head;
 	tail = list.tail;
-	updateLinks();
+	if (head)
+		updateLinks();
 
 	list.head = nullptr;
 	list.tail = nullptr;
-- 
2.43.0


From 00c6ef2ea6b1ddf1c99a6f4fadd5fd8df0db138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 021/161] fix: pop the only element of a List and nothing from
 an empty one

Removing the last element left head pointing at freed memory, and popping
from an empty list dereferenced null.
---
 include/FlameIDE/Templates/List.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 1ce7f81..a492e3c 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -878,7 +878,11 @@ void LIST_TYPE::emplace(typename LIST_TYPE::Iterator it, Args &&...args)
 TEMPLATE_DEFINE
 void LIST_TYPE::popBack()
 {
-	if (tail->previous)
+	if (head == tail)
+	{
+		clean();
+	}
+	else
 	{
 		auto pointer = tail;
 		tail = tail->previous;
@@ -893,7 +897,11 @@ void LIST_TYPE::popBack()
 TEMPLATE_DEFINE
 void LIST_TYPE::popFront()
 {
-	if (head->next)
+	if (head == tail)
+	{
+		clean();
+	}
+	else
 	{
 		auto pointer = head;
 		head = head->next;
-- 
2.43.0


From 7711c058c71ff333bc97a85d2b0edef6ef08fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 022/161] fix: link an element inserted into an empty List

insert() and emplace() left the new element without its end markers.
---
 include/FlameIDE/Templates/List.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index a492e3c..99f436c 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -730,8 +730,7 @@ void LIST_TYPE::insert(typename LIST_TYPE::Iterator it
 {
 	if (!size())
 	{
-		Node *pointer = allocator.construct(object);
-		head = tail = pointer;
+		pushBack(object);
 	}
 	else if (it == begin())
 	{
@@ -760,8 +759,7 @@ void LIST_TYPE::insert(typename LIST_TYPE::Iterator it
 {
 	if (!size())
 	{
-		Node *pointer = allocator.construct(move(object));
-		head = tail = pointer;
+		pushBack(move(object));
 	}
 	else if (it == begin())
 	{
@@ -851,8 +849,7 @@ void LIST_TYPE::emplace(typename LIST_TYPE::Iterator it, Args &&...args)
 {
 	if (!size())
 	{
-		Node *pointer = allocator.construct(Type(forward<decltype(args)>(args)...));
-		head = tail = pointer;
+		emplaceBack(forward<decltype(args)>(args)...);
 	}
 	else if (it == begin())
 	{
-- 
2.43.0


From 98a243c97fb6030e6e073a13a3f404b44b08a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 023/161] fix: make List copy assignment compile and accept an
 empty source

A mutable iterator was initialised from a constant list, and assigning an
empty list kept the old elements.
---
 include/FlameIDE/Templates/List.hpp | 43 ++++++++++++++---------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 99f436c..7673780 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -412,33 +412,30 @@ LIST_TYPE &LIST_TYPE::operator=(const LIST_TYPE &list)
 	size_t mySize = this->size();
 	size_t listSize = list.size();
 
-	if (listSize)
+	if (listSize > mySize)
 	{
-		if (listSize > mySize)
+		ConstIterator it = list.begin();
+		for (auto &i : *this)
 		{
-			Iterator it = list.begin();
-			for (auto &i : *this)
-			{
-				i = *it;
-				++it;
-			}
-			for (; it != list.end(); ++it)
-			{
-				pushBack(*it);
-			}
+			i = *it;
+			++it;
 		}
-		else
+		for (; it != list.end(); ++it)
 		{
-			Iterator it = this->begin();
-			for (auto &i : list)
-			{
-				*it = i;
-				++it;
-			}
-			for (; listSize != mySize; --mySize)
-			{
-				popBack();
-			}
+			pushBack(*it);
+		}
+	}
+	else
+	{
+		Iterator it = this->begin();
+		for (auto &i : list)
+		{
+			*it = i;
+			++it;
+		}
+		for (; listSize != mySize; --mySize)
+		{
+			popBack();
 		}
 	}
 	return *this;
-- 
2.43.0


From ceb475fc4a5d1e47a07072c498f8358b96ab487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 024/161] fix: erase an empty range at the end of a List

The loop looked for the end marker among the elements and never stopped.
---
 include/FlameIDE/Templates/List.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 7673780..2994cf0 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -935,6 +935,9 @@ TEMPLATE_DEFINE
 void LIST_TYPE::erase(typename LIST_TYPE::Iterator itBegin
 		, typename LIST_TYPE::Iterator itEnd)
 {
+	if (itBegin == itEnd)
+		return;
+
 	Types::uichar_t variaint = 10u * (itBegin == begin())
 			+ (itEnd == end());
 
-- 
2.43.0


From 98c525ca19eed6d06dc1d0eebd510a8756463d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:05 +0000
Subject: [PATCH 025/161] fix: keep the tail of a List when its last element is
 erased

Erasing the last element by iterator left tail pointing at freed memory.
---
 include/FlameIDE/Templates/List.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/List.hpp b/include/FlameIDE/Templates/List.hpp
index 2994cf0..f52146e 100644
--- a/include/FlameIDE/Templates/List.hpp
+++ b/include/FlameIDE/Templates/List.hpp
@@ -914,7 +914,7 @@ void LIST_TYPE::erase(typename LIST_TYPE::Iterator it)
 	{
 		popFront();
 	}
-	else if (it == end())
+	else if (it == end() || it.internalData() == tail)
 	{
 		popBack();
 	}
-- 
2.43.0


From 068fdaf6d3966a8484d0e7c18ed7c754f99d1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 026/161] fix: do not destroy copied and moved CircularArray
 elements twice

---
 include/FlameIDE/Templates/CircularArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index eb73fb6..681403e 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -269,9 +269,10 @@ TEMPLATE_DEFINE
 CIRCULAR_ARRAY_TYPE::CircularArray(const Me &array) noexcept
 		: buffer(), head(buffer.begin()), tail(buffer.begin() + array.size())
 {
+	auto it = head;
 	for (const auto &i : array)
 	{
-		buffer.pushBack(i);
+		placementNew(getPointer(it++), i);
 	}
 }
 
@@ -279,9 +280,10 @@ TEMPLATE_DEFINE
 CIRCULAR_ARRAY_TYPE::CircularArray(Me &&array) noexcept
 		: buffer(), head(buffer.begin()), tail(buffer.begin() + array.size())
 {
+	auto it = head;
 	for (auto &&i : array)
 	{
-		buffer.emplaceBack(move(i));
+		placementNew(getPointer(it++), move(i));
 	}
 }
 
-- 
2.43.0


From 46ca09306ea8155c0722211b7c4614a7fde55447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 027/161] fix: start constant iteration of CircularArray at its
 first element

---
 include/FlameIDE/Templates/CircularArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index 681403e..2122318 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -447,7 +447,7 @@ TEMPLATE_DEFINE
 typename CIRCULAR_ARRAY_TYPE::ConstIterator
 CIRCULAR_ARRAY_TYPE::cbegin() const noexcept
 {
-	return ConstIterator(buffer.cbegin(), getBufferRange());
+	return ConstIterator(buffer.cbegin() + (getPointer(head) - data()), getBufferRange());
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 4eb2b8057162e8f898ffba7af337227dfdccfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 028/161] fix: destroy the elements of CircularArray in clean()
 and not their copies

---
 include/FlameIDE/Templates/CircularArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index 2122318..93bf24c 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -347,7 +347,7 @@ CIRCULAR_ARRAY_TYPE::size() const noexcept
 TEMPLATE_DEFINE
 void CIRCULAR_ARRAY_TYPE::clean() noexcept
 {
-	for (auto i : *this)
+	for (auto &i : *this)
 	{
 		i.~T();
 	}
-- 
2.43.0


From 22157f60bc8d407bb28c4f182f091635100637f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 029/161] fix: return from CircularArray assignment and survive
 self-assignment

---
 include/FlameIDE/Templates/CircularArray.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index 93bf24c..9d9b219 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -299,21 +299,31 @@ CIRCULAR_ARRAY_TYPE::~CircularArray()
 TEMPLATE_DEFINE
 CIRCULAR_ARRAY_TYPE &CIRCULAR_ARRAY_TYPE::operator=(const Me &array) noexcept
 {
+	if (this == &array)
+	{
+		return *this;
+	}
 	clean();
 	for (auto &i : array)
 	{
 		placementNew(getPointer(tail++), i);
 	}
+	return *this;
 }
 
 TEMPLATE_DEFINE
 CIRCULAR_ARRAY_TYPE &CIRCULAR_ARRAY_TYPE::operator=(Me &&array) noexcept
 {
+	if (this == &array)
+	{
+		return *this;
+	}
 	clean();
 	for (auto &&i : array)
 	{
-		emplaceNew(getPointer(tail++), move(i));
+		placementNew(getPointer(tail++), move(i));
 	}
+	return *this;
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From e7de5a4cd6e0393a0054d5c8709f03b515971c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 030/161] fix: make CircularArray::pushBack(range) compile

---
 include/FlameIDE/Templates/CircularArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index 9d9b219..0a00cdb 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -394,7 +394,7 @@ void CIRCULAR_ARRAY_TYPE::pushBack(const Range<InputIterator> &range) noexcept
 			isSameTypes<typename RemoveAllTrait<decltype(*range.begin())>::Type, Type>()
 			, "Invalid 'InputIterator' type"
 	);
-	auto rangeSize = countIterations(range);
+	auto rangeSize = countIterations(range.begin(), range.end());
 	if (rangeSize <= capacity() - size())
 	{
 		for (auto &i : range)
@@ -412,7 +412,7 @@ void CIRCULAR_ARRAY_TYPE::pushBack(Range<InputIterator> &&range) noexcept
 			isSameTypes<typename RemoveAllTrait<decltype(*range.begin())>::Type, Type>()
 			, "Invalid 'InputIterator' type"
 	);
-	auto rangeSize = countIterations(range);
+	auto rangeSize = countIterations(range.begin(), range.end());
 	if (rangeSize <= capacity() - size())
 	{
 		for (auto &&i : range)
-- 
2.43.0


From dff9fdb3969f552bd39119a223651a4fd5f6e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:36 +0000
Subject: [PATCH 031/161] fix: forward the arguments of
 CircularArray::emplaceBack

---
 include/FlameIDE/Templates/CircularArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/CircularArray.hpp b/include/FlameIDE/Templates/CircularArray.hpp
index 0a00cdb..57ec4df 100644
--- a/include/FlameIDE/Templates/CircularArray.hpp
+++ b/include/FlameIDE/Templates/CircularArray.hpp
@@ -426,7 +426,7 @@ void CIRCULAR_ARRAY_TYPE::pushBack(Range<InputIterator> &&range) noexcept
 TEMPLATE_DEFINE template<typename ...Args>
 void CIRCULAR_ARRAY_TYPE::emplaceBack(Args &&...args) noexcept
 {
-	pushBack(Type(forward(args)...));
+	pushBack(Type(forward<Args>(args)...));
 }
 
 TEMPLATE_DEFINE
-- 
2.43.0


From 2ff3dcd44f805d99a9af66734c8cf01d6b10e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:02 +0000
Subject: [PATCH 032/161] fix: wrap circular iterators in postfix increment and
 decrement

---
 .../Templates/Iterator/CircularIterator.hpp      | 10 +++++-----
 .../Templates/Iterator/ConstCircularIterator.hpp | 10 +++++-----
 .../FlameIDE/Templates/Iterator/Operators.hpp    | 16 ++++++++++++++++
 .../Templates/Iterator/UndefOperators.hpp        |  8 ++++++++
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/FlameIDE/Templates/Iterator/CircularIterator.hpp b/include/FlameIDE/Templates/Iterator/CircularIterator.hpp
index 967bc85..c1403c1 100644
--- a/include/FlameIDE/Templates/Iterator/CircularIterator.hpp
+++ b/include/FlameIDE/Templates/Iterator/CircularIterator.hpp
@@ -70,7 +70,7 @@ public:
 	Me& operator=(const Me &) noexcept = default;
 	Me& operator=(Me &&) noexcept = default;
 
-	FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
 
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
 
@@ -102,8 +102,8 @@ public:
 	~CircularIterator() = default;
 	Me& operator=(const Me &) = default;
 
-	FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
-	FLAMEIDE_ITERATOR_OPERATOR_DEC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
 
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_PREFIX
@@ -137,9 +137,9 @@ public:
 	Me& operator=(const Me &) = default;
 
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
-	FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_PREFIX
-	FLAMEIDE_ITERATOR_OPERATOR_DEC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
 	FLAMEIDE_ITERATOR_OPERATOR_PLUS
 	FLAMEIDE_ITERATOR_OPERATOR_MINUS
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_PLUS_ASSIGN
diff --git a/include/FlameIDE/Templates/Iterator/ConstCircularIterator.hpp b/include/FlameIDE/Templates/Iterator/ConstCircularIterator.hpp
index 06d6486..0771332 100644
--- a/include/FlameIDE/Templates/Iterator/ConstCircularIterator.hpp
+++ b/include/FlameIDE/Templates/Iterator/ConstCircularIterator.hpp
@@ -69,7 +69,7 @@ ConstCircularIterator(IteratorType iterator, Range containerActualRange)
 ~ConstCircularIterator() = default;
 Me &operator=(const Me &) = default;
 
-FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
+FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
 
 FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
 
@@ -101,9 +101,9 @@ public:
 	~ConstCircularIterator() = default;
 	Me &operator=(const Me &) = default;
 
-	FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
-	FLAMEIDE_ITERATOR_OPERATOR_DEC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_PREFIX
 
 protected:
@@ -134,9 +134,9 @@ public:
 	Me &operator=(const Me &) = default;
 
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_PREFIX
-	FLAMEIDE_ITERATOR_OPERATOR_INC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_PREFIX
-	FLAMEIDE_ITERATOR_OPERATOR_DEC_POSTFIX
+	FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
 	FLAMEIDE_ITERATOR_OPERATOR_PLUS
 	FLAMEIDE_ITERATOR_OPERATOR_MINUS
 	FLAMEIDE_CIRCULARITERATOR_OPERATOR_PLUS_ASSIGN
diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index 53a191c..65cae41 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -496,6 +496,22 @@ Me &operator--() noexcept                                                     \
    return *this;                                                              \
 }
 
+#define FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX                        \
+Me operator++(int) noexcept                                                   \
+{                                                                             \
+   auto copy = *this;                                                         \
+   ++(*this);                                                                 \
+   return copy;                                                               \
+}
+
+#define FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX                        \
+Me operator--(int) noexcept                                                   \
+{                                                                             \
+   auto copy = *this;                                                         \
+   --(*this);                                                                 \
+   return copy;                                                               \
+}
+
 #define FLAMEIDE_CIRCULARITERATOR_OPERATOR_PLUS_ASSIGN                        \
 template<typename IntType> Me &operator+=(IntType value) noexcept             \
 {                                                                             \
diff --git a/include/FlameIDE/Templates/Iterator/UndefOperators.hpp b/include/FlameIDE/Templates/Iterator/UndefOperators.hpp
index 9b6e0cd..892c52f 100644
--- a/include/FlameIDE/Templates/Iterator/UndefOperators.hpp
+++ b/include/FlameIDE/Templates/Iterator/UndefOperators.hpp
@@ -268,6 +268,14 @@
 #undef FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_PREFIX
 #endif
 
+#ifdef FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
+#undef FLAMEIDE_CIRCULARITERATOR_OPERATOR_INC_POSTFIX
+#endif
+
+#ifdef FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
+#undef FLAMEIDE_CIRCULARITERATOR_OPERATOR_DEC_POSTFIX
+#endif
+
 #ifdef FLAMEIDE_CIRCULARITERATOR_OPERATOR_PLUS_ASSIGN
 #undef FLAMEIDE_CIRCULARITERATOR_OPERATOR_PLUS_ASSIGN
 #endif
-- 
2.43.0


From 3ca80c30f694eb0bdc61836d11fcecac9f10e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 033/161] fix: copy and do not move from an lvalue given to
 Variant

---
 include/FlameIDE/Templates/Variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index cf54664..45c6565 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -173,7 +173,7 @@ public:
 	template<typename T>
 	Variant(const T &initObject) noexcept;
 
-	template<typename T>
+	template<typename T, typename = typename EnableType<!IsLvalue<T>::VALUE, T>::Type>
 	Variant(T &&initObject) noexcept;
 
 	~Variant() noexcept;
@@ -196,7 +196,7 @@ public:
 	template<Types::size_t INDEX>
 	const typename GetTypeByIndex<INDEX>::Type *get() const;
 
-	template<typename T>
+	template<typename T, typename = typename EnableType<!IsLvalue<T>::VALUE, T>::Type>
 	Types::ssize_t set(T &&object);
 
 	template<typename T>
@@ -470,7 +470,7 @@ Variant<Arg, Args...>::Variant(const T &initObject) noexcept
 	>::exec(*this, initObject);
 }
 
-template<typename Arg, typename ...Args> template<typename T>
+template<typename Arg, typename ...Args> template<typename T, typename>
 Variant<Arg, Args...>::Variant(T &&initObject) noexcept
 {
 	InitStruct<
@@ -568,7 +568,7 @@ const typename GetTypeByIndex<INDEX, Arg, Args...>::Type *Variant<Arg, Args...>:
 	}
 }
 
-template<typename Arg, typename ...Args> template<typename T>
+template<typename Arg, typename ...Args> template<typename T, typename>
 Types::ssize_t Variant<Arg, Args...>::set(T &&object)
 {
 	reset();
-- 
2.43.0


From 64d4d20380da0640c827a208fcbafa75cd8d4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 034/161] fix: empty a Variant when an empty one is assigned

---
 include/FlameIDE/Templates/Variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index 45c6565..e9ca8ef 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -488,7 +488,7 @@ Variant<Arg, Args...>::~Variant() noexcept
 template<typename Arg, typename ...Args>
 Variant<Arg, Args...> &Variant<Arg, Args...>::operator=(const Me &variant) noexcept
 {
-	if (&variant != this && variant.isSet())
+	if (&variant != this)
 	{
 		reset();
 		value.assign(variant.getCurrentIndex(), variant.value);
@@ -500,7 +500,7 @@ Variant<Arg, Args...> &Variant<Arg, Args...>::operator=(const Me &variant) noexc
 template<typename Arg, typename ...Args>
 Variant<Arg, Args...> &Variant<Arg, Args...>::operator=(Me &&variant) noexcept
 {
-	if (&variant != this && variant.isSet())
+	if (&variant != this)
 	{
 		reset();
 		value.assign(variant.getCurrentIndex(), move(variant.value));
-- 
2.43.0


From 0057321603ead6845f8439e038af0fca250e90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 035/161] fix: compare two empty Variants as equal

---
 include/FlameIDE/Templates/Variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index e9ca8ef..91c5b7e 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -516,7 +516,7 @@ bool Variant<Arg, Args...>::operator==(const Me &variant) noexcept
 	{
 		return value.equal(variant.value, getCurrentIndex());
 	}
-	return false;
+	return !isSet() && !variant.isSet();
 }
 
 template<typename Arg, typename ...Args>
-- 
2.43.0


From b4512162a3d5cfb8803db480d09482882f07de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 036/161] fix: yield nothing from Variant::get<INDEX> for
 another alternative

---
 include/FlameIDE/Templates/Variant.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index 91c5b7e..4066b2c 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -551,21 +551,14 @@ template<typename Arg, typename ...Args> template<Types::size_t INDEX>
 typename GetTypeByIndex<INDEX, Arg, Args...>::Type *Variant<Arg, Args...>::get()
 {
 	using Type = typename GetTypeByIndex<INDEX>::Type;
-	return value.template get<Type>();
+	return get<Type>();
 }
 
 template<typename Arg, typename ...Args> template<Types::size_t INDEX>
 const typename GetTypeByIndex<INDEX, Arg, Args...>::Type *Variant<Arg, Args...>::get() const
 {
 	using Type = typename GetTypeByIndex<INDEX>::Type;
-	if (isSet())
-	{
-		return value.template get<Type>();
-	}
-	else
-	{
-		return nullptr;
-	}
+	return get<Type>();
 }
 
 template<typename Arg, typename ...Args> template<typename T, typename>
-- 
2.43.0


From 8a0e7ea4275124c615265197bec0dbd3c9900ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 037/161] fix: make Variant::get(object) compile

---
 include/FlameIDE/Templates/Variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index 4066b2c..39d375e 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -616,7 +616,7 @@ Variant<Arg, Args...>::get() const
 template<typename Arg, typename ...Args> template<typename T>
 bool Variant<Arg, Args...>::get(T &object) const
 {
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst obj = get();
+	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst obj = get<T>();
 	if (obj)
 	{
 		object = *obj;
-- 
2.43.0


From be13b7f3adaed800adfe7d839be8ded1e7631c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 038/161] fix: set a Variant from the object it holds

---
 include/FlameIDE/Templates/Variant.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index 39d375e..44bbef0 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -564,16 +564,18 @@ const typename GetTypeByIndex<INDEX, Arg, Args...>::Type *Variant<Arg, Args...>:
 template<typename Arg, typename ...Args> template<typename T, typename>
 Types::ssize_t Variant<Arg, Args...>::set(T &&object)
 {
+	auto copy = move(object);
 	reset();
-	currentIndex = value.set(move(object));
+	currentIndex = value.set(move(copy));
 	return getCurrentIndex();
 }
 
 template<typename Arg, typename ...Args> template<typename T>
 Types::ssize_t Variant<Arg, Args...>::set(const T &object)
 {
+	auto copy = object;
 	reset();
-	currentIndex = value.set(object);
+	currentIndex = value.set(move(copy));
 	return getCurrentIndex();
 }
 
-- 
2.43.0


From 117b3b4c9aa18f8469f4c5507e6231cc8d8fca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 039/161] fix: empty an Optional when an empty one is assigned

---
 include/FlameIDE/Templates/Optional.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/FlameIDE/Templates/Optional.hpp b/include/FlameIDE/Templates/Optional.hpp
index 3b17ea2..085dc00 100644
--- a/include/FlameIDE/Templates/Optional.hpp
+++ b/include/FlameIDE/Templates/Optional.hpp
@@ -120,6 +120,10 @@ Optional<T, Traits> &Optional<T, Traits>::operator=(const Me &optional)
 		{
 			*toValue() = optional.get();
 		}
+		else
+		{
+			unset();
+		}
 	}
 	else
 	{
@@ -141,6 +145,10 @@ Optional<T, Traits> &Optional<T, Traits>::operator=(Me &&optional) noexcept
 		{
 			*toValue() = move(optional.get());
 		}
+		else
+		{
+			unset();
+		}
 	}
 	else
 	{
-- 
2.43.0


From 9be4a38ac1c48ce889b839d303f9413e97bbdada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 040/161] fix: hold the value created by Optional::init

---
 include/FlameIDE/Templates/Optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/FlameIDE/Templates/Optional.hpp b/include/FlameIDE/Templates/Optional.hpp
index 085dc00..7bcd5b5 100644
--- a/include/FlameIDE/Templates/Optional.hpp
+++ b/include/FlameIDE/Templates/Optional.hpp
@@ -224,7 +224,9 @@ typename Optional<T, Traits>::ConstReference Optional<T, Traits>::operator*() co
 template<typename T, typename Traits>
 void Optional<T, Traits>::init()
 {
+	unset();
 	emplaceNew(toValue());
+	isFill = true;
 }
 
 template<typename T, typename Traits>
-- 
2.43.0


From 199107dac41cee3a82b860342585483d3088b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:04 +0000
Subject: [PATCH 041/161] fix: copy and do not move from an lvalue given to
 Object

---
 include/FlameIDE/Templates/Object.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Object.hpp b/include/FlameIDE/Templates/Object.hpp
index 22c4d68..51af8af 100644
--- a/include/FlameIDE/Templates/Object.hpp
+++ b/include/FlameIDE/Templates/Object.hpp
@@ -31,7 +31,7 @@ public:
 	Object(const Me &) noexcept = delete;
 	Object(Me &&object) noexcept;
 
-	template<typename T>
+	template<typename T, typename = typename EnableType<!IsLvalue<T>::VALUE, T>::Type>
 	Object(T &&value) noexcept;
 
 	template<typename T>
@@ -42,7 +42,7 @@ public:
 	Me &operator=(const Me &) noexcept = delete;
 	Me &operator=(Me &&object) noexcept;
 
-	template<typename T>
+	template<typename T, typename = typename EnableType<!IsLvalue<T>::VALUE, T>::Type>
 	Me &operator=(T &&value) noexcept;
 
 	template<typename T>
@@ -115,7 +115,7 @@ Object<SIZE_IN_BYTES, AlignedAsType>::Object(Me &&object) noexcept
 }
 
 template<Types::size_t SIZE_IN_BYTES, typename AlignedAsType>
-template<typename T>
+template<typename T, typename>
 Object<SIZE_IN_BYTES, AlignedAsType>::Object(T &&value) noexcept
 {
 	staticCheck<T>();
@@ -152,7 +152,7 @@ Object<SIZE_IN_BYTES, AlignedAsType>::operator=(Me &&object) noexcept
 }
 
 template<Types::size_t SIZE_IN_BYTES, typename AlignedAsType>
-template<typename T>
+template<typename T, typename>
 Object<SIZE_IN_BYTES, AlignedAsType> &
 Object<SIZE_IN_BYTES, AlignedAsType>::operator=(T &&value) noexcept
 {
-- 
2.43.0


From cc4cdaa988652e7c75a4dcc873af814c907aa56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:04 +0000
Subject: [PATCH 042/161] fix: set an Object from the value it holds

---
 include/FlameIDE/Templates/Object.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Object.hpp b/include/FlameIDE/Templates/Object.hpp
index 51af8af..fba82fc 100644
--- a/include/FlameIDE/Templates/Object.hpp
+++ b/include/FlameIDE/Templates/Object.hpp
@@ -157,9 +157,10 @@ Object<SIZE_IN_BYTES, AlignedAsType> &
 Object<SIZE_IN_BYTES, AlignedAsType>::operator=(T &&value) noexcept
 {
 	staticCheck<T>();
+	T copy = flame_ide::move(value);
 	destroy();
 
-	flame_ide::placementNew(flame_ide::alignedPointer<T>(data), flame_ide::move(value));
+	flame_ide::placementNew(flame_ide::alignedPointer<T>(data), flame_ide::move(copy));
 	callbackDestroy = getCallbackDestroy<T>();
 
 	return *this;
@@ -171,9 +172,10 @@ Object<SIZE_IN_BYTES, AlignedAsType> &
 Object<SIZE_IN_BYTES, AlignedAsType>::operator=(const T &value) noexcept
 {
 	staticCheck<T>();
+	T copy = value;
 	destroy();
 
-	flame_ide::placementNew(flame_ide::alignedPointer<T>(data), value);
+	flame_ide::placementNew(flame_ide::alignedPointer<T>(data), flame_ide::move(copy));
 	callbackDestroy = getCallbackDestroy<T>();
 
 	return *this;
-- 
2.43.0


From 8cdd06c559142e5943aa8139b613ecd3075b28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 043/161] fix: return the hybrid vector from assignment of an
 array or a vector

---
 include/FlameIDE/Templates/HybridVector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 04af186..d4e4630 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1346,24 +1346,28 @@ HYBVECTOR_TEMPLATE
 HYBVECTOR_TYPE &HYBVECTOR_TYPE::operator=(const Array &array) noexcept
 {
 	container = array;
+	return *this;
 }
 
 HYBVECTOR_TEMPLATE
 HYBVECTOR_TYPE &HYBVECTOR_TYPE::operator=(Array &&array) noexcept
 {
 	container = move(array);
+	return *this;
 }
 
 HYBVECTOR_TEMPLATE
 HYBVECTOR_TYPE &HYBVECTOR_TYPE::operator=(const Vector &vector) noexcept
 {
 	container = vector;
+	return *this;
 }
 
 HYBVECTOR_TEMPLATE
 HYBVECTOR_TYPE &HYBVECTOR_TYPE::operator=(Vector &&vector) noexcept
 {
 	container = move(vector);
+	return *this;
 }
 
 HYBVECTOR_TEMPLATE
-- 
2.43.0


From dbc0dd2cdffdb4a9085a19659e448a42cd033425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 044/161] fix: make iteration over a constant hybrid vector
 compile

---
 include/FlameIDE/Templates/HybridVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index d4e4630..1c60784 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1005,7 +1005,7 @@ inline bool ITERATOR_TYPE::isVectorIterator() const noexcept
 
 ITERATOR_TEMPLATE
 ITERATOR_TYPE::ConstIterator(ConstArrayIterator iterator) noexcept :
-		Parent(vWrappedIterator(iterator))
+		Parent(WrappedIterator(iterator))
 {}
 
 ITERATOR_TEMPLATE
-- 
2.43.0


From 6c8c2d1c5245c151f3c800826d2f3ee3d462ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 045/161] fix: make reverse iteration over a constant hybrid
 vector compile

---
 include/FlameIDE/Templates/HybridVector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 1c60784..37420db 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1562,15 +1562,15 @@ typename HYBVECTOR_TYPE::ConstReverseIterator HYBVECTOR_TYPE::rbegin() const
 		if (this->isArray())
 		{
 			const Array &realContainer = *(container.template get<Array>());
-			return --(realContainer.end());
+			return ConstIterator(--(realContainer.end()));
 		}
 		else
 		{
 			const Vector &realContainer = *(container.template get<Vector>());
-			return --(realContainer.end());
+			return ConstIterator(--(realContainer.end()));
 		}
 	}
-	return ConstReverseIterator();
+	return ConstReverseIterator{ ConstIterator{} };
 }
 
 HYBVECTOR_TEMPLATE
@@ -1650,15 +1650,15 @@ typename HYBVECTOR_TYPE::ConstReverseIterator HYBVECTOR_TYPE::rend() const
 		if (this->isArray())
 		{
 			const Array &realContainer = *(container.template get<Array>());
-			return --(realContainer.begin());
+			return ConstIterator(--(realContainer.begin()));
 		}
 		else
 		{
 			const Vector &realContainer = *(container.template get<Vector>());
-			return --(realContainer.begin());
+			return ConstIterator(--(realContainer.begin()));
 		}
 	}
-	return ConstReverseIterator();
+	return ConstReverseIterator{ ConstIterator{} };
 }
 
 HYBVECTOR_TEMPLATE
-- 
2.43.0


From 6e18899afaab4ce57f52dbb0eb64c45693f394f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 046/161] fix: make ordering comparisons of hybrid vector
 iterators compile

---
 include/FlameIDE/Templates/HybridVector.hpp | 64 ++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 37420db..5034d3f 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -832,16 +832,16 @@ bool ITERATOR_TYPE::operator<(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
-			ArrayIterator &itIt = *(
+			const ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
+			const ArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ArrayIterator>()
 			);
 			return it < itIt;
 		}
 		else
 		{
-			VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
-			VectorIterator &itIt = *(
+			const VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
+			const VectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<VectorIterator>()
 			);
 			return it < itIt;
@@ -858,16 +858,16 @@ bool ITERATOR_TYPE::operator>(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
-			ArrayIterator &itIt = *(
+			const ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
+			const ArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ArrayIterator>()
 			);
 			return it > itIt;
 		}
 		else
 		{
-			VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
-			VectorIterator &itIt = *(
+			const VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
+			const VectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<VectorIterator>()
 			);
 			return it > itIt;
@@ -884,16 +884,16 @@ bool ITERATOR_TYPE::operator<=(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
-			ArrayIterator &itIt = *(
+			const ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
+			const ArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ArrayIterator>()
 			);
 			return it <= itIt;
 		}
 		else
 		{
-			VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
-			VectorIterator &itIt = *(
+			const VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
+			const VectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<VectorIterator>()
 			);
 			return it <= itIt;
@@ -910,16 +910,16 @@ bool ITERATOR_TYPE::operator>=(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
-			ArrayIterator &itIt = *(
+			const ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
+			const ArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ArrayIterator>()
 			);
 			return it >= itIt;
 		}
 		else
 		{
-			VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
-			VectorIterator &itIt = *(
+			const VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
+			const VectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<VectorIterator>()
 			);
 			return it >= itIt;
@@ -1172,19 +1172,19 @@ bool ITERATOR_TYPE::operator<(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ConstArrayIterator &it = *(
+			const ConstArrayIterator &it = *(
 					wrappedIterator.template get<ConstArrayIterator>()
 			);
-			ConstArrayIterator &itIt = *(
+			const ConstArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstArrayIterator>()
 			);
 			return it < itIt;
 		}
 		else
 		{
-			ConstVectorIterator &it = *(
+			const ConstVectorIterator &it = *(
 					wrappedIterator.template get<ConstVectorIterator>());
-			ConstVectorIterator &itIt = *(
+			const ConstVectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstVectorIterator>()
 			);
 			return it < itIt;
@@ -1201,20 +1201,20 @@ bool ITERATOR_TYPE::operator>(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ConstArrayIterator &it = *(
+			const ConstArrayIterator &it = *(
 					wrappedIterator.template get<ConstArrayIterator>()
 			);
-			ConstArrayIterator &itIt = *(
+			const ConstArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstArrayIterator>()
 			);
 			return it > itIt;
 		}
 		else
 		{
-			ConstVectorIterator &it = *(
+			const ConstVectorIterator &it = *(
 					wrappedIterator.template get<ConstVectorIterator>()
 			);
-			ConstVectorIterator &itIt = *(
+			const ConstVectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstVectorIterator>()
 			);
 			return it > itIt;
@@ -1231,20 +1231,20 @@ bool ITERATOR_TYPE::operator<=(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ConstArrayIterator &it = *(
+			const ConstArrayIterator &it = *(
 					wrappedIterator.template get<ConstArrayIterator>()
 			);
-			ConstArrayIterator &itIt = *(
+			const ConstArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstArrayIterator>()
 			);
 			return it <= itIt;
 		}
 		else
 		{
-			ConstVectorIterator &it = *(
+			const ConstVectorIterator &it = *(
 					wrappedIterator.template get<ConstVectorIterator>()
 			);
-			ConstVectorIterator &itIt = *(
+			const ConstVectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstVectorIterator>()
 			);
 			return it <= itIt;
@@ -1261,19 +1261,19 @@ bool ITERATOR_TYPE::operator>=(const Me &iterator) const
 	{
 		if (isArrayIterator())
 		{
-			ConstArrayIterator &it = *(
+			const ConstArrayIterator &it = *(
 					wrappedIterator.template get<ConstArrayIterator>());
-			ConstArrayIterator &itIt = *(
+			const ConstArrayIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstArrayIterator>()
 			);
 			return it >= itIt;
 		}
 		else
 		{
-			ConstVectorIterator &it = *(
+			const ConstVectorIterator &it = *(
 					wrappedIterator.template get<ConstVectorIterator>()
 			);
-			ConstVectorIterator &itIt = *(
+			const ConstVectorIterator &itIt = *(
 					iterator.wrappedIterator.template get<ConstVectorIterator>()
 			);
 			return it >= itIt;
-- 
2.43.0


From 119a84ca868d40b6aecab9beb040eb8fb5dded0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 047/161] fix: keep the insert position when a hybrid vector
 moves to the heap

---
 include/FlameIDE/Templates/HybridVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 5034d3f..99b147a 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1790,7 +1790,7 @@ void HYBVECTOR_TYPE::insert(Iterator it, ConstReference object)
 			}
 			else
 			{
-				auto diff = this->begin() - it;
+				auto diff = it - this->begin();
 
 				this->useVector();
 
@@ -1826,7 +1826,7 @@ void HYBVECTOR_TYPE::insert(Iterator it, MoveReference object)
 			}
 			else
 			{
-				auto diff = this->begin() - it;
+				auto diff = it - this->begin();
 
 				this->useVector();
 
@@ -1864,7 +1864,7 @@ void HYBVECTOR_TYPE::insert(Iterator it, InputIterator itBegin, InputIterator it
 			}
 			else
 			{
-				auto diff = this->begin() - it;
+				auto diff = it - this->begin();
 
 				this->useVector();
 
-- 
2.43.0


From 93ca9a0030c31f587343f0b065f70d809df055a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 048/161] fix: forward the arguments of emplace in a hybrid
 vector

---
 include/FlameIDE/Templates/HybridVector.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 99b147a..c98ca2e 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1738,23 +1738,23 @@ void HYBVECTOR_TYPE::emplaceBack(Args &&...args)
 			Array *realContainer = container.template get<Array>();
 			if (realContainer->capacity() > realContainer->size())
 			{
-				realContainer->emplaceBack(forward(args)...);
+				realContainer->emplaceBack(forward<Args>(args)...);
 			}
 			else
 			{
 				this->useVector();
-				this->emplaceBack(forward(args)...);
+				this->emplaceBack(forward<Args>(args)...);
 			}
 		}
 		else
 		{
-			container.template get<Vector>()->emplaceBack(forward(args)...);
+			container.template get<Vector>()->emplaceBack(forward<Args>(args)...);
 		}
 	}
 	else
 	{
 		this->useArray();
-		this->emplaceBack(forward(args)...);
+		this->emplaceBack(forward<Args>(args)...);
 	}
 }
 
@@ -1911,22 +1911,22 @@ void HYBVECTOR_TYPE::emplace(Iterator it, Args &&...args)
 				this->useVector();
 
 				it = begin() + diff;
-				this->emplace(it, forward(args)...);
+				this->emplace(it, forward<Args>(args)...);
 			}
 			else
 			{
-				realContainer->emplace(it, forward(args)...);
+				realContainer->emplace(it, forward<Args>(args)...);
 			}
 		}
 		else
 		{
-			container.template get<Vector>()->emplace(it, forward(args)...);
+			container.template get<Vector>()->emplace(it, forward<Args>(args)...);
 		}
 	}
 	else
 	{
 		this->useArray();
-		this->emplace(it, args...);
+		this->emplace(it, forward<Args>(args)...);
 	}
 }
 
-- 
2.43.0


From 5222f00e6fd76864e3a145c52476cd47bb0c18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 049/161] fix: insert at the new position into a hybrid vector
 without storage

---
 include/FlameIDE/Templates/HybridVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index c98ca2e..aca0d5c 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1806,7 +1806,7 @@ void HYBVECTOR_TYPE::insert(Iterator it, ConstReference object)
 	else
 	{
 		this->useArray();
-		this->insert(it, move(object));
+		this->insert(this->begin(), object);
 	}
 }
 
@@ -1842,7 +1842,7 @@ void HYBVECTOR_TYPE::insert(Iterator it, MoveReference object)
 	else
 	{
 		this->useArray();
-		this->insert(it, move(object));
+		this->insert(this->begin(), move(object));
 	}
 }
 
@@ -1926,7 +1926,7 @@ void HYBVECTOR_TYPE::emplace(Iterator it, Args &&...args)
 	else
 	{
 		this->useArray();
-		this->emplace(it, forward<Args>(args)...);
+		this->emplace(this->begin(), forward<Args>(args)...);
 	}
 }
 
-- 
2.43.0


From e7ac4b83c6f161454f9de46392bf5ab1d4bdb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:50 +0000
Subject: [PATCH 050/161] fix: insert an own element of a hybrid vector when it
 moves to the heap

---
 include/FlameIDE/Templates/HybridVector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index aca0d5c..26ddbd4 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1681,8 +1681,9 @@ void HYBVECTOR_TYPE::pushBack(ConstReference object)
 			}
 			else
 			{
+				Type copy = object;
 				this->useVector();
-				this->pushBack(object);
+				this->pushBack(move(copy));
 			}
 		}
 		else
@@ -1792,10 +1793,11 @@ void HYBVECTOR_TYPE::insert(Iterator it, ConstReference object)
 			{
 				auto diff = it - this->begin();
 
+				Type copy = object;
 				this->useVector();
 
 				it = this->begin() + diff;
-				this->insert(it, object);
+				this->insert(it, move(copy));
 			}
 		}
 		else
-- 
2.43.0


From d3296c06e47302ee2bdb6f488d64bd4ffa4b3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:08 +0000
Subject: [PATCH 051/161] fix: allow a zero offset from the begin of a hybrid
 vector without storage

---
 include/FlameIDE/Templates/HybridVector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 26ddbd4..0b5351e 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -785,7 +785,7 @@ ITERATOR_TYPE &ITERATOR_TYPE::operator+=(IntType value)
 		ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
 		it += value;
 	}
-	else
+	else if (isVectorIterator())
 	{
 		VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
 		it += value;
@@ -804,7 +804,7 @@ ITERATOR_TYPE &ITERATOR_TYPE::operator-=(IntType value)
 		ArrayIterator &it = *(wrappedIterator.template get<ArrayIterator>());
 		it -= value;
 	}
-	else
+	else if (isVectorIterator())
 	{
 		VectorIterator &it = *(wrappedIterator.template get<VectorIterator>());
 		it -= value;
@@ -1122,7 +1122,7 @@ ITERATOR_TYPE &ITERATOR_TYPE::operator+=(IntType value)
 		);
 		it += value;
 	}
-	else
+	else if (isVectorIterator())
 	{
 		ConstVectorIterator &it = *(
 				wrappedIterator.template get<ConstVectorIterator>()
@@ -1142,7 +1142,7 @@ ITERATOR_TYPE &ITERATOR_TYPE::operator-=(IntType value)
 		);
 		it -= value;
 	}
-	else
+	else if (isVectorIterator())
 	{
 		ConstVectorIterator &it = *(
 				wrappedIterator.template get<ConstVectorIterator>()
-- 
2.43.0


From c410c41ee14af4f1096bef0fc39ef6aebdd9b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:15 +0000
Subject: [PATCH 052/161] fix: destroy the value of a replaced Expected only
 once

---
 include/FlameIDE/Common/Expected.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Common/Expected.hpp b/include/FlameIDE/Common/Expected.hpp
index cb5388e..82f0d39 100644
--- a/include/FlameIDE/Common/Expected.hpp
+++ b/include/FlameIDE/Common/Expected.hpp
@@ -265,16 +265,17 @@ void Expected<ResultType, ErrorType>::destroy() noexcept
 	{
 		case State::RESULT:
 			data.result.value.~ResultType();
-			return;
+			break;
 
 		case State::ERROR:
 			data.error.value.~ErrorType();
-			return;
+			break;
 
 		case State::UNKNOWN:
 		default:
-			return;
+			break;
 	}
+	data.state = State::UNKNOWN;
 }
 
 } // namespace flame_ide
-- 
2.43.0


From 2e8db7f460add2ace071b47810b44c1be69769ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:15 +0000
Subject: [PATCH 053/161] fix: keep the value of an Expected assigned to itself

---
 include/FlameIDE/Common/Expected.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Common/Expected.hpp b/include/FlameIDE/Common/Expected.hpp
index 82f0d39..7497a35 100644
--- a/include/FlameIDE/Common/Expected.hpp
+++ b/include/FlameIDE/Common/Expected.hpp
@@ -129,6 +129,9 @@ template<typename ResultType, typename ErrorType>
 Expected<ResultType, ErrorType> &
 Expected<ResultType, ErrorType>::operator=(const Me &expected) noexcept
 {
+	if (this == &expected)
+		return *this;
+
 	destroy();
 	expected.ifResult([this](const ResultType &result)
 			{
-- 
2.43.0


From 41d106a92d2dca48996aa43116ab92e468387e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:15 +0000
Subject: [PATCH 054/161] fix: empty an Expected when an empty one is moved
 into it

---
 include/FlameIDE/Common/Expected.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/FlameIDE/Common/Expected.hpp b/include/FlameIDE/Common/Expected.hpp
index 7497a35..092f40a 100644
--- a/include/FlameIDE/Common/Expected.hpp
+++ b/include/FlameIDE/Common/Expected.hpp
@@ -147,6 +147,10 @@ template<typename ResultType, typename ErrorType>
 Expected<ResultType, ErrorType> &
 Expected<ResultType, ErrorType>::operator=(Me &&expected) noexcept
 {
+	if (this == &expected)
+		return *this;
+
+	destroy();
 	expected.ifResult([this](ResultType &&result)
 			{
 				operator=(move(result));
-- 
2.43.0


From a06fae038e558645cc272aee34cad9f3b76a6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:15 +0000
Subject: [PATCH 055/161] fix: destroy the value of an Expected passed to its
 handler

---
 include/FlameIDE/Common/Expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Common/Expected.hpp b/include/FlameIDE/Common/Expected.hpp
index 092f40a..f917f46 100644
--- a/include/FlameIDE/Common/Expected.hpp
+++ b/include/FlameIDE/Common/Expected.hpp
@@ -210,7 +210,7 @@ Expected<ResultType, ErrorType>::ifResult(Functor &&functor) noexcept
 		return *this;
 
 	functor(move(data.result.value));
-	data.state = State::UNKNOWN;
+	destroy();
 
 	return *this;
 }
@@ -237,7 +237,7 @@ Expected<ResultType, ErrorType>::ifError(Functor &&functor) noexcept
 		return *this;
 
 	functor(move(data.error.value));
-	data.state = State::UNKNOWN;
+	destroy();
 
 	return *this;
 }
-- 
2.43.0


From 328a68a11294ced3a66de428f925f2b75563bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:17 +0000
Subject: [PATCH 056/161] fix: count the creating owner of a shared pointer

---
 include/FlameIDE/Templates/Pointers.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index 34a3040..fa752f5 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -360,7 +360,10 @@ template<typename ...Args>
 SHARED_TYPE::SharedPointer(Args &&...args) noexcept
 		: allocator()
 		, members{allocator.construct(flame_ide::forward<Args>(args)...)}
-{}
+{
+	if (members)
+		++(members->counter);
+}
 
 SHARED_TEMPLATE_DEFINE
 SHARED_TYPE::~SharedPointer() noexcept
-- 
2.43.0


From b2777ea5dfc4447df4251695ca3438fdc9912e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:17 +0000
Subject: [PATCH 057/161] fix: detach a cleaned shared pointer that has other
 owners

---
 include/FlameIDE/Templates/Pointers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index fa752f5..8b8e1a6 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -433,8 +433,8 @@ void SHARED_TYPE::clean() noexcept
 	if (members && !--(members->counter) )
 	{
 		allocator.destroy(members);
-		members = nullptr;
 	}
+	members = nullptr;
 }
 
 SHARED_TEMPLATE_DEFINE
-- 
2.43.0


From 655e9efdb86b3822f291e8d22245dd79a82a0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:17 +0000
Subject: [PATCH 058/161] fix: create, copy and assign empty shared pointers

---
 include/FlameIDE/Templates/Pointers.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index 8b8e1a6..c48706a 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -221,7 +221,7 @@ public:
 
 private:
 	mutable Allocator<pointer_utils::Members<T, Counter>> allocator;
-	mutable pointer_utils::Members<T, Counter> *members;
+	mutable pointer_utils::Members<T, Counter> *members = nullptr;
 };
 
 /// @brief The UniquePointer class
@@ -332,7 +332,8 @@ SHARED_TYPE::SharedPointer(const SHARED_TYPE &pointer) noexcept
 		: allocator(pointer.allocator)
 		, members(pointer.members)
 {
-	++(members->counter);
+	if (members)
+		++(members->counter);
 }
 
 SHARED_TEMPLATE_DEFINE
@@ -379,7 +380,8 @@ SHARED_TYPE &SHARED_TYPE::operator=(const SHARED_TYPE &pointer) noexcept
 	allocator = pointer.allocator;
 	members = pointer.members;
 
-	++(members->counter);
+	if (members)
+		++(members->counter);
 
 	return *this;
 }
-- 
2.43.0


From a0d36c005bf869b5933d6f9cf566145cf17dca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:18 +0000
Subject: [PATCH 059/161] fix: report an empty shared pointer as empty

---
 include/FlameIDE/Templates/Pointers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index c48706a..655186f 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -426,7 +426,7 @@ typename SHARED_TYPE::PointerToConst SHARED_TYPE::operator->() const noexcept
 SHARED_TEMPLATE_DEFINE
 SHARED_TYPE::operator bool() const noexcept
 {
-	return operator->();
+	return members;
 }
 
 SHARED_TEMPLATE_DEFINE
-- 
2.43.0


From 387a06082d2f3640e30af584415f922a52630026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:18 +0000
Subject: [PATCH 060/161] fix: keep the object of a shared pointer assigned to
 itself

---
 include/FlameIDE/Templates/Pointers.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index 655186f..a70fcdb 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -375,6 +375,9 @@ SHARED_TYPE::~SharedPointer() noexcept
 SHARED_TEMPLATE_DEFINE
 SHARED_TYPE &SHARED_TYPE::operator=(const SHARED_TYPE &pointer) noexcept
 {
+	if (this == &pointer)
+		return *this;
+
 	clean();
 
 	allocator = pointer.allocator;
@@ -389,6 +392,9 @@ SHARED_TYPE &SHARED_TYPE::operator=(const SHARED_TYPE &pointer) noexcept
 SHARED_TEMPLATE_DEFINE
 SHARED_TYPE &SHARED_TYPE::operator=(SHARED_TYPE &&pointer) noexcept
 {
+	if (this == &pointer)
+		return *this;
+
 	clean();
 
 	allocator = flame_ide::move(pointer.allocator);
-- 
2.43.0


From df808d0d676d563021f2128fe1d7209655a281a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:18 +0000
Subject: [PATCH 061/161] fix: make copies of a non-constant shared pointer
 compile

---
 include/FlameIDE/Templates/Pointers.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index a70fcdb..f86a08a 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -189,6 +189,7 @@ public:
 
 	SharedPointer() noexcept = default;
 	SharedPointer(const Me &point) noexcept;
+	SharedPointer(Me &point) noexcept;
 	SharedPointer(Me &&point) noexcept;
 //	SharedPointer(ConstReference obj) noexcept;
 //	SharedPointer(MoveReference obj) noexcept;
@@ -336,6 +337,11 @@ SHARED_TYPE::SharedPointer(const SHARED_TYPE &pointer) noexcept
 		++(members->counter);
 }
 
+SHARED_TEMPLATE_DEFINE
+SHARED_TYPE::SharedPointer(SHARED_TYPE &pointer) noexcept
+		: SharedPointer(static_cast<const Me &>(pointer))
+{}
+
 SHARED_TEMPLATE_DEFINE
 SHARED_TYPE::SharedPointer(SHARED_TYPE &&pointer) noexcept
 		: allocator(pointer.allocator)
-- 
2.43.0


From ec05e6d24fc6d2106e8c6b6c0504a72a757a5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:18 +0000
Subject: [PATCH 062/161] fix: make pointer() and reference() of a shared
 pointer compile

---
 include/FlameIDE/Templates/Pointers.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index f86a08a..bc84ecc 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -454,25 +454,25 @@ void SHARED_TYPE::clean() noexcept
 SHARED_TEMPLATE_DEFINE
 typename SHARED_TYPE::Pointer SHARED_TYPE::pointer() noexcept
 {
-	return operator*();
+	return operator->();
 }
 
 SHARED_TEMPLATE_DEFINE
 typename SHARED_TYPE::PointerToConst SHARED_TYPE::pointer() const noexcept
 {
-	return operator*();
+	return operator->();
 }
 
 SHARED_TEMPLATE_DEFINE
 typename SHARED_TYPE::Reference SHARED_TYPE::reference() noexcept
 {
-	return operator->();
+	return operator*();
 }
 
 SHARED_TEMPLATE_DEFINE
 typename SHARED_TYPE::ConstReference SHARED_TYPE::reference() const noexcept
 {
-	return operator->();
+	return operator*();
 }
 
 // UniquePointer
-- 
2.43.0


From 40826a2509aaa8425a1c4a419eebb85e4bf23b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:18 +0000
Subject: [PATCH 063/161] fix: keep the object of a unique pointer moved onto
 itself

---
 include/FlameIDE/Templates/Pointers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index bc84ecc..80cb170 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -507,6 +507,9 @@ UNIQUE_TYPE::UniquePointer(typename UNIQUE_TYPE::MoveReference obj) noexcept
 UNIQUE_TEMPLATE_DEFINE
 UNIQUE_TYPE &UNIQUE_TYPE::operator=(UNIQUE_TYPE &&pointer) noexcept
 {
+	if (this == &pointer)
+		return *this;
+
 	clean();
 
 	object = pointer.object;
-- 
2.43.0


From 5ba1727f40e97d05154350aa0ff9a868d9f3baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 064/161] fix: leave room for the terminator when appending to
 a full string

---
 include/FlameIDE/Templates/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 992089a..0f6cfd0 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -564,7 +564,7 @@ void STRING_TYPE::reserve(typename STRING_TYPE::SizeType addSize)
 TEMPLATE_TYPE
 void STRING_TYPE::pushBack(typename STRING_TYPE::ConstReference object)
 {
-	if (length() < capacity())
+	if (length() + SizeType(1) < capacity())
 	{
 		*tail = object;
 		++tail;
-- 
2.43.0


From c59327fdb72de6da5fefa5684c04e025e3421121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 065/161] fix: grow strings with little or no storage

---
 include/FlameIDE/Templates/String.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 0f6cfd0..523eae9 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -547,7 +547,7 @@ void STRING_TYPE::resize(typename STRING_TYPE::SizeType newSize)
 			stringCapacity = newSize;
 		}
 	}
-	else
+	else if (newSize)
 	{
 		head = createArray(newSize);
 		*(tail = head) = NULL_SYMBOL;
@@ -792,7 +792,9 @@ void STRING_TYPE::erase(typename STRING_TYPE::Iterator itBegin
 TEMPLATE_TYPE
 typename STRING_TYPE::SizeType STRING_TYPE::nextCapacity() const noexcept
 {
-	return (capacity() * STRING_RESIZE_FACTOR_MULT) / STRING_RESIZE_FACTOR_DIV;
+	const SizeType next = (capacity() * STRING_RESIZE_FACTOR_MULT)
+			/ STRING_RESIZE_FACTOR_DIV;
+	return next > capacity() ? next : capacity() + SizeType(1);
 }
 
 TEMPLATE_TYPE
-- 
2.43.0


From 7826dee6cc9499435ab95c5a3e60a2aa6696cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 066/161] fix: assign a string with its length and within its
 storage

---
 include/FlameIDE/Templates/String.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 523eae9..ddb3a94 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -246,20 +246,22 @@ STRING_TYPE::~BasicString() noexcept
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator=(const STRING_TYPE &string) noexcept
 {
-	if (capacity() >= string.length())
+	if (this == &string)
+		return *this;
+
+	if (capacity() > string.length())
 	{
 		clean();
-		Iterator it = begin();
 		for (auto i : string)
 		{
-			*it = i;
-			++it;
+			*tail = i;
+			++tail;
 		}
-		*it = NULL_SYMBOL;
+		*tail = NULL_SYMBOL;
 	}
 	else
 	{
-		reserve(string.length() - length());
+		reserve(string.length() + SizeType(1) - capacity());
 		operator=(string);
 	}
 	return *this;
-- 
2.43.0


From d1beaef810d49a988088449f40f2501f59bfa86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 067/161] fix: keep a string moved onto itself

---
 include/FlameIDE/Templates/String.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index ddb3a94..99c668a 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -270,6 +270,9 @@ STRING_TYPE &STRING_TYPE::operator=(const STRING_TYPE &string) noexcept
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator=(STRING_TYPE &&string) noexcept
 {
+	if (this == &string)
+		return *this;
+
 	clean();
 	if (head)
 	{
-- 
2.43.0


From cffa1c21bf329dd171ddbcb7a5b7fcab7e932589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 068/161] fix: assign no text and own text to a string

---
 include/FlameIDE/Templates/String.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 99c668a..eaa0ce2 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -293,24 +293,23 @@ STRING_TYPE &STRING_TYPE::operator=(STRING_TYPE &&string) noexcept
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator=(typename STRING_TYPE::PointerToConst array) noexcept
 {
-	clean();
 	const auto arraySize = rawStringLength(array) + SizeType(1);
 
 	if (capacity() >= arraySize)
 	{
-		Range<decltype(array)> range(array, array + arraySize);
+		Range<decltype(array)> range(array, array + arraySize - SizeType(1));
 		auto it = begin();
 		for (auto &i : range)
 		{
 			*it = i;
 			++it;
 		}
-		tail = (--it).operator->();
+		tail = it.operator->();
 		*tail = NULL_SYMBOL;
 	}
 	else
 	{
-		reserve(arraySize - length());
+		reserve(arraySize - capacity());
 		return operator=(array);
 	}
 
-- 
2.43.0


From 3a9f4db795b711822e77bef64e9183a9864d4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 069/161] fix: append strings and ranges to a string

---
 include/FlameIDE/Templates/String.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index eaa0ce2..fa6b46c 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -365,20 +365,18 @@ STRING_TYPE &STRING_TYPE::operator+=(IntType integer)
 	return *this;
 }
 
-// TODO: implement
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator+=(const Me &string)
 {
-	flame_ide::unused(string);
+	pushBack(string.data());
 	return *this;
 }
 
-// TODO: implement
 TEMPLATE_TYPE
 template<typename InputIterator>
 STRING_TYPE &STRING_TYPE::operator+=(Range<InputIterator> range)
 {
-	flame_ide::unused(range);
+	insert(end(), range.begin(), range.end());
 	return *this;
 }
 
-- 
2.43.0


From 8359fae100ba26c79d5fe2b202f530fe50c2eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 070/161] fix: remove ranges from a string

---
 include/FlameIDE/Templates/String.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index fa6b46c..aa0d944 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -396,19 +396,17 @@ STRING_TYPE &STRING_TYPE::operator-=(ReverseIterator it)
 	return *this;
 }
 
-// TODO: implement
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator-=(Range<Iterator> range)
 {
-	flame_ide::unused(range);
+	erase(range.begin(), range.end());
 	return *this;
 }
 
-// TODO: implement
 TEMPLATE_TYPE
 STRING_TYPE &STRING_TYPE::operator-=(Range<ReverseIterator> range)
 {
-	flame_ide::unused(range);
+	erase(range.end().internalData() + 1, range.begin().internalData() + 1);
 	return *this;
 }
 
-- 
2.43.0


From da42da46be752e6ac0f7e59e2b0b8cdc4f0da3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 071/161] fix: append own characters and text to a growing
 string

---
 include/FlameIDE/Templates/String.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index aa0d944..444baf1 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -572,8 +572,9 @@ void STRING_TYPE::pushBack(typename STRING_TYPE::ConstReference object)
 	}
 	else
 	{
+		const Type copy = object;
 		resize(nextCapacity());
-		pushBack(object);
+		pushBack(copy);
 	}
 }
 
@@ -610,13 +611,16 @@ void STRING_TYPE::pushBack(typename STRING_TYPE::PointerToConst array)
 	}
 	else
 	{
+		const bool isOwn = head && array >= head && array <= tail;
+		const SsizeType offset = isOwn ? array - head : SsizeType(0);
+
 		SizeType stringNewCapacity = nextCapacity();
 		if (length() + arraySize + SizeType(2) < stringNewCapacity)
 			resize(stringNewCapacity);
 		else
 			resize(length() + arraySize + SizeType(2));
 
-		pushBack(array);
+		pushBack(isOwn ? head + offset : array);
 	}
 }
 
-- 
2.43.0


From 237a1470e842604ad84081e26326b3c4ef7a69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 072/161] fix: insert own characters into a string

---
 include/FlameIDE/Templates/String.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 444baf1..d86ff0f 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -637,10 +637,11 @@ void STRING_TYPE::popBack()
 TEMPLATE_TYPE
 void STRING_TYPE::insert(Iterator it, typename STRING_TYPE::ConstReference object)
 {
+	const Type copy = object;
 	if (length() + SizeType(1) < capacity())
 	{
 		if (it == end())
-			pushBack(object);
+			pushBack(copy);
 		else
 		{
 			emplaceNew<Type>(tail);
@@ -651,7 +652,7 @@ void STRING_TYPE::insert(Iterator it, typename STRING_TYPE::ConstReference objec
 					itNew != rangeNew.end(); ++itOld, ++itNew)
 				*itNew = move(*itOld);
 
-			*it = object;
+			*it = copy;
 			++tail;
 			*tail = NULL_SYMBOL;
 		}
@@ -660,7 +661,7 @@ void STRING_TYPE::insert(Iterator it, typename STRING_TYPE::ConstReference objec
 	{
 		auto newIt = it - begin();
 		reserve(nextCapacity());
-		insert(begin() + newIt, object);
+		insert(begin() + newIt, copy);
 	}
 }
 
-- 
2.43.0


From 9a18be596df2168f89d75161d4a6e16b25bd2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 073/161] fix: reserve the missing room when inserting a range
 into a string

---
 include/FlameIDE/Templates/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index d86ff0f..374d146 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -738,7 +738,7 @@ void STRING_TYPE::insert(typename STRING_TYPE::Iterator it
 	else
 	{
 		auto newIt = it - begin();
-		reserve(rangeSize - capacity());
+		reserve(rangeSize + length() + SizeType(1) - capacity());
 		insert(begin() + newIt, itBegin, itEnd);
 	}
 }
-- 
2.43.0


From 23bba8fef07c1e5855aad8a2cce400a1801cab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:45 +0000
Subject: [PATCH 074/161] fix: terminate the raw data of a string without
 storage

---
 include/FlameIDE/Templates/String.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 374d146..5634c5d 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -185,6 +185,9 @@ namespace flame_ide
 {namespace templates
 {
 
+TEMPLATE_TYPE
+constexpr typename STRING_TYPE::Type STRING_TYPE::NULL_SYMBOL;
+
 TEMPLATE_TYPE
 STRING_TYPE::BasicString() noexcept
 		: Allocator()
@@ -425,7 +428,7 @@ typename STRING_TYPE::SizeType STRING_TYPE::capacity() const noexcept
 TEMPLATE_TYPE
 typename STRING_TYPE::PointerToConst STRING_TYPE::data() const noexcept
 {
-	return head;
+	return head ? head : &NULL_SYMBOL;
 }
 
 TEMPLATE_TYPE
-- 
2.43.0


From 1d92ae93a534a921c0a853887684d4047cc4dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:16 +0000
Subject: [PATCH 075/161] fix: make range insertion into a string compile on
 its own

---
 include/FlameIDE/Templates/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 5634c5d..8654de9 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -3,6 +3,7 @@
 
 #include <FlameIDE/Templates/Allocator.hpp>
 #include <FlameIDE/Templates/Iterator.hpp>
+#include <FlameIDE/Templates/SimpleAlgorithms.hpp>
 #include <FlameIDE/Templates/Range.hpp>
 
 #ifndef STRING_RESIZE_FACTOR_MULT
-- 
2.43.0


From 5cf577a9ca076fb4bc39feb5347bce01bd8520d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:03 +0000
Subject: [PATCH 076/161] fix: make reverse iteration over a constant string
 compile

---
 include/FlameIDE/Templates/String.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/String.hpp b/include/FlameIDE/Templates/String.hpp
index 8654de9..6aa03b5 100644
--- a/include/FlameIDE/Templates/String.hpp
+++ b/include/FlameIDE/Templates/String.hpp
@@ -68,7 +68,7 @@ public:
 			PointerToConst, IteratorCategory::RANDOM_ACCESS, Traits
 	>;
 	using ReverseIterator = flame_ide::templates::ReverseIterator<Iterator>;
-	using ConstReverseIterator = flame_ide::templates::ConstIterator<ReverseIterator>;
+	using ConstReverseIterator = flame_ide::templates::ConstReverseIterator<ConstIterator>;
 
 	BasicString() noexcept;
 	BasicString(const Me &string) noexcept;
@@ -483,7 +483,7 @@ TEMPLATE_TYPE
 typename STRING_TYPE::ConstReverseIterator
 STRING_TYPE::rbegin() const noexcept
 {
-	return ConstReverseIterator(tail - 1);
+	return ConstReverseIterator(ConstIterator(tail - 1));
 }
 
 TEMPLATE_TYPE
@@ -525,7 +525,7 @@ TEMPLATE_TYPE
 typename STRING_TYPE::ConstReverseIterator
 STRING_TYPE::rend() const noexcept
 {
-	return ConstReverseIterator(head - 1);
+	return ConstReverseIterator(ConstIterator(head - 1));
 }
 
 TEMPLATE_TYPE
-- 
2.43.0


From d14aab7201154964c9932ace8dbf7a9cee59a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:50 +0000
Subject: [PATCH 077/161] fix: convert the smallest integers of every width to
 text

---
 include/FlameIDE/Templates/StringConvertions.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/FlameIDE/Templates/StringConvertions.hpp b/include/FlameIDE/Templates/StringConvertions.hpp
index 669c4dc..1dcef74 100644
--- a/include/FlameIDE/Templates/StringConvertions.hpp
+++ b/include/FlameIDE/Templates/StringConvertions.hpp
@@ -128,13 +128,15 @@ constexpr SizeTraits::SizeType NumberChecker<
 template<typename IntType, bool SIGNED>
 SizeTraits::SizeType BufferSize<IntType, SIGNED>::get(IntType integer)
 {
+	using Unsigned = typename MakeUnsignedTrait<IntType>::Type;
+
 	SizeTraits::SizeType signedValue = 0;
+	Unsigned value = static_cast<Unsigned>(integer);
 	if (integer < 0)
 	{
 		++signedValue;
-		integer *= -1;
+		value = static_cast<Unsigned>(Unsigned(0) - value);
 	}
-	typename MakeUnsignedTrait<IntType>::Type value = integer;
 
 	return signedValue + NumberChecker<0ULL, 9ULL, 1>::get(value);
 }
@@ -168,12 +170,13 @@ String NumberConverter<NumberType, IS_FLOAT>::convert(NumberType value)
 	SizeTraits::SizeType buffer = string_utils::BufferSize<NumberType>::get(value);
 	string.reserve(buffer);
 
+	SizeTraits::SizeType rest = static_cast<SizeTraits::SizeType>(value);
 	if (isSigned<NumberType>())
 	{
 		if (value < 0)
 		{
 			string.pushBack('-');
-			value *= -1;
+			rest = SizeTraits::SizeType(0) - rest;
 			--buffer;
 		}
 	}
@@ -186,9 +189,9 @@ String NumberConverter<NumberType, IS_FLOAT>::convert(NumberType value)
 
 	for (decltype(buffer) i = 0; i < buffer; ++i)
 	{
-		auto result = value / dec;
+		auto result = rest / dec;
 		string.pushBack(String::Type('0' + result));
-		value %= dec;
+		rest %= dec;
 		dec /= static_cast<SizeTraits::SizeType>(10);
 	}
 
-- 
2.43.0


From e881c4fd7064e27e039bc4ae4a8cc170c1781ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:36 +0000
Subject: [PATCH 078/161] fix: convert specialized values between byte orders

The conversion operators passed the getter instead of the value and did not
compile.
---
 include/FlameIDE/Templates/Serialization/SpecializedValue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Serialization/SpecializedValue.hpp b/include/FlameIDE/Templates/Serialization/SpecializedValue.hpp
index 8bddc9c..cce5804 100644
--- a/include/FlameIDE/Templates/Serialization/SpecializedValue.hpp
+++ b/include/FlameIDE/Templates/Serialization/SpecializedValue.hpp
@@ -98,7 +98,7 @@ struct SpecializedValue<ByteOrder::BIG_ENDIAN_ORDER, T>: public ValueInfo<T>
 				ToNeedOrder<
 					ByteOrder::LITTLE_ENDIAN_ORDER
 					, ByteOrder::BIG_ENDIAN_ORDER
-				>::convert(getValue)
+				>::convert(getValue())
 				, getSize()
 				, getOffset()
 		};
@@ -484,7 +484,7 @@ operator SpecializedValue<ByteOrder::BIG_ENDIAN_ORDER, T>() const
 		ToNeedOrder<
 			ByteOrder::BIG_ENDIAN_ORDER
 			, ByteOrder::LITTLE_ENDIAN_ORDER
-		>::convert(getValue)
+		>::convert(getValue())
 		, getSize()
 		, getOffset()
 	};
-- 
2.43.0


From c81f1d0bd67945f6ea486c85d8c1eab73c894d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:49 +0000
Subject: [PATCH 079/161] fix: make the serialization headers compile on their
 own

They copy ranges but did not include the algorithm.
---
 include/FlameIDE/Templates/Serialization/Deserializer.hpp | 1 +
 include/FlameIDE/Templates/Serialization/Serializer.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/FlameIDE/Templates/Serialization/Deserializer.hpp b/include/FlameIDE/Templates/Serialization/Deserializer.hpp
index 46ef785..cc48700 100644
--- a/include/FlameIDE/Templates/Serialization/Deserializer.hpp
+++ b/include/FlameIDE/Templates/Serialization/Deserializer.hpp
@@ -2,6 +2,7 @@
 #define FLAMEIDE_TEMPLATES_SERIALIZATION_DESERIALIZER_HPP
 
 #include <FlameIDE/Templates/Range.hpp>
+#include <FlameIDE/Templates/SimpleAlgorithms.hpp>
 #include <FlameIDE/Templates/Serialization/SpecializedValue.hpp>
 
 namespace flame_ide
diff --git a/include/FlameIDE/Templates/Serialization/Serializer.hpp b/include/FlameIDE/Templates/Serialization/Serializer.hpp
index 6649848..ba21ed5 100644
--- a/include/FlameIDE/Templates/Serialization/Serializer.hpp
+++ b/include/FlameIDE/Templates/Serialization/Serializer.hpp
@@ -2,6 +2,7 @@
 #define FLAMEIDE_TEMPLATES_SERIALIZATION_SERIALIZER_HPP
 
 #include <FlameIDE/Templates/Range.hpp>
+#include <FlameIDE/Templates/SimpleAlgorithms.hpp>
 #include <FlameIDE/Templates/Serialization/SpecializedValue.hpp>
 
 namespace flame_ide
-- 
2.43.0


From aca8ae4e129575cd6726607056b42721f63103f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:51 +0000
Subject: [PATCH 080/161] fix: deserialize from volatile memory

Removing the qualifiers of a const volatile type was ambiguous.
---
 include/FlameIDE/Common/Traits/Defaults.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/FlameIDE/Common/Traits/Defaults.hpp b/include/FlameIDE/Common/Traits/Defaults.hpp
index 74e47ea..8e910dc 100644
--- a/include/FlameIDE/Common/Traits/Defaults.hpp
+++ b/include/FlameIDE/Common/Traits/Defaults.hpp
@@ -203,6 +203,15 @@ struct RemoveAllTrait<T const>: public NonCreational
 	using Type = typename RemoveAllTrait<typename RemoveConstTrait<T>::Type>::Type;
 };
 
+///
+/// @brief View RemoveAll.
+///
+template<typename T>
+struct RemoveAllTrait<const volatile T>: public NonCreational
+{
+	using Type = typename RemoveAllTrait<T>::Type;
+};
+
 
 ///
 /// @brief View RemoveAll.
-- 
2.43.0


From 47dae8ef763fd5ddace914f9bd86d041a33d474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:51 +0000
Subject: [PATCH 081/161] fix: set the upper bytes of a wide integer

A wide integer made from a shorter machine integer kept uninitialised upper
bytes, and a negative value was not sign-extended.
---
 include/FlameIDE/Templates/WideInt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/FlameIDE/Templates/WideInt.hpp b/include/FlameIDE/Templates/WideInt.hpp
index 13e19cd..7d1b076 100644
--- a/include/FlameIDE/Templates/WideInt.hpp
+++ b/include/FlameIDE/Templates/WideInt.hpp
@@ -236,6 +236,9 @@ struct PrimitiveTypeOperationsImpl: public NonCreational
 				? COUNT_BYTES - sizeof(PrimitiveType)
 				: 0;
 
+		for (auto &i : array)
+			i = Types::uichar_t((value < PrimitiveType()) ? 0xFF : 0x00);
+
 		SpecializedValue<ByteOrder::HOST, PrimitiveType> specValue(
 				value
 				, SPECIALIZED_VALUE_INIT_SIZE
-- 
2.43.0


From 94438cefb7161b045b07b3f8f0fdcdd49a07d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:51 +0000
Subject: [PATCH 082/161] fix: extend the sign when a narrow wide integer is
 converted

A negative SignedInt<24> converted to a 32-bit or longer machine integer
became positive.
---
 include/FlameIDE/Templates/WideInt.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/FlameIDE/Templates/WideInt.hpp b/include/FlameIDE/Templates/WideInt.hpp
index 7d1b076..771b015 100644
--- a/include/FlameIDE/Templates/WideInt.hpp
+++ b/include/FlameIDE/Templates/WideInt.hpp
@@ -341,7 +341,7 @@ struct PrimitiveTypeOperationsImpl: public NonCreational
 
 	// convert operator
 
-	template<typename PrimitiveType>
+	template<bool IS_SIGNED, typename PrimitiveType>
 	static void operatorConvert(const Array &array, PrimitiveType &value) // operator smth_type()
 	{
 		static_assert (!isConst<decltype(value)>(), "Value cannot be contant");
@@ -361,7 +361,7 @@ struct PrimitiveTypeOperationsImpl: public NonCreational
 				: 0;
 
 		SpecializedValue<ByteOrder::HOST, PrimitiveType> specValue(
-				PrimitiveType()
+				(IS_SIGNED && (array[0] & 0x80)) ? PrimitiveType(~PrimitiveType()) : PrimitiveType()
 				, SPECIALIZED_VALUE_INIT_SIZE
 				, SPECIALIZED_VALUE_OFFSET
 		);
@@ -408,14 +408,14 @@ struct PrimitiveTypeOperationsImpl<COUNT_BYTES, false>: public NonCreational
 	static void opeatorBinAnd(PrimitiveType &value, Array &array); // operator&
 };
 
-template<typename Array, typename PrimitiveType>
+template<typename Array, typename PrimitiveType, bool IS_SIGNED>
 inline PrimitiveType operatorConvert(const Array &array)
 {
 	PrimitiveType value;
 	using Operations = wideint_utils::PrimitiveTypeOperationsImpl<
 		Array::CAPACITY, isIntegralType<typename RemoveAllTrait<decltype(value)>::Type>()
 	>;
-	Operations::operatorConvert(array, value);
+	Operations::template operatorConvert<IS_SIGNED>(array, value);
 	return value;
 }
 
@@ -816,25 +816,25 @@ WIDE_INT &WIDE_INT::operator~()
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::uichar_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::uichar_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::uichar_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::ushort_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::ushort_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::ushort_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::uint_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::uint_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::uint_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::ulong_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::ulong_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::ulong_t, IS_SIGNED>(byteArray);
 }
 
 
@@ -843,25 +843,25 @@ WIDE_INT::operator Types::ulong_t() const
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::ichar_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::ichar_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::ichar_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::short_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::short_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::short_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::int_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::int_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::int_t, IS_SIGNED>(byteArray);
 }
 
 TEMPLATE_WIDE_INT
 WIDE_INT::operator Types::long_t() const
 {
-	return wideint_utils::operatorConvert<Data, Types::long_t>(byteArray);
+	return wideint_utils::operatorConvert<Data, Types::long_t, IS_SIGNED>(byteArray);
 }
 
 
-- 
2.43.0


From 029bee1c83f2d54a848376c26c863955c42d24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:11 +0000
Subject: [PATCH 083/161] fix: order and subtract reverse iterators by the
 reversed sequence

The comparisons of reverse iterators answered the opposite for equal
positions and the difference had the wrong sign.
---
 include/FlameIDE/Templates/Iterator/Operators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index 65cae41..6f6fcdf 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -157,7 +157,7 @@ template<typename IntType> Me operator-(IntType value) const noexcept         \
 \
 typename Parent::SsizeType operator-(const Me &iterator) const noexcept       \
 {                                                                             \
-   return this->wrappedIterator - iterator.wrappedIterator;                   \
+   return iterator.wrappedIterator - this->wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_PLUS_ASSIGN_REVERSED                       \
@@ -219,25 +219,25 @@ typename Parent::ConstReference operator[](IntType value) noexcept            \
 #define FLAMEIDE_ITERATOR_OPERATOR_MORE_REVERSED                              \
 bool operator>(const Me &iterator) noexcept                                   \
 {                                                                             \
-   return this->wrappedIterator <= iterator.wrappedIterator;                  \
+   return this->wrappedIterator < iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS_REVERSED                              \
 bool operator<(const Me &iterator) noexcept                                   \
 {                                                                             \
-   return this->wrappedIterator >= iterator.wrappedIterator;                  \
+   return this->wrappedIterator > iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_MORE_EQUAL_REVERSED                        \
 bool operator>=(const Me &iterator) noexcept                                  \
 {                                                                             \
-   return this->wrappedIterator < iterator.wrappedIterator;                   \
+   return this->wrappedIterator <= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS_EQUAL_REVERSED                        \
 bool operator<=(const Me &iterator) noexcept                                  \
 {                                                                             \
-   return this->wrappedIterator > iterator.wrappedIterator;                   \
+   return this->wrappedIterator >= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_OFFSET_DEREF_REVERSED                      \
-- 
2.43.0


From a15f8b76ee0d9f209b8dfd7d0269eacec0b2c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:11 +0000
Subject: [PATCH 084/161] fix: make element access by offset through iterators
 unambiguous

The constant version of operator[] was not const, so every call was
ambiguous.
---
 include/FlameIDE/Templates/Iterator/Operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index 6f6fcdf..5a41de1 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -210,7 +210,7 @@ typename Parent::Reference operator[](IntType value) noexcept                 \
 
 #define FLAMEIDE_ITERATOR_OPERATOR_OFFSET_DEREF_CONST                         \
 template<typename IntType>                                                    \
-typename Parent::ConstReference operator[](IntType value) noexcept            \
+typename Parent::ConstReference operator[](IntType value) const noexcept      \
 {                                                                             \
    static_assert(IsIntegralTrait<IntType>::VALUE, "Is not integral type.");   \
    return this->wrappedIterator[value];                                       \
-- 
2.43.0


From 0455fb6626494d5b8a286917d6c5c6e92eb5592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:11 +0000
Subject: [PATCH 085/161] fix: complete the arithmetic of integer iterators

Stepping back and access by offset did not compile, the sum with the
offset on the left needed a non-const iterator and differences of narrow
unsigned iterators wrapped instead of being negative.
---
 .../FlameIDE/Templates/IntegerIterator.hpp    |  3 +++
 .../FlameIDE/Templates/Iterator/Operators.hpp | 19 +++++++++----------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/FlameIDE/Templates/IntegerIterator.hpp b/include/FlameIDE/Templates/IntegerIterator.hpp
index 18fa5ab..a1c6f2a 100644
--- a/include/FlameIDE/Templates/IntegerIterator.hpp
+++ b/include/FlameIDE/Templates/IntegerIterator.hpp
@@ -99,6 +99,9 @@ public: \
 \
 	FLAMEIDE_INTEGERITERATOR_OPERATOR_INC_PREFIX \
 	FLAMEIDE_INTEGERITERATOR_OPERATOR_INC_POSTFIX \
+\
+	FLAMEIDE_INTEGERITERATOR_OPERATOR_DEC_PREFIX \
+	FLAMEIDE_INTEGERITERATOR_OPERATOR_DEC_POSTFIX \
 \
 	FLAMEIDE_INTEGERITERATOR_OPERATOR_DEREF \
 	FLAMEIDE_INTEGERITERATOR_OPERATOR_ARROW \
diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index 5a41de1..a94a3af 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -311,7 +311,7 @@ typename Parent::PointerToConst operator->() const noexcept                   \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_PLUS                                \
-template<typename IntType> Me operator+(IntType value) noexcept               \
+template<typename IntType> Me operator+(IntType value) const noexcept         \
 {                                                                             \
    Me copy = *this;                                                           \
    copy += value;                                                             \
@@ -325,18 +325,17 @@ friend Me operator+(IntType value, const Me &iterator) noexcept               \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MINUS                               \
-template<typename IntType> Me operator-(IntType value) noexcept               \
+template<typename IntType> Me operator-(IntType value) const noexcept         \
 {                                                                             \
    Me copy = *this;                                                           \
    copy -= value;                                                             \
    return copy;                                                               \
 }                                                                             \
 \
-typename Parent::SsizeType operator-(const Me &iterator) noexcept             \
+typename Parent::SsizeType operator-(const Me &iterator) const noexcept       \
 {                                                                             \
-   return static_cast<Parent::SsizeType>(                                     \
-      this->wrappedIterator - iterator.wrappedIterator                        \
-   );                                                                         \
+   return static_cast<Parent::SsizeType>(this->wrappedIterator)               \
+      - static_cast<Parent::SsizeType>(iterator.wrappedIterator);             \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_PLUS_ASSIGN                         \
@@ -420,16 +419,16 @@ bool operator<=(const Me &iterator) noexcept                                  \
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_OFFSET_DEREF                        \
 template<typename IntType>                                                    \
-typename Parent::Reference operator[](IntType value) noexcept                 \
+typename Parent::Type operator[](IntType value) noexcept                      \
 {                                                                             \
-   return this->wrappedIterator + value;                                      \
+   return static_cast<Parent::Type>(this->wrappedIterator + value);           \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_OFFSET_DEREF_CONST                  \
 template<typename IntType>                                                    \
-typename Parent::ConstReference operator[](IntType value) noexcept            \
+typename Parent::Type operator[](IntType value) const noexcept                \
 {                                                                             \
-   return this->wrappedIterator + value;                                      \
+   return static_cast<Parent::Type>(this->wrappedIterator + value);           \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MORE_REVERSED                       \
-- 
2.43.0


From f1b7ed51fb30e336a56e6def2c51fe265524be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:26 +0000
Subject: [PATCH 086/161] fix: wrap offsets of circular iterators in both
 directions

Access by offset took the wrong element once the offset reached the end
of the range, and negative offsets left the range.
---
 .../FlameIDE/Templates/Iterator/Operators.hpp | 52 +++++++------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index a94a3af..338965e 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -515,17 +515,14 @@ Me operator--(int) noexcept                                                   \
 template<typename IntType> Me &operator+=(IntType value) noexcept             \
 {                                                                             \
    static_assert(IsIntegralTrait<IntType>::VALUE, "Is not integral type.");   \
-   auto &wrappedIt = internalData();                                          \
    const auto diff = range.end() - range.begin();                             \
-   value = value % diff;                                                      \
-   if (wrappedIt + value >= range.end())                                      \
-   {                                                                          \
-      wrappedIt = range.begin() + (wrappedIt - range.end() + value);          \
-   }                                                                          \
-   else                                                                       \
+   const auto offset = static_cast<typename Parent::SsizeType>(value % diff); \
+   auto position = (internalData() - range.begin() + offset) % diff;          \
+   if (position < 0)                                                          \
    {                                                                          \
-      wrappedIt += value;                                                     \
+      position += diff;                                                       \
    }                                                                          \
+   internalData() = range.begin() + position;                                 \
    return *this;                                                              \
 }
 
@@ -533,17 +530,14 @@ template<typename IntType> Me &operator+=(IntType value) noexcept             \
 template<typename IntType> Me &operator-=(IntType value) noexcept             \
 {                                                                             \
    static_assert(IsIntegralTrait<IntType>::VALUE, "Is not integral type.");   \
-   auto &wrappedIt = internalData();                                          \
    const auto diff = range.end() - range.begin();                             \
-   value = value % diff;                                                      \
-   if (wrappedIt - value < range.begin())                                     \
-   {                                                                          \
-      wrappedIt = range.end() - (range.begin() - wrappedIt + value);          \
-   }                                                                          \
-   else                                                                       \
+   const auto offset = static_cast<typename Parent::SsizeType>(value % diff); \
+   auto position = (internalData() - range.begin() - offset) % diff;          \
+   if (position < 0)                                                          \
    {                                                                          \
-      wrappedIt -= value;                                                     \
+      position += diff;                                                       \
    }                                                                          \
+   internalData() = range.begin() + position;                                 \
    return *this;                                                              \
 }
 
@@ -553,16 +547,13 @@ typename Parent::Reference operator[](IntType value) noexcept                 \
 {                                                                             \
    static_assert(IsIntegralTrait<IntType>::VALUE, "Is not integral type.");   \
    const auto diff = range.end() - range.begin();                             \
-   auto &wrappedIt = internalData();                                          \
-   value = value % diff;                                                      \
-   if (value > range.end() - wrappedIt)                                       \
-   {                                                                          \
-      return *(range.begin() + (diff - value));                               \
-   }                                                                          \
-   else                                                                       \
+   const auto offset = static_cast<typename Parent::SsizeType>(value % diff); \
+   auto position = (internalData() - range.begin() + offset) % diff;          \
+   if (position < 0)                                                          \
    {                                                                          \
-      return *(wrappedIt + value);                                            \
+      position += diff;                                                       \
    }                                                                          \
+   return *(range.begin() + position);                                        \
 }
 
 #define FLAMEIDE_CIRCULARITERATOR_OPERATOR_OFFSET_DEREF_CONST                 \
@@ -571,14 +562,11 @@ typename Parent::Reference operator[](IntType value) const noexcept           \
 {                                                                             \
    static_assert(IsIntegralTrait<IntType>::VALUE, "Is not integral type.");   \
    const auto diff = range.end() - range.begin();                             \
-   auto &wrappedIt = internalData();                                          \
-   value = value % diff;                                                      \
-   if (value > range.end() - wrappedIt)                                       \
-   {                                                                          \
-      return *(range.begin() + (diff - value));                               \
-   }                                                                          \
-   else                                                                       \
+   const auto offset = static_cast<typename Parent::SsizeType>(value % diff); \
+   auto position = (internalData() - range.begin() + offset) % diff;          \
+   if (position < 0)                                                          \
    {                                                                          \
-      return *(wrappedIt + value);                                            \
+      position += diff;                                                       \
    }                                                                          \
+   return *(range.begin() + position);                                        \
 }
-- 
2.43.0


From 8263e3f67a7a0a17b42996d4a3ac6df23ff5607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:58 +0000
Subject: [PATCH 087/161] fix: let circular iterators be subtracted

The difference of two circular iterators did not compile because the
wrapped iterator was private in the class they derive from.
---
 include/FlameIDE/Templates/Iterator/Iterator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Iterator/Iterator.hpp b/include/FlameIDE/Templates/Iterator/Iterator.hpp
index 0027e95..c2fec96 100644
--- a/include/FlameIDE/Templates/Iterator/Iterator.hpp
+++ b/include/FlameIDE/Templates/Iterator/Iterator.hpp
@@ -213,7 +213,6 @@ public:
 
 protected:
 	using Parent::internalData;
-private:
 	using Parent::wrappedIterator;
 };
 
-- 
2.43.0


From 5299238855b077516158e0e359ec90fd0295b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:33 +0000
Subject: [PATCH 088/161] fix: compare ranges of the same element type and
 unequal lengths

The assertion rejected ranges of the same type instead of ranges of
different types, and a range was equal to any longer one it begins.
---
 include/FlameIDE/Common/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Common/Utils.hpp b/include/FlameIDE/Common/Utils.hpp
index 97210be..8139a84 100644
--- a/include/FlameIDE/Common/Utils.hpp
+++ b/include/FlameIDE/Common/Utils.hpp
@@ -380,7 +380,7 @@ bool isEqual(Iterator1 start1, Iterator1 end1
 		, Iterator2 start2, Iterator2 end2)
 {
 	static_assert(
-			!isSameTypes<
+			isSameTypes<
 				typename RemoveAllTrait<decltype(*start1)>::Type
 				, typename RemoveAllTrait<decltype(*start2)>::Type
 			>()
@@ -396,7 +396,7 @@ bool isEqual(Iterator1 start1, Iterator1 end1
 			return false;
 		}
 	}
-	return true;
+	return !(it1 != end1) && !(it2 != end2);
 }
 
 template<typename T>
-- 
2.43.0


From 9312facf6c1e341d2ed108d2ac05d7dbf7dafef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:33 +0000
Subject: [PATCH 089/161] fix: return reverse ranges of reverse iterators

---
 include/FlameIDE/Templates/Range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Range.hpp b/include/FlameIDE/Templates/Range.hpp
index 2ef90ea..85422a2 100644
--- a/include/FlameIDE/Templates/Range.hpp
+++ b/include/FlameIDE/Templates/Range.hpp
@@ -177,7 +177,7 @@ template<typename Container>
 Range<typename Container::ReverseIterator>
 makeReverseRange(Container &container) noexcept
 {
-	return Range<typename Container::ConstIterator>(
+	return Range<typename Container::ReverseIterator>(
 			rbegin(container), rend(container)
 	);
 }
@@ -186,7 +186,7 @@ template<typename Container>
 Range<typename Container::ConstReverseIterator>
 makeConstReverseRange(const Container &container) noexcept
 {
-	return Range<typename Container::ConstIterator>(
+	return Range<typename Container::ConstReverseIterator>(
 			crbegin(container), crend(container)
 	);
 }
-- 
2.43.0


From e9589e34472c3629e3cc895181b8b5be676d8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:33 +0000
Subject: [PATCH 090/161] fix: define foreach over a container as it is
 declared

The definition took the function by value and was another overload, so
calls were ambiguous.
---
 include/FlameIDE/Templates/SimpleAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/SimpleAlgorithms.hpp b/include/FlameIDE/Templates/SimpleAlgorithms.hpp
index bc34429..80f0d84 100644
--- a/include/FlameIDE/Templates/SimpleAlgorithms.hpp
+++ b/include/FlameIDE/Templates/SimpleAlgorithms.hpp
@@ -115,7 +115,7 @@ void foreach(IteratorInput start, IteratorInput end, FuncObject &&func)
 }
 
 template<typename InputContainer, typename FuncObject>
-void foreach(const InputContainer& container, FuncObject func)
+void foreach(const InputContainer& container, FuncObject &&func)
 {
 	foreach(container.begin(), container.end(), func);
 }
-- 
2.43.0


From 1865a1642187fba061af268ae4fe1b41f5f22464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:05 +0000
Subject: [PATCH 091/161] fix: compare ranges given by plain pointers

The iterators were stored in variables of the element type when they are
pointers.
---
 include/FlameIDE/Common/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Common/Utils.hpp b/include/FlameIDE/Common/Utils.hpp
index 8139a84..d0d879e 100644
--- a/include/FlameIDE/Common/Utils.hpp
+++ b/include/FlameIDE/Common/Utils.hpp
@@ -387,8 +387,8 @@ bool isEqual(Iterator1 start1, Iterator1 end1
 			, "Types is not equal."
 	);
 
-	typename RemoveAllTrait<Iterator1>::Type it1 = start1;
-	typename RemoveAllTrait<Iterator2>::Type it2 = start2;
+	Iterator1 it1 = start1;
+	Iterator2 it2 = start2;
 	for (; (it1 != end1) && (it2 != end2); ++it1, ++it2)
 	{
 		if ((it1 == end1) || (it2 == end2) || (*it1 != *it2))
-- 
2.43.0


From 39afca903dde4d410e2a16e1844aff26afaf841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:11 +0000
Subject: [PATCH 092/161] fix: write the zero in the middle of address numbers
 such as 105

A zero tens digit was always left out, so 192.168.105.1 was written as
192.168.15.1.
---
 src/Os/Network/Ipv4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Network/Ipv4.cpp b/src/Os/Network/Ipv4.cpp
index 6bb7f9e..2cfc1dd 100644
--- a/src/Os/Network/Ipv4.cpp
+++ b/src/Os/Network/Ipv4.cpp
@@ -103,7 +103,7 @@ bool convertIp(char *ipDest, const Ipv4::Number (& ipSrc)[Ipv4::COUNT_NUMBERS])
 			*(ipIt++) = static_cast<char>(value + ZERO);
 
 		value = (ipSrc[i] % HUNDERD_DEVIDER) / TEN_DEVIDER;
-		if (value)
+		if (value || ipSrc[i] >= HUNDERD_DEVIDER)
 			*(ipIt++) = static_cast<char>(value + ZERO);
 
 		value = (ipSrc[i] % HUNDERD_DEVIDER) % TEN_DEVIDER;
-- 
2.43.0


From 3e464b59773fd8ea1d3507bf913f86b0040e5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:11 +0000
Subject: [PATCH 093/161] fix: reject malformed IPv4 texts

An empty number was converted through a null pointer, texts with less
than four numbers were accepted with the remaining numbers unset and
numbers that do not fit an octet were accepted or wrapped around.
---
 src/Os/Network/Ipv4.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Os/Network/Ipv4.cpp b/src/Os/Network/Ipv4.cpp
index 2cfc1dd..1684bbb 100644
--- a/src/Os/Network/Ipv4.cpp
+++ b/src/Os/Network/Ipv4.cpp
@@ -32,7 +32,7 @@ bool convertIp(Ipv4::Number (& ipDest)[Ipv4::COUNT_NUMBERS], const char *ipSrc)
 		}
 		return false;
 	};
-	auto stringToNumberLambda = [](const char *begin, const char *end) -> Ipv4::Number
+	auto stringToNumberLambda = [](const char *begin, const char *end) -> Types::long_t
 	{
 		using ConstReverseIterator =
 				templates::defaults::ConstReverseBidirectionalIterator<
@@ -42,8 +42,8 @@ bool convertIp(Ipv4::Number (& ipDest)[Ipv4::COUNT_NUMBERS], const char *ipSrc)
 		auto range = templates::makeRange(
 				ConstReverseIterator{end - 1}, ConstReverseIterator{begin - 1}
 		);
-		Ipv4::Number number = 0;
-		Ipv4::Number devider = 1;
+		Types::long_t number = 0;
+		Types::long_t devider = 1;
 		for (auto i : range)
 		{
 			number += (i - '0') * devider;
@@ -80,12 +80,23 @@ bool convertIp(Ipv4::Number (& ipDest)[Ipv4::COUNT_NUMBERS], const char *ipSrc)
 			return false;
 		}
 
-		ipDest[index++] = stringToNumberLambda(numberStart, it);
+		if (!numberStart || numberStart == it)
+		{
+			return false;
+		}
+
+		const Types::long_t number = stringToNumberLambda(numberStart, it);
+		if (number > NumberLimitTrait<Types::uichar_t>::MAX_VALUE)
+		{
+			return false;
+		}
+
+		ipDest[index++] = static_cast<Ipv4::Number>(number);
 		numberStart = nullptr;
 
 	}
 
-	return true;
+	return index == Ipv4::COUNT_NUMBERS;
 }
 
 bool convertIp(char *ipDest, const Ipv4::Number (& ipSrc)[Ipv4::COUNT_NUMBERS])
-- 
2.43.0


From c43e094293cddc76ad2feed5a30ba8a97366bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:02 +0000
Subject: [PATCH 094/161] fix: hand the lock over when a unique guard is moved

---
 src/Os/Threads/Utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Os/Threads/Utils.cpp b/src/Os/Threads/Utils.cpp
index 1105bc2..1247bc3 100644
--- a/src/Os/Threads/Utils.cpp
+++ b/src/Os/Threads/Utils.cpp
@@ -161,6 +161,12 @@ UniqueLocker::~UniqueLocker() noexcept
 
 UniqueLocker &UniqueLocker::operator=(UniqueLocker &&locker) noexcept
 {
+	if (this == &locker)
+		return *this;
+
+	if (locked)
+		unlock();
+
 	callbackStatus = locker.callbackStatus;
 	callbackLock = locker.callbackLock;
 	callbackTryLock = locker.callbackTryLock;
@@ -173,7 +179,7 @@ UniqueLocker &UniqueLocker::operator=(UniqueLocker &&locker) noexcept
 	locker.callbackTryLock = nullptr;
 	locker.callbackUnlock = nullptr;
 	locker.data = nullptr;
-	locked = false;
+	locker.locked = false;
 
 	return *this;
 }
-- 
2.43.0


From 3688c6ac021120b873cdf994c5acaa927358deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:02 +0000
Subject: [PATCH 095/161] fix: forbid copies of a unique guard

---
 include/FlameIDE/Os/Threads/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Os/Threads/Utils.hpp b/include/FlameIDE/Os/Threads/Utils.hpp
index edf7733..e6033dd 100644
--- a/include/FlameIDE/Os/Threads/Utils.hpp
+++ b/include/FlameIDE/Os/Threads/Utils.hpp
@@ -63,7 +63,7 @@ public:
 
 public:
 	UniqueLocker() noexcept = delete;
-	UniqueLocker(const UniqueLocker &) noexcept = default;
+	UniqueLocker(const UniqueLocker &) noexcept = delete;
 	UniqueLocker(UniqueLocker &&locker) noexcept;
 
 	UniqueLocker(Semaphore &semaphore) noexcept;
@@ -83,7 +83,7 @@ public:
 
 	~UniqueLocker() noexcept;
 
-	UniqueLocker &operator=(const UniqueLocker &) noexcept = default;
+	UniqueLocker &operator=(const UniqueLocker &) noexcept = delete;
 	UniqueLocker &operator=(UniqueLocker &&locker) noexcept;
 
 	os::Status getStatus() const;
-- 
2.43.0


From 39fac33c1dfba519f5bd539af1e0be31e9169d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:04 +0000
Subject: [PATCH 096/161] fix: wait on a semaphore again when a signal
 interrupts it

---
 src/Os/Posix/Threads/SemaphoreFunctions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Os/Posix/Threads/SemaphoreFunctions.cpp b/src/Os/Posix/Threads/SemaphoreFunctions.cpp
index 9278d1d..276d18e 100644
--- a/src/Os/Posix/Threads/SemaphoreFunctions.cpp
+++ b/src/Os/Posix/Threads/SemaphoreFunctions.cpp
@@ -42,7 +42,10 @@ os::Status post(os::SemaphoreContext &context) noexcept
 os::Status wait(os::SemaphoreContext &context) noexcept
 {
 	os::Status status = {};
-	RETURN_RESULT(::sem_wait(&context.object), status);
+	do
+	{
+		RETURN_RESULT(::sem_wait(&context.object), status);
+	} while (status == -EINTR);
 	return status;
 }
 
-- 
2.43.0


From 91fc52258305bb3c917ec1a90cc4b102138aeb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:04 +0000
Subject: [PATCH 097/161] fix: report the error code thread functions return

---
 src/Os/Posix/Threads/MutexFunctions.cpp  | 2 +-
 src/Os/Posix/Threads/SpinFunctions.cpp   | 2 +-
 src/Os/Posix/Threads/ThreadFunctions.cpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Os/Posix/Threads/MutexFunctions.cpp b/src/Os/Posix/Threads/MutexFunctions.cpp
index d689ebd..cd215f6 100644
--- a/src/Os/Posix/Threads/MutexFunctions.cpp
+++ b/src/Os/Posix/Threads/MutexFunctions.cpp
@@ -8,7 +8,7 @@
 	result = condition; \
 	if (result != os::STATUS_SUCCESS) \
 	{ \
-		result = -errno; \
+		result = -result; \
 	} \
 }
 
diff --git a/src/Os/Posix/Threads/SpinFunctions.cpp b/src/Os/Posix/Threads/SpinFunctions.cpp
index 1560fdd..23ff0d3 100644
--- a/src/Os/Posix/Threads/SpinFunctions.cpp
+++ b/src/Os/Posix/Threads/SpinFunctions.cpp
@@ -8,7 +8,7 @@
 	result = condition; \
 	if (result != os::STATUS_SUCCESS) \
 	{ \
-		result = -errno; \
+		result = -result; \
 	} \
 }
 
diff --git a/src/Os/Posix/Threads/ThreadFunctions.cpp b/src/Os/Posix/Threads/ThreadFunctions.cpp
index c560a6b..598c25f 100644
--- a/src/Os/Posix/Threads/ThreadFunctions.cpp
+++ b/src/Os/Posix/Threads/ThreadFunctions.cpp
@@ -8,7 +8,7 @@
 	result = condition; \
 	if (result != os::STATUS_SUCCESS) \
 	{ \
-		result = -errno; \
+		result = -result; \
 	} \
 }
 
@@ -53,7 +53,7 @@ os::Status detach(os::ThreadContext &context) noexcept
 	}
 	if (!isEqual(os::THREAD_CONTEXT_INITIALIZER.attributes, context.attributes))
 	{
-		RETURN_RESULT(destroy(context), status);
+		status = destroy(context);
 		context = os::THREAD_CONTEXT_INITIALIZER;
 	}
 	return status;
-- 
2.43.0


From 755226b785354da73300f2b989726ab5ac4d610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:04 +0000
Subject: [PATCH 098/161] fix: start a moved-to lock from a defined state

---
 src/Os/Threads/Mutex.cpp | 3 ++-
 src/Os/Threads/Spin.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Os/Threads/Mutex.cpp b/src/Os/Threads/Mutex.cpp
index 582300f..6fae68b 100644
--- a/src/Os/Threads/Mutex.cpp
+++ b/src/Os/Threads/Mutex.cpp
@@ -15,7 +15,8 @@ Mutex::Mutex() noexcept
 	status = mutex::init(context);
 }
 
-Mutex::Mutex(Mutex &&mutex) noexcept
+Mutex::Mutex(Mutex &&mutex) noexcept :
+		context{ os::MUTEX_CONTEXT_INITIALIZER }
 {
 	operator=(flame_ide::move(mutex));
 }
diff --git a/src/Os/Threads/Spin.cpp b/src/Os/Threads/Spin.cpp
index 5b2008a..b2e57b1 100644
--- a/src/Os/Threads/Spin.cpp
+++ b/src/Os/Threads/Spin.cpp
@@ -15,7 +15,8 @@ Spin::Spin() noexcept
 	status = spin::init(context);
 }
 
-Spin::Spin(Spin &&spinlock) noexcept
+Spin::Spin(Spin &&spinlock) noexcept :
+		context{ os::SPINLOCK_CONTEXT_INITIALIZER }
 {
 	operator=(flame_ide::move(spinlock));
 }
-- 
2.43.0


From 6642cafd3e5c10e2ec5355d7d720899b440b679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:04 +0000
Subject: [PATCH 099/161] fix: destroy the semaphore a move replaces

---
 src/Os/Threads/Semaphore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Threads/Semaphore.cpp b/src/Os/Threads/Semaphore.cpp
index de15047..0c9d990 100644
--- a/src/Os/Threads/Semaphore.cpp
+++ b/src/Os/Threads/Semaphore.cpp
@@ -35,7 +35,7 @@ Semaphore::~Semaphore() noexcept
 
 Semaphore &Semaphore::operator=(Semaphore &&semaphore) noexcept
 {
-	if (os::SEMAPHORE_CONTEXT_INITIALIZER == context)
+	if (!(os::SEMAPHORE_CONTEXT_INITIALIZER == context))
 	{
 		semaphore::destroy(context);
 	}
-- 
2.43.0


From 88db598e8d27af3701c91f1258d5c8c2e8eea4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:57 +0000
Subject: [PATCH 100/161] fix: keep the gate of a condition variable closed
 after a pass

---
 include/FlameIDE/Os/Threads/Utils.hpp |  8 ++++++++
 src/Os/Threads/ConditionVarable.cpp   | 13 +++++--------
 src/Os/Threads/Utils.cpp              |  8 ++++++++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/FlameIDE/Os/Threads/Utils.hpp b/include/FlameIDE/Os/Threads/Utils.hpp
index e6033dd..eb91a3d 100644
--- a/include/FlameIDE/Os/Threads/Utils.hpp
+++ b/include/FlameIDE/Os/Threads/Utils.hpp
@@ -93,6 +93,14 @@ public:
 	os::Status unlock() noexcept;
 
 private:
+	friend class ConditionVariable;
+
+	class Refer {};
+	static constexpr Refer REFER{};
+
+	/// @brief Guard of the same lock object that holds nothing
+	UniqueLocker(const UniqueLocker &locker, Refer) noexcept;
+
 	enum class Status
 	{
 		LOCKED
diff --git a/src/Os/Threads/ConditionVarable.cpp b/src/Os/Threads/ConditionVarable.cpp
index d9c0f2a..14dba0f 100644
--- a/src/Os/Threads/ConditionVarable.cpp
+++ b/src/Os/Threads/ConditionVarable.cpp
@@ -17,18 +17,15 @@ void ConditionVariable::wait() noexcept
 	if (!counter.current())
 		return;
 
-	locker.lock();
-	locker.unlock();
-
+	UniqueLocker passing{ locker, UniqueLocker::REFER };
+	passing.lock();
 	--counter;
 }
 
 bool ConditionVariable::tryWait() noexcept
 {
-	bool lockStatus = locker.tryLock();
-	if (lockStatus)
-		locker.unlock();
-	return lockStatus;
+	UniqueLocker passing{ locker, UniqueLocker::REFER };
+	return passing.tryLock();
 }
 
 void ConditionVariable::unwait() noexcept
@@ -49,7 +46,7 @@ void ConditionVariable::notify() noexcept
 
 	locker.unlock();
 	do {} while (counter.current() != (counterValue - 1));
-	do {} while (!locker.tryLock());
+	locker.lock();
 }
 
 }}} // namespace flame_ide::os::threads
diff --git a/src/Os/Threads/Utils.cpp b/src/Os/Threads/Utils.cpp
index 1247bc3..f5a66bc 100644
--- a/src/Os/Threads/Utils.cpp
+++ b/src/Os/Threads/Utils.cpp
@@ -153,6 +153,14 @@ UniqueLocker::UniqueLocker(Spin &spin, Unlock) noexcept
 	unlock();
 }
 
+UniqueLocker::UniqueLocker(const UniqueLocker &locker, Refer) noexcept
+	: callbackStatus{ locker.callbackStatus }
+	, callbackLock{ locker.callbackLock }
+	, callbackTryLock{ locker.callbackTryLock }
+	, callbackUnlock{ locker.callbackUnlock }
+	, data{ locker.data }
+{}
+
 UniqueLocker::~UniqueLocker() noexcept
 {
 	if (locked)
-- 
2.43.0


From 0f1e45d5d588f78e9e18ec2e795f45ee058ab49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:57 +0000
Subject: [PATCH 101/161] fix: let a notifier return when several threads pass
 at once

---
 include/FlameIDE/Os/Threads/ConditionVariable.hpp | 4 +++-
 src/Os/Threads/ConditionVarable.cpp               | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Os/Threads/ConditionVariable.hpp b/include/FlameIDE/Os/Threads/ConditionVariable.hpp
index 58e9767..0e56b19 100644
--- a/include/FlameIDE/Os/Threads/ConditionVariable.hpp
+++ b/include/FlameIDE/Os/Threads/ConditionVariable.hpp
@@ -62,7 +62,9 @@ public:
 	void notify() noexcept;
 
 private:
-	Counter<Spin, flame_ide::Types::uichar_t> counter;
+	Counter<Spin, flame_ide::Types::size_t> counter; ///< Waiting threads
+	Counter<Spin, flame_ide::Types::size_t> passed; ///< Threads released by notifications
+	Spin notifying; ///< One notification at a time
 	UniqueLocker locker;
 };
 
diff --git a/src/Os/Threads/ConditionVarable.cpp b/src/Os/Threads/ConditionVarable.cpp
index 14dba0f..a549ec2 100644
--- a/src/Os/Threads/ConditionVarable.cpp
+++ b/src/Os/Threads/ConditionVarable.cpp
@@ -20,6 +20,7 @@ void ConditionVariable::wait() noexcept
 	UniqueLocker passing{ locker, UniqueLocker::REFER };
 	passing.lock();
 	--counter;
+	++passed;
 }
 
 bool ConditionVariable::tryWait() noexcept
@@ -40,12 +41,13 @@ bool ConditionVariable::isWait() const noexcept
 
 void ConditionVariable::notify() noexcept
 {
-	volatile auto counterValue = counter.current();
-	if (!counterValue)
+	Locker one{ notifying };
+	if (!counter.current())
 		return;
 
+	const auto passedBefore = passed.current();
 	locker.unlock();
-	do {} while (counter.current() != (counterValue - 1));
+	do {} while (counter.current() && passed.current() == passedBefore);
 	locker.lock();
 }
 
-- 
2.43.0


From 192332ae62a6d2b3010e3b9d1d0bfbac59ca01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:57 +0000
Subject: [PATCH 102/161] fix: do not miss a notification between looking at a
 condition and waiting

---
 .../FlameIDE/Os/Threads/ConditionVariable.hpp   | 17 ++++++++++++++---
 src/Os/Threads/ConditionVarable.cpp             |  5 +++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Os/Threads/ConditionVariable.hpp b/include/FlameIDE/Os/Threads/ConditionVariable.hpp
index 0e56b19..7eeed6c 100644
--- a/include/FlameIDE/Os/Threads/ConditionVariable.hpp
+++ b/include/FlameIDE/Os/Threads/ConditionVariable.hpp
@@ -61,6 +61,12 @@ public:
 	///
 	void notify() noexcept;
 
+private:
+	///
+	/// @brief Wait for signal as already counted thread
+	///
+	void pass() noexcept;
+
 private:
 	Counter<Spin, flame_ide::Types::size_t> counter; ///< Waiting threads
 	Counter<Spin, flame_ide::Types::size_t> passed; ///< Threads released by notifications
@@ -88,9 +94,14 @@ void ConditionVariable::wait(Functor &&functor) noexcept
 			, "Return type of input fuctior must be boolean"
 	);
 
-	do
-		wait();
-	while (!functor());
+	for (;;)
+	{
+		++counter;
+		if (functor())
+			break;
+		pass();
+	}
+	--counter;
 }
 
 }}} // namespace flame_ide::os::threads
diff --git a/src/Os/Threads/ConditionVarable.cpp b/src/Os/Threads/ConditionVarable.cpp
index a549ec2..7155d4f 100644
--- a/src/Os/Threads/ConditionVarable.cpp
+++ b/src/Os/Threads/ConditionVarable.cpp
@@ -17,6 +17,11 @@ void ConditionVariable::wait() noexcept
 	if (!counter.current())
 		return;
 
+	pass();
+}
+
+void ConditionVariable::pass() noexcept
+{
 	UniqueLocker passing{ locker, UniqueLocker::REFER };
 	passing.lock();
 	--counter;
-- 
2.43.0


From f59f4893dbe92c49ed30606ef541a920b681a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:06 +0000
Subject: [PATCH 103/161] fix: join a thread only once

---
 src/Os/Threads/Thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Os/Threads/Thread.cpp b/src/Os/Threads/Thread.cpp
index ab229f7..7d314be 100644
--- a/src/Os/Threads/Thread.cpp
+++ b/src/Os/Threads/Thread.cpp
@@ -29,7 +29,6 @@ ThreadBase::~ThreadBase() noexcept
 	}
 
 	join();
-	thread::destroy(context);
 }
 
 ThreadBase &ThreadBase::operator=(ThreadBase &&thread) noexcept
@@ -62,8 +61,15 @@ void ThreadBase::run() noexcept
 
 void ThreadBase::join() noexcept
 {
+	if (flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
+	{
+		return;
+	}
+
 	os::ThreadTaskTrait::Return ret = {};
 	status = thread::join(context, ret);
+	thread::destroy(context);
+	context = os::THREAD_CONTEXT_INITIALIZER;
 }
 
 void ThreadBase::detach() noexcept
-- 
2.43.0


From d46b8c2983b9ccbb63e039712c6cf67231edaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:06 +0000
Subject: [PATCH 104/161] fix: do not lose the thread of an object that is
 started again

---
 src/Os/Threads/Thread.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Os/Threads/Thread.cpp b/src/Os/Threads/Thread.cpp
index 7d314be..96af548 100644
--- a/src/Os/Threads/Thread.cpp
+++ b/src/Os/Threads/Thread.cpp
@@ -49,13 +49,24 @@ ThreadBase &ThreadBase::operator=(ThreadBase &&thread) noexcept
 
 void ThreadBase::run() noexcept
 {
-	if (flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
+	if (!flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
 	{
-		status = thread::init(context);
+		status = os::STATUS_FAILED;
+		return;
 	}
-	if (status == os::STATUS_SUCCESS)
+
+	status = thread::init(context);
+	if (status != os::STATUS_SUCCESS)
 	{
-		status = thread::create(context, (os::ThreadTaskTrait::Task)(task), this);
+		context = os::THREAD_CONTEXT_INITIALIZER;
+		return;
+	}
+
+	status = thread::create(context, (os::ThreadTaskTrait::Task)(task), this);
+	if (status != os::STATUS_SUCCESS)
+	{
+		thread::destroy(context);
+		context = os::THREAD_CONTEXT_INITIALIZER;
 	}
 }
 
-- 
2.43.0


From 8533674952c502c2e1c19e6567de3b46d468db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:06 +0000
Subject: [PATCH 105/161] fix: join the thread a moved thread object replaces

---
 src/Os/Threads/Thread.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Os/Threads/Thread.cpp b/src/Os/Threads/Thread.cpp
index 96af548..511fab0 100644
--- a/src/Os/Threads/Thread.cpp
+++ b/src/Os/Threads/Thread.cpp
@@ -16,7 +16,8 @@ ThreadBase::ThreadBase() noexcept :
 {}
 
 ThreadBase::ThreadBase(ThreadBase &&thread) noexcept :
-		status{ os::STATUS_SUCCESS }
+		context{ os::THREAD_CONTEXT_INITIALIZER }
+		, status{ os::STATUS_SUCCESS }
 {
 	operator=(flame_ide::move(thread));
 }
@@ -33,11 +34,13 @@ ThreadBase::~ThreadBase() noexcept
 
 ThreadBase &ThreadBase::operator=(ThreadBase &&thread) noexcept
 {
-	if (!flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
+	if (this == &thread)
 	{
-		thread::destroy(context);
+		return *this;
 	}
 
+	join();
+
 	context = thread.context;
 	status = thread.status;
 
-- 
2.43.0


From 23cc87da1a5303277af3bab844f34111442ab6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:06 +0000
Subject: [PATCH 106/161] fix: detach only a running thread and release its
 attributes once

---
 src/Os/Threads/Thread.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Os/Threads/Thread.cpp b/src/Os/Threads/Thread.cpp
index 511fab0..19df475 100644
--- a/src/Os/Threads/Thread.cpp
+++ b/src/Os/Threads/Thread.cpp
@@ -88,13 +88,12 @@ void ThreadBase::join() noexcept
 
 void ThreadBase::detach() noexcept
 {
-	status = thread::detach(context);
-	if (status != os::STATUS_SUCCESS)
+	if (flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
 	{
 		return;
 	}
 
-	status = thread::destroy(context);
+	status = thread::detach(context);
 	if (status != os::STATUS_SUCCESS)
 	{
 		return;
-- 
2.43.0


From 0131bca96ce15efb20e9ee8702e1c6bb21405b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:06 +0000
Subject: [PATCH 107/161] fix: a thread object without a thread is not working

---
 src/Os/Threads/Thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Os/Threads/Thread.cpp b/src/Os/Threads/Thread.cpp
index 19df475..ed4dfa9 100644
--- a/src/Os/Threads/Thread.cpp
+++ b/src/Os/Threads/Thread.cpp
@@ -104,6 +104,9 @@ void ThreadBase::detach() noexcept
 
 bool ThreadBase::isWorking() const noexcept
 {
+	if (flame_ide::isEqual(context, os::THREAD_CONTEXT_INITIALIZER))
+		return false;
+
 	auto workingStatus = thread::isWorking(context);
 	if (workingStatus > 0)
 		return workingStatus;
-- 
2.43.0


From 7680597b0609446d1fbfc2d9c87a2f723bd12b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:46 +0000
Subject: [PATCH 108/161] fix: reject events pushed into a queue that was not
 initialised

---
 src/Os/Async/Network/QueuedArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Async/Network/QueuedArray.hpp b/src/Os/Async/Network/QueuedArray.hpp
index 2b5b898..9fcd60d 100644
--- a/src/Os/Async/Network/QueuedArray.hpp
+++ b/src/Os/Async/Network/QueuedArray.hpp
@@ -77,7 +77,7 @@ bool QueuedArray<Type, SIZE>::push(Type value) noexcept
 {
 	os::threads::Locker locker{ spin };
 
-	if (count == pointer->capacity())
+	if (!pointer || count == pointer->capacity())
 		return false;
 
 	*last = value;
-- 
2.43.0


From 9853ef14bfd51379b32435e23cc6e3720b98ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:46 +0000
Subject: [PATCH 109/161] fix: keep queued events when an event queue is
 initialised again

---
 src/Os/Async/Network/QueuedArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Os/Async/Network/QueuedArray.hpp b/src/Os/Async/Network/QueuedArray.hpp
index 9fcd60d..59901cc 100644
--- a/src/Os/Async/Network/QueuedArray.hpp
+++ b/src/Os/Async/Network/QueuedArray.hpp
@@ -59,6 +59,8 @@ bool QueuedArray<Type, SIZE>::init(Type initValue) noexcept
 {
 	os::threads::Locker locker{ spin };
 
+	if (pointer)
+		return true;
 	if (!(pointer = Pointer{}))
 		return false;
 
-- 
2.43.0


From 33683f30bd214988d4be5c1ee923fec62e9c5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:46 +0000
Subject: [PATCH 110/161] fix: block signals while an event queue is locked

---
 src/Os/Async/Network/QueuedArray.hpp | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/Os/Async/Network/QueuedArray.hpp b/src/Os/Async/Network/QueuedArray.hpp
index 59901cc..51b5018 100644
--- a/src/Os/Async/Network/QueuedArray.hpp
+++ b/src/Os/Async/Network/QueuedArray.hpp
@@ -6,12 +6,43 @@
 #include <FlameIDE/Templates/Pointers.hpp>
 #include <FlameIDE/Os/Threads/Utils.hpp>
 
+#if FLAMEIDE_OS_POSIX != FLAMEIDE_OS_NULL
+#	include <signal.h>
+#endif
+
 namespace flame_ide
 {namespace os
 {namespace async
 {namespace network
 {
 
+///
+/// @brief Blocks signals of the current thread: a signal handler which uses the queue
+/// mustn't interrupt the thread that has locked it
+///
+class SignalBlocker
+{
+public:
+#if FLAMEIDE_OS_POSIX != FLAMEIDE_OS_NULL
+	SignalBlocker() noexcept
+	{
+		sigset_t all;
+		::sigfillset(&all);
+		::pthread_sigmask(SIG_SETMASK, &all, &saved);
+	}
+	~SignalBlocker() noexcept
+	{
+		::pthread_sigmask(SIG_SETMASK, &saved, nullptr);
+	}
+
+private:
+	sigset_t saved;
+#else
+	SignalBlocker() noexcept {}
+	~SignalBlocker() noexcept {}
+#endif
+};
+
 template<typename Type, Types::size_t SIZE>
 class QueuedArray
 {
@@ -50,6 +81,7 @@ namespace flame_ide
 template<typename Type, Types::size_t SIZE>
 QueuedArray<Type, SIZE>::operator bool() const noexcept
 {
+	SignalBlocker blocker;
 	os::threads::Locker locker{ spin };
 	return (pointer);
 }
@@ -57,6 +89,7 @@ QueuedArray<Type, SIZE>::operator bool() const noexcept
 template<typename Type, Types::size_t SIZE>
 bool QueuedArray<Type, SIZE>::init(Type initValue) noexcept
 {
+	SignalBlocker blocker;
 	os::threads::Locker locker{ spin };
 
 	if (pointer)
@@ -77,6 +110,7 @@ bool QueuedArray<Type, SIZE>::init(Type initValue) noexcept
 template<typename Type, Types::size_t SIZE>
 bool QueuedArray<Type, SIZE>::push(Type value) noexcept
 {
+	SignalBlocker blocker;
 	os::threads::Locker locker{ spin };
 
 	if (!pointer || count == pointer->capacity())
@@ -93,6 +127,7 @@ template<typename Type, Types::size_t SIZE>
 templates::Expected<Type, bool>
 QueuedArray<Type, SIZE>::pop(Type initValue) noexcept
 {
+	SignalBlocker blocker;
 	os::threads::Locker locker{ spin };
 
 	if (!count)
-- 
2.43.0


From b1c0a3c8245331e69459ea65db57924bc451519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 111/161] fix: report network objects without a descriptor or
 with an error as invalid

---
 src/Os/Network/NetworkBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Os/Network/NetworkBase.cpp b/src/Os/Network/NetworkBase.cpp
index ec4bc56..16e9aad 100644
--- a/src/Os/Network/NetworkBase.cpp
+++ b/src/Os/Network/NetworkBase.cpp
@@ -28,7 +28,7 @@ namespace flame_ide
 
 NetworkBase::~NetworkBase() noexcept
 {
-if (!operator bool())
+	if (SOCKET_INVALID.descriptor == socket.descriptor)
 		return;
 
 	socket::destroy(socket);
@@ -36,7 +36,7 @@ if (!operator bool())
 
 NetworkBase::operator bool() const noexcept
 {
-	return (SOCKET_INVALID.descriptor != socket.descriptor) || (status >= 0);
+	return (SOCKET_INVALID.descriptor != socket.descriptor) && (status >= 0);
 }
 
 Status NetworkBase::getStatus() const noexcept
-- 
2.43.0


From 25b780069425a7e48f01cf206a6c91ef463b8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 112/161] fix: leave moved-from network objects without a
 descriptor

---
 src/Os/Network/NetworkBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Network/NetworkBase.cpp b/src/Os/Network/NetworkBase.cpp
index 16e9aad..946518f 100644
--- a/src/Os/Network/NetworkBase.cpp
+++ b/src/Os/Network/NetworkBase.cpp
@@ -87,7 +87,7 @@ NetworkBase &NetworkBase::operator=(NetworkBase &&base) noexcept
 	socket = base.socket;
 
 	base.status = os::STATUS_SUCCESS;
-	base.socket = os::SOCKET_INITIALIZER;
+	base.socket = os::SOCKET_INVALID;
 
 	return *this;
 }
-- 
2.43.0


From 6265f4a51443efb558e75b1070422b465bea2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 113/161] fix: close the replaced descriptor when a network
 object is move-assigned

---
 src/Os/Network/NetworkBase.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Os/Network/NetworkBase.cpp b/src/Os/Network/NetworkBase.cpp
index 946518f..16f7566 100644
--- a/src/Os/Network/NetworkBase.cpp
+++ b/src/Os/Network/NetworkBase.cpp
@@ -76,13 +76,19 @@ NetworkBase::NetworkBase(Socket socket) noexcept : socket{ socket }
 	setStatus(STATUS_FAILED);
 }
 
-NetworkBase::NetworkBase(NetworkBase &&base) noexcept : NetworkBase(base.socket)
+NetworkBase::NetworkBase(NetworkBase &&base) noexcept : socket{ os::SOCKET_INVALID }
 {
 	operator=(move(base));
 }
 
 NetworkBase &NetworkBase::operator=(NetworkBase &&base) noexcept
 {
+	if (this == &base)
+		return *this;
+
+	if (SOCKET_INVALID.descriptor != socket.descriptor)
+		socket::destroy(socket);
+
 	status = base.status;
 	socket = base.socket;
 
-- 
2.43.0


From 08b62e228a485e1c90ef98163d618e7e5664266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 114/161] fix: close the descriptor of a TCP server that cannot
 listen

---
 src/Os/Network/TcpServer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Os/Network/TcpServer.cpp b/src/Os/Network/TcpServer.cpp
index 680e1f2..2a3a610 100644
--- a/src/Os/Network/TcpServer.cpp
+++ b/src/Os/Network/TcpServer.cpp
@@ -22,6 +22,8 @@ TcpServer::TcpServer(Ipv4::Port port) noexcept :
 	setStatus(socket::tcp::server::listen(
 			socket, generated::network::Config::TCP_SERVER_BACKLOG
 	));
+	if (getStatus() < 0 && socket.descriptor != os::SOCKET_INVALID.descriptor)
+		socket::destroy(socket);
 }
 
 TcpServer &TcpServer::operator=(TcpServer &&tcpServer) noexcept
-- 
2.43.0


From 97749929a00f8189e55ec8742c6ffb27baab27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 115/161] fix: let accepted connections own their descriptor
 exclusively

---
 src/Os/Network/TcpServer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Os/Network/TcpServer.cpp b/src/Os/Network/TcpServer.cpp
index 2a3a610..c934d45 100644
--- a/src/Os/Network/TcpServer.cpp
+++ b/src/Os/Network/TcpServer.cpp
@@ -69,7 +69,9 @@ namespace flame_ide
 {namespace network
 {
 
-TcpServer::WithClient::WithClient(WithClient &&client) noexcept
+TcpServer::WithClient::WithClient(WithClient &&client) noexcept :
+		socket{ os::SOCKET_INVALID }
+		, status{ os::STATUS_SUCCESS }
 {
 	operator=(move(client));
 }
@@ -81,7 +83,7 @@ TcpServer::WithClient::WithClient(Socket socket, Status result) noexcept :
 
 TcpServer::WithClient::~WithClient() noexcept
 {
-	if (socket.descriptor == os::SOCKET_INITIALIZER.descriptor)
+	if (socket.descriptor == os::SOCKET_INVALID.descriptor)
 	{
 		return;
 	}
@@ -91,10 +93,16 @@ TcpServer::WithClient::~WithClient() noexcept
 
 TcpServer::WithClient &TcpServer::WithClient::operator=(WithClient &&client) noexcept
 {
+	if (this == &client)
+		return *this;
+
+	if (socket.descriptor != os::SOCKET_INVALID.descriptor)
+		socket::destroy(socket);
+
 	socket = client.socket;
 	status = client.status;
 
-	client.socket = os::SOCKET_INITIALIZER;
+	client.socket = os::SOCKET_INVALID;
 	client.status = os::STATUS_SUCCESS;
 
 	return *this;
-- 
2.43.0


From dee117492054aea513e27433470302114c637a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 116/161] fix: forget a descriptor even if closing it reports
 an error

---
 src/Os/Posix/Network/SocketFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Posix/Network/SocketFunctions.cpp b/src/Os/Posix/Network/SocketFunctions.cpp
index 1e27a79..7b9549f 100644
--- a/src/Os/Posix/Network/SocketFunctions.cpp
+++ b/src/Os/Posix/Network/SocketFunctions.cpp
@@ -149,11 +149,11 @@ Socket createTcpClient(Ipv4 ipServer) noexcept
 Status destroy(Socket &socket) noexcept
 {
 	auto status = ::close(socket.descriptor);
+	socket.descriptor = SOCKET_INVALID.descriptor;
 	if (status < 0)
 	{
 		return -errno;
 	}
-	socket.descriptor = SOCKET_INVALID.descriptor;
 	return STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 32b4c15fb093ef099138874431aacd8fd3f142e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:20 +0000
Subject: [PATCH 117/161] fix: return the address of a socket byte by byte

---
 src/Os/Posix/Network/SocketFunctions.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Os/Posix/Network/SocketFunctions.cpp b/src/Os/Posix/Network/SocketFunctions.cpp
index 7b9549f..958864f 100644
--- a/src/Os/Posix/Network/SocketFunctions.cpp
+++ b/src/Os/Posix/Network/SocketFunctions.cpp
@@ -172,14 +172,15 @@ Types::ssize_t receivingBytesNumber(const Socket &socket) noexcept
 Ipv4 getIpv4(const Socket &socket) noexcept
 {
 	auto port = ::ntohs(socket.address.sin_port);
-	union
-	{
-		Types::uint_t value;
-		Ipv4::Number address[Ipv4::COUNT_NUMBERS];
-	} in;
-	in.value = socket.address.sin_addr.s_addr;
-
-	return Ipv4{ in.address, port };
+	const Types::uint_t value = ::ntohl(socket.address.sin_addr.s_addr);
+	const Ipv4::Number address[Ipv4::COUNT_NUMBERS] = {
+			static_cast<Ipv4::Number>((value >> 24) & 0xff)
+			, static_cast<Ipv4::Number>((value >> 16) & 0xff)
+			, static_cast<Ipv4::Number>((value >> 8) & 0xff)
+			, static_cast<Ipv4::Number>(value & 0xff)
+	};
+
+	return Ipv4{ address, port };
 }
 
 int getType(const Socket &socket) noexcept
-- 
2.43.0


From be57207c9b641c94f7680a31ea2eff4530dfef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:31 +0000
Subject: [PATCH 118/161] fix: release the handle object of a library that was
 not loaded

---
 src/Os/Library.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Os/Library.cpp b/src/Os/Library.cpp
index 7c4628b..3e75432 100644
--- a/src/Os/Library.cpp
+++ b/src/Os/Library.cpp
@@ -44,8 +44,9 @@ Library::Library(const char *name, const char *directory)
 Library::~Library() noexcept
 {
 	if (*this)
-	{
 		library::close(handleRef(handle));
+	if (handle)
+	{
 		ContainerTraits<LibraryHandle>::Pointer pointer = &handleRef(handle);
 		templates::allocator::ObjectAllocator<LibraryHandle>{}.destroy(pointer);
 	}
-- 
2.43.0


From d6b010fa7bb453132eb0f629bfd89b993463ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:31 +0000
Subject: [PATCH 119/161] fix: report a moved-from library as not loaded

---
 src/Os/Library.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Library.cpp b/src/Os/Library.cpp
index 3e75432..1d93573 100644
--- a/src/Os/Library.cpp
+++ b/src/Os/Library.cpp
@@ -61,7 +61,7 @@ Library &Library::operator=(Library &&library) noexcept
 
 Library::operator bool() const noexcept
 {
-	return handleRef(handle).address != LIBRARY_HANDLE_INVALID.address;
+	return handle && handleRef(handle).address != LIBRARY_HANDLE_INVALID.address;
 }
 
 void *Library::internalFind(const char *name) noexcept
-- 
2.43.0


From bf5e211a45f6ee4705124e0ac07a75a332bf8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:31 +0000
Subject: [PATCH 120/161] fix: find no symbols in a library that is not loaded

---
 src/Os/Library.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Os/Library.cpp b/src/Os/Library.cpp
index 1d93573..e4c5735 100644
--- a/src/Os/Library.cpp
+++ b/src/Os/Library.cpp
@@ -66,6 +66,8 @@ Library::operator bool() const noexcept
 
 void *Library::internalFind(const char *name) noexcept
 {
+	if (!*this)
+		return nullptr;
 	return reinterpret_cast<void *>(
 			library::findSymbol(handleRef(handle), name)
 	);
-- 
2.43.0


From fc10b7c7b774aeb04c70256c68e5133a866ca13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:31 +0000
Subject: [PATCH 121/161] fix: close the replaced library when a library is
 move-assigned

---
 src/Os/Library.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Os/Library.cpp b/src/Os/Library.cpp
index e4c5735..4a5843a 100644
--- a/src/Os/Library.cpp
+++ b/src/Os/Library.cpp
@@ -54,8 +54,12 @@ Library::~Library() noexcept
 
 Library &Library::operator=(Library &&library) noexcept
 {
-	handle = library.handle;
-	library.handle = nullptr;
+	if (this != &library)
+	{
+		Library replaced{ move(*this) };
+		handle = library.handle;
+		library.handle = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From bd88ace11583bfc759934feb5e0a35b1730a7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:11 +0000
Subject: [PATCH 122/161] fix: report sending to a closed connection as an
 error instead of raising SIGPIPE

---
 src/Os/Posix/Network/TcpSocketFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Posix/Network/TcpSocketFunctions.cpp b/src/Os/Posix/Network/TcpSocketFunctions.cpp
index 8f795ec..fc8088e 100644
--- a/src/Os/Posix/Network/TcpSocketFunctions.cpp
+++ b/src/Os/Posix/Network/TcpSocketFunctions.cpp
@@ -108,7 +108,7 @@ Types::ssize_t send(const Socket &socket, ConstByteRange range) noexcept
 {
 	auto buffer = reinterpret_cast<const void *>(range.begin());
 	auto size = range.end() - range.begin();
-	auto result = ::send(socket.descriptor, buffer, size, {});
+	auto result = ::send(socket.descriptor, buffer, size, MSG_NOSIGNAL);
 	return (result < 0)
 			? -errno
 			: result;
-- 
2.43.0


From adbb8bb025ebf4b1573bbf482e573359e81ab461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:11 +0000
Subject: [PATCH 123/161] fix: stop waiting for bytes when more than the
 requested number have arrived

---
 src/Os/Posix/Network/TcpSocketFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Os/Posix/Network/TcpSocketFunctions.cpp b/src/Os/Posix/Network/TcpSocketFunctions.cpp
index fc8088e..7b295ad 100644
--- a/src/Os/Posix/Network/TcpSocketFunctions.cpp
+++ b/src/Os/Posix/Network/TcpSocketFunctions.cpp
@@ -122,7 +122,7 @@ Types::ssize_t receive(const Socket &socket, ByteRange range) noexcept
 Types::ssize_t waitBytes(const Socket &socket, Types::size_t number) noexcept
 {
 	Types::ssize_t result = 0;
-	while (static_cast<Types::size_t>(result) != number)
+	while (static_cast<Types::size_t>(result) < number)
 	{
 		result = socket::receivingBytesNumber(socket);
 		if (result < 0)
-- 
2.43.0


From 9aa102ac2cc89a5ac0491de47ec1847f6d42ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:11 +0000
Subject: [PATCH 124/161] fix: keep the blocking mode of a connection that is
 asked whether it is alive

---
 src/Os/Posix/Network/TcpSocketFunctions.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/Os/Posix/Network/TcpSocketFunctions.cpp b/src/Os/Posix/Network/TcpSocketFunctions.cpp
index 7b295ad..01c48d1 100644
--- a/src/Os/Posix/Network/TcpSocketFunctions.cpp
+++ b/src/Os/Posix/Network/TcpSocketFunctions.cpp
@@ -133,25 +133,11 @@ Types::ssize_t waitBytes(const Socket &socket, Types::size_t number) noexcept
 
 bool alive(const Socket &socket) noexcept
 {
-	// enable Nonbock
-	{
-		auto result = enableNonblock(socket);
-		if (result < 0)
-			return false;
-	}
-
 	byte_t byte[1] = {};
 	const Types::ssize_t result = receive(
-			socket.descriptor, templates::makeRange(byte), MSG_PEEK
+			socket.descriptor, templates::makeRange(byte), MSG_PEEK | MSG_DONTWAIT
 	);
-
-	// disable Nonbock
-	{
-		auto result = disableNonblock(socket);
-		if (result < 0)
-			return false;
-	}
-	return (result != 0);
+	return (result != 0 && result != -EBADF && result != -ENOTSOCK);
 }
 
 }}}}} // namespace flame_ide::os::network::socket::tcp
-- 
2.43.0


From a99a43c05f75ba091ae75651ef61c7819ba360cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:11 +0000
Subject: [PATCH 125/161] fix: let an answer sent before receiving reach the
 sender of the waiting datagram

---
 include/FlameIDE/Os/Network/UdpServer.hpp |  3 +++
 src/Os/Network/UdpServer.cpp              | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Os/Network/UdpServer.hpp b/include/FlameIDE/Os/Network/UdpServer.hpp
index 6f83ac9..b213dc7 100644
--- a/include/FlameIDE/Os/Network/UdpServer.hpp
+++ b/include/FlameIDE/Os/Network/UdpServer.hpp
@@ -55,6 +55,9 @@ public:
 	WithClient() noexcept = default;
 	WithClient(const WithClient &) noexcept = default;
 	WithClient(Socket &socket, Types::ssize_t result) noexcept;
+	WithClient(
+			Socket &socket, Types::ssize_t result, const SocketReceive &socketFrom
+	) noexcept;
 	~WithClient() noexcept = default;
 
 	WithClient &operator=(const WithClient &) noexcept = default;
diff --git a/src/Os/Network/UdpServer.cpp b/src/Os/Network/UdpServer.cpp
index 76f38d4..e677e0f 100644
--- a/src/Os/Network/UdpServer.cpp
+++ b/src/Os/Network/UdpServer.cpp
@@ -28,7 +28,7 @@ UdpServer::WithClient UdpServer::wait() noexcept
 {
 	SocketReceive socketReceive;
 	Types::ssize_t result = socket::udp::waitServer(socket, socketReceive);
-	WithClient sendler{ socket, result };
+	WithClient sendler{ socket, result, socketReceive };
 	return sendler;
 }
 
@@ -59,6 +59,14 @@ UdpServer::WithClient::WithClient(Socket &socket, Types::ssize_t result) noexcep
 		, socketServer(&socket)
 {}
 
+UdpServer::WithClient::WithClient(
+		Socket &socket, Types::ssize_t result, const SocketReceive &socketFrom
+) noexcept :
+		receiveBytesResult(result)
+		, socketClient(socketFrom)
+		, socketServer(&socket)
+{}
+
 UdpServer::WithClient::operator bool() const noexcept
 {
 	return getStatus() >= 0;
-- 
2.43.0


From 1c5676f9060c579dadb4de4fd0e4f81bc809c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:10 +0000
Subject: [PATCH 126/161] fix: accept every connection that waits when a
 listening socket signals

---
 src/Os/Posix/Async/Network/EventCatcher.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Os/Posix/Async/Network/EventCatcher.cpp b/src/Os/Posix/Async/Network/EventCatcher.cpp
index ea1dc14..ec47caa 100644
--- a/src/Os/Posix/Async/Network/EventCatcher.cpp
+++ b/src/Os/Posix/Async/Network/EventCatcher.cpp
@@ -4,6 +4,7 @@
 #include <FlameIDE/Os/Network/TcpServer.hpp>
 
 #include <fcntl.h>
+#include <poll.h>
 
 namespace flame_ide
 {namespace os
@@ -133,14 +134,18 @@ void EventCatcher::handleTcp(SocketDescriptor descriptor) noexcept
 		return;
 	}
 
-	// Signal has been received from listening socket
-	os::Status result = os::STATUS_SUCCESS;
-	const auto client = serverControl().accept(socket, &result);
-	if (result < 0)
-		return;
-	EventCatcher::get().queues().tcpAcceptedConnections()
-			.push({ socket.descriptor, client });
-	return;
+	// Signal has been received from listening socket. Signals of connections which
+	// have come at once are merged
+	::pollfd waiting{ descriptor, POLLIN, 0 };
+	while (::poll(&waiting, 1, 0) > 0)
+	{
+		os::Status result = os::STATUS_SUCCESS;
+		const auto client = serverControl().accept(socket, &result);
+		if (result < 0)
+			return;
+		EventCatcher::get().queues().tcpAcceptedConnections()
+				.push({ socket.descriptor, client });
+	}
 }
 
 void EventCatcher::handleUdp(SocketDescriptor descriptor) noexcept
-- 
2.43.0


From f951b0588c453644c0cda7e7c4af203cafe0907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:10 +0000
Subject: [PATCH 127/161] fix: close an accepted connection that does not fit
 into the queue

---
 src/Os/Posix/Async/Network/EventCatcher.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Os/Posix/Async/Network/EventCatcher.cpp b/src/Os/Posix/Async/Network/EventCatcher.cpp
index ec47caa..d45b871 100644
--- a/src/Os/Posix/Async/Network/EventCatcher.cpp
+++ b/src/Os/Posix/Async/Network/EventCatcher.cpp
@@ -140,11 +140,12 @@ void EventCatcher::handleTcp(SocketDescriptor descriptor) noexcept
 	while (::poll(&waiting, 1, 0) > 0)
 	{
 		os::Status result = os::STATUS_SUCCESS;
-		const auto client = serverControl().accept(socket, &result);
+		auto client = serverControl().accept(socket, &result);
 		if (result < 0)
 			return;
-		EventCatcher::get().queues().tcpAcceptedConnections()
-				.push({ socket.descriptor, client });
+		if (!EventCatcher::get().queues().tcpAcceptedConnections()
+				.push({ socket.descriptor, client }))
+			serverControl().destroy(client);
 	}
 }
 
-- 
2.43.0


From f8fd20a3832689c04e0906be4ad7ddba02dff06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:10 +0000
Subject: [PATCH 128/161] fix: keep errno of the code interrupted by a socket
 event

---
 src/Os/Posix/Async/Network/EventCatcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Os/Posix/Async/Network/EventCatcher.cpp b/src/Os/Posix/Async/Network/EventCatcher.cpp
index d45b871..a96ebc7 100644
--- a/src/Os/Posix/Async/Network/EventCatcher.cpp
+++ b/src/Os/Posix/Async/Network/EventCatcher.cpp
@@ -96,6 +96,7 @@ void EventCatcher::signalHandler(int signal, const siginfo_t *info, ucontext_t *
 	if (signal != anonymous::SIGNAL_POLLING)
 		return;
 
+	const auto savedErrno = errno;
 	const auto descriptor = info->si_fd;
 	switch (NetworkBase::callbacks().type(Socket{ {}, descriptor }))
 	{
@@ -109,10 +110,12 @@ void EventCatcher::signalHandler(int signal, const siginfo_t *info, ucontext_t *
 
 		case NetworkBase::SocketType::UNKNOWN:
 		default:
+			errno = savedErrno;
 			return;
 	}
 
 	EventCatcher::get().notify();
+	errno = savedErrno;
 }
 
 void EventCatcher::handleTcp(SocketDescriptor descriptor) noexcept
-- 
2.43.0


From 6e170461442b84f5e815eb335a3363a233ed9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 129/161] fix: copy C_MessageDecryptInit along with the other
 functions of a 3.0 list

---
 src/Crypto/Pkcs11/Types/Structs/FunctionList3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Crypto/Pkcs11/Types/Structs/FunctionList3.cpp b/src/Crypto/Pkcs11/Types/Structs/FunctionList3.cpp
index 5476e2c..eade145 100644
--- a/src/Crypto/Pkcs11/Types/Structs/FunctionList3.cpp
+++ b/src/Crypto/Pkcs11/Types/Structs/FunctionList3.cpp
@@ -297,6 +297,7 @@ FunctionList3 &FunctionList3::operator=(const Parent &functionList) noexcept
 	C_EncryptMessageBegin = functionList.C_EncryptMessageBegin;
 	C_EncryptMessageNext = functionList.C_EncryptMessageNext;
 	C_MessageEncryptFinal = functionList.C_MessageEncryptFinal;
+	C_MessageDecryptInit = functionList.C_MessageDecryptInit;
 	C_DecryptMessage = functionList.C_DecryptMessage;
 	C_DecryptMessageBegin = functionList.C_DecryptMessageBegin;
 	C_DecryptMessageNext = functionList.C_DecryptMessageNext;
-- 
2.43.0


From 1d08d68223e5e36d0d00e0028f740a9ce1aa75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 130/161] fix: copy the PRF type of SP800-108 KDF parameters

---
 .../Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.hpp  | 1 +
 src/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/FlameIDE/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.hpp b/include/FlameIDE/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.hpp
index a902e5a..aee3c0e 100644
--- a/include/FlameIDE/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.hpp
+++ b/include/FlameIDE/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.hpp
@@ -31,6 +31,7 @@ struct NistSp800Hyphen108KdfParams: public WithParent<::CK_SP800_108_KDF_PARAMS>
 	NistSp800Hyphen108KdfParams &operator=(const NistSp800Hyphen108KdfParams &params) noexcept;
 	NistSp800Hyphen108KdfParams &operator=(const Parent &params) noexcept;
 
+	using Parent::prfType;
 	using Parent::ulNumberOfDataParams;
 	using Parent::pDataParams;
 	using Parent::ulAdditionalDerivedKeys;
diff --git a/src/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.cpp b/src/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.cpp
index 086de49..71ffee6 100644
--- a/src/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.cpp
+++ b/src/Crypto/Pkcs11/Types/Structs/NistSp800Hyphen108KdfParams.cpp
@@ -44,6 +44,7 @@ NistSp800Hyphen108KdfParams &NistSp800Hyphen108KdfParams::operator=(
 		const Parent &params
 ) noexcept
 {
+	prfType = params.prfType;
 	ulNumberOfDataParams = params.ulNumberOfDataParams;
 	pDataParams = params.pDataParams;
 	ulAdditionalDerivedKeys = params.ulAdditionalDerivedKeys;
-- 
2.43.0


From 17765a6b6e2f66b6e107c4c926e3a40a62d94bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 131/161] fix: keep initialization arguments when they are
 moved to themselves

---
 src/Crypto/Pkcs11/InitializeArgs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Crypto/Pkcs11/InitializeArgs.cpp b/src/Crypto/Pkcs11/InitializeArgs.cpp
index 14992fe..2bd1063 100644
--- a/src/Crypto/Pkcs11/InitializeArgs.cpp
+++ b/src/Crypto/Pkcs11/InitializeArgs.cpp
@@ -64,6 +64,9 @@ InitializeArgs &InitializeArgs::operator=(const InitializeArgs &args) noexcept
 
 InitializeArgs &InitializeArgs::operator=(InitializeArgs &&args) noexcept
 {
+	if (this == &args)
+		return *this;
+
 	this->operator=(static_cast<const InitializeArgs &>(args));
 
 	args.setCallbacks(Callbacks{});
-- 
2.43.0


From cec853114f974ca1bf5581dfbe24b25586fbb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 132/161] fix: unlock mutexes of the software module with the
 unlock callback

---
 src/Crypto/SoftPkcs11/Mutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Crypto/SoftPkcs11/Mutex.cpp b/src/Crypto/SoftPkcs11/Mutex.cpp
index 0926005..f0eff2b 100644
--- a/src/Crypto/SoftPkcs11/Mutex.cpp
+++ b/src/Crypto/SoftPkcs11/Mutex.cpp
@@ -72,7 +72,7 @@ void Mutex::lock() noexcept
 
 void Mutex::unlock() noexcept
 {
-	lastStatus = static_cast<enums::ReturnType>(lockMutex(context));
+	lastStatus = static_cast<enums::ReturnType>(unlockMutex(context));
 }
 
 void Mutex::destroy() noexcept
-- 
2.43.0


From fe1ca03bc30f118664ab2417eeb796d1ebefad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 133/161] fix: destroy a mutex of the software module only when
 there is one

---
 src/Crypto/SoftPkcs11/Mutex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Crypto/SoftPkcs11/Mutex.cpp b/src/Crypto/SoftPkcs11/Mutex.cpp
index f0eff2b..2c2abb0 100644
--- a/src/Crypto/SoftPkcs11/Mutex.cpp
+++ b/src/Crypto/SoftPkcs11/Mutex.cpp
@@ -77,6 +77,8 @@ void Mutex::unlock() noexcept
 
 void Mutex::destroy() noexcept
 {
+	if (!context)
+		return;
 	lastStatus = static_cast<enums::ReturnType>(destroyMutex(context));
 	context = nullptr;
 }
-- 
2.43.0


From 6022888f00e0617a3898e1398e4fb69b1ae8bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 134/161] fix: destroy the mutex that a move assignment
 replaces

---
 src/Crypto/SoftPkcs11/Mutex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Crypto/SoftPkcs11/Mutex.cpp b/src/Crypto/SoftPkcs11/Mutex.cpp
index 2c2abb0..101fee5 100644
--- a/src/Crypto/SoftPkcs11/Mutex.cpp
+++ b/src/Crypto/SoftPkcs11/Mutex.cpp
@@ -54,6 +54,10 @@ Mutex::~Mutex() noexcept
 
 Mutex &Mutex::operator=(Mutex &&mutex) noexcept
 {
+	if (this == &mutex)
+		return *this;
+
+	destroy();
 	destroyMutex = mutex.destroyMutex;
 	lockMutex = mutex.lockMutex;
 	unlockMutex = mutex.unlockMutex;
-- 
2.43.0


From 783427f90087cd5eb0a0781d4dc3a8c046f59f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 135/161] fix: return the error when there is no place for the
 function list

---
 src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
index 2853253..ab0c9b6 100644
--- a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
+++ b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
@@ -68,7 +68,7 @@ pkcs11::value_types::ReturnType getFunctionList(
 {
 	if (!functionList)
 	{
-		pkcs11::enums::value(pkcs11::enums::ReturnType::ARGUMENTS_BAD);
+		return pkcs11::enums::value(pkcs11::enums::ReturnType::ARGUMENTS_BAD);
 	}
 
 	*functionList = GlobalContext::get().getFunctionList();
-- 
2.43.0


From 933bccbd617b06a67d4a59370544389f022c60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 136/161] fix: respect the room a caller has for the interface
 list

---
 src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
index ab0c9b6..ec4b5e3 100644
--- a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
+++ b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
@@ -89,6 +89,12 @@ pkcs11::value_types::ReturnType getIterfaceList(
 		*count = 1;
 		return pkcs11::enums::value(pkcs11::enums::ReturnType::OK);
 	}
+	const pkcs11::value_types::Ulong room = *count;
+	*count = 1;
+	if (room < 1)
+	{
+		return pkcs11::enums::value(pkcs11::enums::ReturnType::BUFFER_TOO_SMALL);
+	}
 	interfaces[0] = *GlobalContext::get().getInterface();
 	return pkcs11::enums::value(pkcs11::enums::ReturnType::OK);
 }
-- 
2.43.0


From 97b59fc510dfadbe853b4bc4a6652199faf89978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 137/161] fix: reject an interface query without a name or a
 place for the result

---
 src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
index ec4b5e3..1527b81 100644
--- a/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
+++ b/src/Crypto/SoftPkcs11/Functions/GeneralPurposeFunctions.cpp
@@ -108,8 +108,11 @@ pkcs11::value_types::ReturnType getIterface(
 {
 	// TODO
 	flame_ide::unused(version);
-	flame_ide::unused(interface);
 	flame_ide::unused(flags);
+	if (!interfaceName || !interface)
+	{
+		return pkcs11::enums::value(pkcs11::enums::ReturnType::ARGUMENTS_BAD);
+	}
 
 	const pkcs11::value_types::Utf8Char mainInterfaceName[] = "PKCS 11";
 	if (templates::U8String::rawStringLength(interfaceName) != sizeof(mainInterfaceName) - 1)
-- 
2.43.0


From 23c889a2086a951e65a7d4eb98a4142a9091b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 138/161] fix: let variants give access to alternatives that
 are pointers

---
 include/FlameIDE/Templates/Variant.hpp | 46 +++++++++++++-------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index 44bbef0..eef189b 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -17,10 +17,10 @@ struct VariantStruct
 	using Me = VariantStruct<Args...>;
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer get();
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer get();
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst get() const;
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst get() const;
 
 	template<typename T>
 	bool set(const T &object);
@@ -43,10 +43,10 @@ struct VariantStruct<Arg, Args...>
 	using Me = VariantStruct<Arg, Args...>;
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer get();
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer get();
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst get() const;
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst get() const;
 
 	template<typename T>
 	Types::ssize_t set(const T &object);
@@ -80,10 +80,10 @@ struct VariantStruct<>
 	using Me = VariantStruct<>;
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer get();
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer get();
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst get() const;
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst get() const;
 
 	template<typename T>
 	Types::ssize_t set(const T &object);
@@ -122,11 +122,11 @@ struct VariantStructGetterSetter
 	Types::ssize_t set(VariantStruct<Arg, Args...> &me, T &&object);
 
 	template<typename T, typename Arg, typename ...Args> static inline
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 	get(VariantStruct<Arg, Args...> &me);
 
 	template<typename T, typename Arg, typename ...Args> static inline
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 	getConst(const VariantStruct<Arg, Args...> &me);
 };
 
@@ -140,11 +140,11 @@ struct VariantStructGetterSetter<false>
 	Types::ssize_t set(VariantStruct<Arg, Args...> &me, T &&object);
 
 	template<typename T, typename Arg, typename ...Args> static inline
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 	get(VariantStruct<Arg, Args...> &me);
 
 	template<typename T, typename Arg, typename ...Args> static inline
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 	getConst(const VariantStruct<Arg, Args...> &me);
 };
 
@@ -205,10 +205,10 @@ public:
 	Types::ssize_t getCurrentIndex() const;
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer get();
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer get();
 
 	template<typename T>
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst get() const;
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst get() const;
 
 	template<typename T>
 	bool get(T &object) const;
@@ -269,14 +269,14 @@ namespace variant_utils
 {
 
 template<typename Arg, typename ...Args> template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 VariantStruct<Arg, Args...>::get()
 {
 	return VariantStructGetterSetter<isSameTypes<T, Arg>()>::template get<T>(*this);
 }
 
 template<typename Arg, typename ...Args> template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 VariantStruct<Arg, Args...>::get() const
 {
 	return VariantStructGetterSetter<isSameTypes<T, Arg>()>
@@ -355,14 +355,14 @@ bool VariantStruct<Arg, Args...>::equal(const Me &variantStruct, Types::ssize_t
 }
 
 template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 VariantStruct<>::get()
 {
 	return nullptr;
 }
 
 template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 VariantStruct<>::get() const
 {
 	return nullptr;
@@ -398,14 +398,14 @@ Types::ssize_t VariantStructGetterSetter<IS_SAME_TYPES>::set(
 }
 
 template<bool IS_SAME_TYPES> template<typename T, typename Arg, typename ...Args> inline
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 VariantStructGetterSetter<IS_SAME_TYPES>::get(VariantStruct<Arg, Args...> &me)
 {
 	return &me.data.arg;
 }
 
 template<bool IS_SAME_TYPES> template<typename T, typename Arg, typename ...Args> inline
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 VariantStructGetterSetter<IS_SAME_TYPES>::getConst(const VariantStruct<Arg, Args...> &me)
 {
 	return &me.data.arg;
@@ -428,14 +428,14 @@ Types::ssize_t VariantStructGetterSetter<false>::set(
 }
 
 template<typename T, typename Arg, typename ...Args> inline
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 VariantStructGetterSetter<false>::get(VariantStruct<Arg, Args...> &me)
 {
 	return me.data.pack.template get<T>();
 }
 
 template<typename T, typename Arg, typename ...Args> inline
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 VariantStructGetterSetter<false>::getConst(const VariantStruct<Arg, Args...> &me)
 {
 	return me.data.pack.template get<T>();
@@ -586,7 +586,7 @@ Types::ssize_t Variant<Arg, Args...>::getCurrentIndex() const
 }
 
 template<typename Arg, typename ...Args> template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::Pointer
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::Pointer
 Variant<Arg, Args...>::get()
 {
 	constexpr Types::ssize_t TYPE_INDEX = GetIndexOfType<T, Arg, Args...>::INDEX;
@@ -601,7 +601,7 @@ Variant<Arg, Args...>::get()
 }
 
 template<typename Arg, typename ...Args> template<typename T>
-typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst
+typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst
 Variant<Arg, Args...>::get() const
 {
 	constexpr Types::ssize_t TYPE_INDEX = GetIndexOfType<T, Arg, Args...>::INDEX;
@@ -618,7 +618,7 @@ Variant<Arg, Args...>::get() const
 template<typename Arg, typename ...Args> template<typename T>
 bool Variant<Arg, Args...>::get(T &object) const
 {
-	typename DefaultTraits<typename RemoveAllTrait<T>::Type>::PointerToConst obj = get<T>();
+	typename DefaultTraits<RemoveConstType<RemoveReferenceType<T>>>::PointerToConst obj = get<T>();
 	if (obj)
 	{
 		object = *obj;
-- 
2.43.0


From 572096501c27ea8b28ca5e2b0ea5d029b55d846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 139/161] fix: leave a PKCS#11 library alone when it is
 initialized again

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index 00f5c2a..37a262f 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -38,6 +38,11 @@ Pkcs11Library::create(const char *name, const char *directory
 pkcs11::enums::ReturnType
 Pkcs11Library::initialize(const pkcs11::wrapper::InitializeArgs &args) noexcept
 {
+	if (status == pkcs11::enums::ReturnType::OK)
+	{
+		return pkcs11::enums::ReturnType::CRYPTOKI_ALREADY_INITIALIZED;
+	}
+
 	// Initialize function list
 	auto result = initializeFunctionList();
 	if (result != pkcs11::enums::ReturnType::OK)
-- 
2.43.0


From 27c34c54f47558a423646dc8e89ac53081a82494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 140/161] fix: finalize the PKCS#11 module when its information
 is not available

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index 37a262f..36b07d6 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -67,6 +67,7 @@ Pkcs11Library::initialize(const pkcs11::wrapper::InitializeArgs &args) noexcept
 	// Cryptoki info
 	if ((result = initializeInfo()) != pkcs11::enums::ReturnType::OK)
 	{
+		functionList.C_Finalize(nullptr);
 		return result;
 	}
 
-- 
2.43.0


From b3e73b27029d2faa3ac20ff0186f0710d85196cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 141/161] fix: finalize the PKCS#11 module only once

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index 36b07d6..2150e5d 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -90,6 +90,10 @@ Pkcs11Library::finalize() noexcept
 				result = error;
 			}
 	);
+	if (result == pkcs11::enums::ReturnType::OK)
+	{
+		status = pkcs11::enums::ReturnType::CRYPTOKI_NOT_INITIALIZED;
+	}
 	return result;
 }
 
-- 
2.43.0


From 012fc6f55ee7b189be7be02c78db631b4506f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 142/161] fix: keep the interfaces the PKCS#11 module reports

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index 2150e5d..fd96ee8 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -112,8 +112,13 @@ Pkcs11Library::getFunctionList() const noexcept
 Pkcs11Expected<const pkcs11::structs::InterfaceList *>
 Pkcs11Library::getInterfaceList() const noexcept
 {
+	if (status != pkcs11::enums::ReturnType::OK)
+	{
+		return status;
+	}
+
 	const pkcs11::structs::InterfaceList *ifaceListPtr = nullptr;
-	pkcs11::enums::ReturnType returnError;
+	pkcs11::enums::ReturnType returnError = status;
 	ifaceList.ifResult(
 			[&ifaceListPtr](const auto &ifaceList)
 			{
@@ -124,7 +129,7 @@ Pkcs11Library::getInterfaceList() const noexcept
 			{
 				returnError = error;
 			}
-	).done();
+	);
 	Pkcs11Expected<const pkcs11::structs::InterfaceList *> expectedInterfaceList;
 	if (ifaceListPtr)
 	{
@@ -140,20 +145,28 @@ Pkcs11Library::getInterfaceList() const noexcept
 Pkcs11Expected<const pkcs11::structs::Interface *>
 Pkcs11Library::getInterface() const noexcept
 {
+	if (status != pkcs11::enums::ReturnType::OK)
+	{
+		return status;
+	}
+
 	const pkcs11::structs::Interface *ifacePtr = nullptr;
-	pkcs11::enums::ReturnType returnError;
+	pkcs11::enums::ReturnType returnError = pkcs11::enums::ReturnType::FUNCTION_NOT_SUPPORTED;
 	ifaceList.ifResult(
 			[&ifacePtr](const auto &ifaceList)
 			{
 				// TODO
-				ifacePtr = &ifaceList[0];
+				if (ifaceList.size())
+				{
+					ifacePtr = &ifaceList[0];
+				}
 			}
 	).ifError(
 			[&returnError](auto error)
 			{
 				returnError = error;
 			}
-	).done();
+	);
 
 	Pkcs11Expected<const pkcs11::structs::Interface *> expectedInterface;
 	if (ifacePtr)
@@ -268,6 +281,7 @@ Pkcs11Library::initializeInterfaceList() noexcept
 	);
 	if (!getInterfaceList)
 	{
+		ifaceList = pkcs11::enums::ReturnType::FUNCTION_NOT_SUPPORTED;
 		return pkcs11::enums::ReturnType::FUNCTION_NOT_SUPPORTED;
 	}
 
@@ -282,7 +296,7 @@ Pkcs11Library::initializeInterfaceList() noexcept
 	if (count)
 	{
 		pkcs11::structs::InterfaceList list;
-		list.reserve(count);
+		list.resize(count);
 		result = pkcs11::enums::toReturnType(
 				getInterfaceList(list.data(), &count)
 		);
@@ -291,8 +305,13 @@ Pkcs11Library::initializeInterfaceList() noexcept
 			ifaceList = result;
 			return result;
 		}
+		list.resize(count);
 		ifaceList = flame_ide::move(list);
 	}
+	else
+	{
+		ifaceList = pkcs11::structs::InterfaceList{};
+	}
 
 	return result;
 }
-- 
2.43.0


From 76e8874ff4b1212d7358bffee5fc2e94d1703205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:54 +0000
Subject: [PATCH 143/161] fix: report exactly the slots the PKCS#11 module
 lists

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index fd96ee8..edfa1c1 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -212,6 +212,10 @@ Pkcs11Library::getSlotIdList(pkcs11::enums::Bool present) const noexcept
 	slotIdCount.ifResult(
 			[this, &slotIds, &result, present](pkcs11::value_types::Ulong slotIdCount)
 			{
+				if (!slotIdCount)
+				{
+					return;
+				}
 				slotIds.reserve(slotIdCount);
 				slotIds.resize(slotIdCount);
 				auto functionList = getFunctionList();
@@ -224,6 +228,10 @@ Pkcs11Library::getSlotIdList(pkcs11::enums::Bool present) const noexcept
 											, &slotIdCount
 									)
 							);
+							if (result == pkcs11::enums::ReturnType::OK)
+							{
+								slotIds.resize(slotIdCount);
+							}
 						}
 				);
 			}
-- 
2.43.0


From 7597ad0206bc8e06829836a4a726c4dacbbfa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:45 +0000
Subject: [PATCH 144/161] fix: make >= and <= of the integral wrapper accept
 equal numbers

---
 include/FlameIDE/Templates/AsIntegralType.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/AsIntegralType.hpp b/include/FlameIDE/Templates/AsIntegralType.hpp
index 6f37cdf..2d20b56 100644
--- a/include/FlameIDE/Templates/AsIntegralType.hpp
+++ b/include/FlameIDE/Templates/AsIntegralType.hpp
@@ -261,13 +261,13 @@ template<typename IntType1>
 constexpr bool AsIntegralType<IntType, Meta>::operator>=(IntType1 value) noexcept
 {
 	static_assert(IsIntegralTrait<IntType1>::VALUE, "Type is not integral");
-	return this->val > static_cast<IntType>(value);
+	return this->val >= static_cast<IntType>(value);
 }
 
 template<typename IntType, typename Meta>
 constexpr bool AsIntegralType<IntType, Meta>::operator>=(Me value) noexcept
 {
-	return this->val > value.val;
+	return this->val >= value.val;
 }
 
 template<typename IntType, typename Meta>
@@ -275,13 +275,13 @@ template<typename IntType1>
 constexpr bool AsIntegralType<IntType, Meta>::operator<=(IntType1 value) noexcept
 {
 	static_assert(IsIntegralTrait<IntType1>::VALUE, "Type is not integral");
-	return this->val < static_cast<IntType>(value);
+	return this->val <= static_cast<IntType>(value);
 }
 
 template<typename IntType, typename Meta>
 constexpr bool AsIntegralType<IntType, Meta>::operator<=(Me value) noexcept
 {
-	return this->val < value.val;
+	return this->val <= value.val;
 }
 
 template<typename IntType, typename Meta>
-- 
2.43.0


From 9dbe381a66a531335c227cde9fe8397fdddf1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:45 +0000
Subject: [PATCH 145/161] fix: give the constants of bits 61 and 63 their own
 bits

---
 include/FlameIDE/Templates/Bits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/Bits.hpp b/include/FlameIDE/Templates/Bits.hpp
index 4935294..f412dac 100644
--- a/include/FlameIDE/Templates/Bits.hpp
+++ b/include/FlameIDE/Templates/Bits.hpp
@@ -143,9 +143,9 @@ struct Constants: public NonCreational
 	static constexpr auto BIT64_58 = BIT(Types::ulong_t, 58);
 	static constexpr auto BIT64_59 = BIT(Types::ulong_t, 59);
 	static constexpr auto BIT64_60 = BIT(Types::ulong_t, 60);
-	static constexpr auto BIT64_63 = BIT(Types::ulong_t, 61);
+	static constexpr auto BIT64_61 = BIT(Types::ulong_t, 61);
 	static constexpr auto BIT64_62 = BIT(Types::ulong_t, 62);
-	static constexpr auto BIT64_61 = BIT(Types::ulong_t, 63);
+	static constexpr auto BIT64_63 = BIT(Types::ulong_t, 63);
 };
 
 #undef BIT
-- 
2.43.0


From ae572bea12aa64604a8520fee171d47c1ae19e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:00 +0000
Subject: [PATCH 146/161] fix: compare the whole number of the integral wrapper
 with ==

---
 include/FlameIDE/Templates/AsIntegralType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/AsIntegralType.hpp b/include/FlameIDE/Templates/AsIntegralType.hpp
index 2d20b56..f87eac8 100644
--- a/include/FlameIDE/Templates/AsIntegralType.hpp
+++ b/include/FlameIDE/Templates/AsIntegralType.hpp
@@ -205,7 +205,7 @@ template<typename IntType1>
 constexpr bool AsIntegralType<IntType, Meta>::operator==(IntType1 value) noexcept
 {
 	static_assert(IsIntegralTrait<IntType1>::VALUE, "Type is not integral");
-	return static_cast<IntType1>(this->val) == value;
+	return this->val == static_cast<IntType>(value);
 }
 
 template<typename IntType, typename Meta>
-- 
2.43.0


From 548be6613d0d179456047fe25abd2b7e800592c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:32 +0000
Subject: [PATCH 147/161] fix: move a temporary into the object the allocator
 makes

---
 include/FlameIDE/Templates/Allocator/ObjectAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Allocator/ObjectAllocator.hpp b/include/FlameIDE/Templates/Allocator/ObjectAllocator.hpp
index 2b3d8e5..cbde658 100644
--- a/include/FlameIDE/Templates/Allocator/ObjectAllocator.hpp
+++ b/include/FlameIDE/Templates/Allocator/ObjectAllocator.hpp
@@ -97,7 +97,7 @@ ObjectAllocator<T, Traits, BaseAllocatorImpl>::construct(
 			this->allocate(SizeType(sizeof(Type)))
 	);
 	if (pointer)
-		placementNew<Type>(pointer, obj);
+		placementNew<Type>(pointer, move(obj));
 	return pointer;
 }
 
-- 
2.43.0


From 594c7523e11b1184a1905d60f5f08d4064cc073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:50 +0000
Subject: [PATCH 148/161] fix: keep the content of an object assigned to itself

---
 include/FlameIDE/Templates/Object.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/FlameIDE/Templates/Object.hpp b/include/FlameIDE/Templates/Object.hpp
index fba82fc..4f513e5 100644
--- a/include/FlameIDE/Templates/Object.hpp
+++ b/include/FlameIDE/Templates/Object.hpp
@@ -142,6 +142,10 @@ template<Types::size_t SIZE_IN_BYTES, typename AlignedAsType>
 Object<SIZE_IN_BYTES, AlignedAsType> &
 Object<SIZE_IN_BYTES, AlignedAsType>::operator=(Me &&object) noexcept
 {
+	if (&object == this)
+	{
+		return *this;
+	}
 	destroy();
 
 	flame_ide::copy(data, object.data);
-- 
2.43.0


From e4517713c34c93e5bb52a08acb7081a1566d3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:56 +0000
Subject: [PATCH 149/161] fix: make every component of a constant tuple
 readable

---
 include/FlameIDE/Templates/Tuple.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/FlameIDE/Templates/Tuple.hpp b/include/FlameIDE/Templates/Tuple.hpp
index 84695eb..69ba0c4 100644
--- a/include/FlameIDE/Templates/Tuple.hpp
+++ b/include/FlameIDE/Templates/Tuple.hpp
@@ -15,7 +15,7 @@ template<SizeTraits::SizeType INDEX, typename ...Args>
 struct Getter;
 
 template<SizeTraits::SizeType INDEX, typename ...Args>
-class ConstGetter;
+struct ConstGetter;
 
 }
 
@@ -77,16 +77,16 @@ struct Getter<INDEX>
 	}
 };
 
-template<SizeTraits::SizeType INDEX, typename ...Args>
-class ConstGetter
+template<SizeTraits::SizeType INDEX, typename Arg, typename ...Args>
+struct ConstGetter<INDEX, Arg, Args...>
 {
-	using Tuple = flame_ide::templates::Tuple<Args...>;
+	using Tuple = flame_ide::templates::Tuple<Arg, Args...>;
 	using TupleConstReference = typename DefaultTraits<Tuple>::ConstReference;
-	using Type = typename GetTypeByIndex<INDEX, Args...>::Type;
+	using Type = typename GetTypeByIndex<INDEX, Arg, Args...>::Type;
 
-	static const Type &get(TupleConstReference tuple)
+	static const Type &get(TupleConstReference tuple) noexcept
 	{
-		return Getter<INDEX - 1, Args...>::get(tuple);
+		return ConstGetter<INDEX - 1, Args...>::get(tuple);
 	}
 };
 
-- 
2.43.0


From 3a7ed810c04d321132b533ca7576b0e114d6f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:13 +0000
Subject: [PATCH 150/161] fix: compare const iterators by position instead of
 by truth value

---
 .../Templates/Iterator/BaseIterator.hpp       |  8 ++---
 .../FlameIDE/Templates/Iterator/Operators.hpp | 30 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/FlameIDE/Templates/Iterator/BaseIterator.hpp b/include/FlameIDE/Templates/Iterator/BaseIterator.hpp
index cc9654d..c97edae 100644
--- a/include/FlameIDE/Templates/Iterator/BaseIterator.hpp
+++ b/include/FlameIDE/Templates/Iterator/BaseIterator.hpp
@@ -48,8 +48,8 @@ public:
 
 	operator bool() const noexcept;
 
-	bool operator==(const Me &iterator);
-	bool operator!=(const Me &iterator);
+	bool operator==(const Me &iterator) const;
+	bool operator!=(const Me &iterator) const;
 
 	IteratorType &internalData();
 	const IteratorType &internalData() const;
@@ -108,7 +108,7 @@ template<
 >
 bool
 BaseIterator<IteratorType, ITERATOR_CATEGORY, ITERATOR_ACCESS, Traits, MetaType>
-::operator==(const Me &iterator)
+::operator==(const Me &iterator) const
 {
 	return wrappedIterator == iterator.wrappedIterator;
 }
@@ -123,7 +123,7 @@ template<
 bool
 BaseIterator<IteratorType, ITERATOR_CATEGORY, ITERATOR_ACCESS, Traits, MetaType>::operator!=(
 		const Me &iterator
-)
+) const
 {
 	return wrappedIterator != iterator.wrappedIterator;
 }
diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index 338965e..b1b3bf5 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -183,19 +183,19 @@ bool operator>(const Me &iterator) const noexcept                             \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS                                       \
-bool operator<(const Me &iterator) noexcept                                   \
+bool operator<(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator < iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_MORE_EQUAL                                 \
-bool operator>=(const Me &iterator) noexcept                                  \
+bool operator>=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator >= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS_EQUAL                                 \
-bool operator<=(const Me &iterator) noexcept                                  \
+bool operator<=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator <= iterator.wrappedIterator;                  \
 }
@@ -217,25 +217,25 @@ typename Parent::ConstReference operator[](IntType value) const noexcept      \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_MORE_REVERSED                              \
-bool operator>(const Me &iterator) noexcept                                   \
+bool operator>(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator < iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS_REVERSED                              \
-bool operator<(const Me &iterator) noexcept                                   \
+bool operator<(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator > iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_MORE_EQUAL_REVERSED                        \
-bool operator>=(const Me &iterator) noexcept                                  \
+bool operator>=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator <= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_ITERATOR_OPERATOR_LESS_EQUAL_REVERSED                        \
-bool operator<=(const Me &iterator) noexcept                                  \
+bool operator<=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator >= iterator.wrappedIterator;                  \
 }
@@ -394,25 +394,25 @@ template<typename IntType> Me &operator-=(IntType value) noexcept             \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MORE                                \
-bool operator>(const Me &iterator) noexcept                                   \
+bool operator>(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator > iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_LESS                                \
-bool operator<(const Me &iterator) noexcept                                   \
+bool operator<(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator < iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MORE_EQUAL                          \
-bool operator>=(const Me &iterator) noexcept                                  \
+bool operator>=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator >= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_LESS_EQUAL                          \
-bool operator<=(const Me &iterator) noexcept                                  \
+bool operator<=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator <= iterator.wrappedIterator;                  \
 }
@@ -432,25 +432,25 @@ typename Parent::Type operator[](IntType value) const noexcept                \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MORE_REVERSED                       \
-bool operator>(const Me &iterator) noexcept                                   \
+bool operator>(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator <= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_LESS_REVERSED                       \
-bool operator<(const Me &iterator) noexcept                                   \
+bool operator<(const Me &iterator) const noexcept                             \
 {                                                                             \
    return this->wrappedIterator >= iterator.wrappedIterator;                  \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_MORE_EQUAL_REVERSED                 \
-bool operator>=(const Me &iterator) noexcept                                  \
+bool operator>=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator < iterator.wrappedIterator;                   \
 }
 
 #define FLAMEIDE_INTEGERITERATOR_OPERATOR_LESS_EQUAL_REVERSED                 \
-bool operator<=(const Me &iterator) noexcept                                  \
+bool operator<=(const Me &iterator) const noexcept                            \
 {                                                                             \
    return this->wrappedIterator > iterator.wrappedIterator;                   \
 }
-- 
2.43.0


From 1c67e62741f269547f459dab8a41a7c1bb61c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:00 +0000
Subject: [PATCH 151/161] fix: take over the new object before releasing the
 old one in pointer assignments

---
 include/FlameIDE/Templates/Pointers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/Pointers.hpp b/include/FlameIDE/Templates/Pointers.hpp
index 80cb170..39f6fae 100644
--- a/include/FlameIDE/Templates/Pointers.hpp
+++ b/include/FlameIDE/Templates/Pointers.hpp
@@ -384,7 +384,7 @@ SHARED_TYPE &SHARED_TYPE::operator=(const SHARED_TYPE &pointer) noexcept
 	if (this == &pointer)
 		return *this;
 
-	clean();
+	Me old(flame_ide::move(*this));
 
 	allocator = pointer.allocator;
 	members = pointer.members;
@@ -401,7 +401,7 @@ SHARED_TYPE &SHARED_TYPE::operator=(SHARED_TYPE &&pointer) noexcept
 	if (this == &pointer)
 		return *this;
 
-	clean();
+	Me old(flame_ide::move(*this));
 
 	allocator = flame_ide::move(pointer.allocator);
 	members = pointer.members;
@@ -510,7 +510,7 @@ UNIQUE_TYPE &UNIQUE_TYPE::operator=(UNIQUE_TYPE &&pointer) noexcept
 	if (this == &pointer)
 		return *this;
 
-	clean();
+	Me old(flame_ide::move(*this));
 
 	object = pointer.object;
 	allocator = pointer.allocator;
-- 
2.43.0


From 35f216cd68e443be91440b026032206e8ea61969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:45:57 +0000
Subject: [PATCH 152/161] fix: step circular iterators over plain pointers back

---
 include/FlameIDE/Templates/Iterator/Operators.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/Iterator/Operators.hpp b/include/FlameIDE/Templates/Iterator/Operators.hpp
index b1b3bf5..bbf5a47 100644
--- a/include/FlameIDE/Templates/Iterator/Operators.hpp
+++ b/include/FlameIDE/Templates/Iterator/Operators.hpp
@@ -487,11 +487,11 @@ Me &operator++() noexcept                                                     \
 Me &operator--() noexcept                                                     \
 {                                                                             \
    auto &wrappedIt = internalData();                                          \
-   --wrappedIt;                                                               \
-   if (wrappedIt == --range.begin())                                          \
+   if (wrappedIt == range.begin())                                            \
    {                                                                          \
-      wrappedIt = --range.end();                                              \
+      wrappedIt = range.end();                                                \
    }                                                                          \
+   --wrappedIt;                                                               \
    return *this;                                                              \
 }
 
-- 
2.43.0


From cfaa05516ffb578916a64180bb28733c92de0923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:43 +0000
Subject: [PATCH 153/161] fix: tell whether a list of types is unique

---
 include/FlameIDE/Common/Traits/Functional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Common/Traits/Functional.hpp b/include/FlameIDE/Common/Traits/Functional.hpp
index 635df96..af5f1a7 100644
--- a/include/FlameIDE/Common/Traits/Functional.hpp
+++ b/include/FlameIDE/Common/Traits/Functional.hpp
@@ -226,10 +226,14 @@ struct IsUniqueParameterPack: public TrueType
 template<typename Arg, typename ...Args>
 struct IsUniqueParameterPack<Arg, Args...>
 {
-	static constexpr bool VALUE = ComparingTypeWithPack<Arg, Args...>::VALUE
-		|| IsUniqueParameterPack<Args...>::VALUE;
+	static constexpr bool VALUE = !ComparingTypeWithPack<Arg, Args...>::VALUE
+		&& IsUniqueParameterPack<Args...>::VALUE;
 };
 
+template<typename Arg>
+struct IsUniqueParameterPack<Arg>: public TrueType
+{};
+
 template<typename Arg, typename Arg1>
 struct IsUniqueParameterPack<Arg, Arg1>
 {
-- 
2.43.0


From 114c8546fbbdb64794fda5132767d256cda91f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:43 +0000
Subject: [PATCH 154/161] fix: add volatile to the type instead of a pointer to
 it

---
 include/FlameIDE/Common/Traits/Defaults.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FlameIDE/Common/Traits/Defaults.hpp b/include/FlameIDE/Common/Traits/Defaults.hpp
index 8e910dc..f7f83de 100644
--- a/include/FlameIDE/Common/Traits/Defaults.hpp
+++ b/include/FlameIDE/Common/Traits/Defaults.hpp
@@ -290,7 +290,7 @@ using AddPointerType = typename AddPointerTrait<T>::Type;
 template<typename T>
 struct AddVolatileTrait: public NonCreational
 {
-	using Type = volatile typename DefaultTraits<T>::Pointer;
+	using Type = volatile typename DefaultTraits<T>::Type;
 };
 template<typename T>
 using AddVolatileType = typename AddVolatileTrait<T>::Type;
-- 
2.43.0


From 44bbf2b225116f608271e227a530f6e3b5a3f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:23 +0000
Subject: [PATCH 155/161] fix: forget the interfaces of a module that does not
 support them

---
 src/Crypto/Pkcs11/Pkcs11.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Crypto/Pkcs11/Pkcs11.cpp b/src/Crypto/Pkcs11/Pkcs11.cpp
index edfa1c1..00a1f7d 100644
--- a/src/Crypto/Pkcs11/Pkcs11.cpp
+++ b/src/Crypto/Pkcs11/Pkcs11.cpp
@@ -299,6 +299,7 @@ Pkcs11Library::initializeInterfaceList() noexcept
 	);
 	if (result != pkcs11::enums::ReturnType::OK)
 	{
+		ifaceList = result;
 		return result;
 	}
 	if (count)
-- 
2.43.0


From a21df051750987ed97afe26832ef6d0534a473ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:47:34 +0000
Subject: [PATCH 156/161] fix: construct variants from pointers

---
 include/FlameIDE/Templates/Variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/FlameIDE/Templates/Variant.hpp b/include/FlameIDE/Templates/Variant.hpp
index eef189b..d92cf21 100644
--- a/include/FlameIDE/Templates/Variant.hpp
+++ b/include/FlameIDE/Templates/Variant.hpp
@@ -465,8 +465,8 @@ template<typename Arg, typename ...Args> template<typename T>
 Variant<Arg, Args...>::Variant(const T &initObject) noexcept
 {
 	InitStruct<
-		typename RemoveAllTrait<T>::Type
-		, ComparingTypes<Me, typename RemoveAllTrait<T>::Type>::VALUE
+		RemoveConstType<RemoveReferenceType<T>>
+		, ComparingTypes<Me, RemoveConstType<RemoveReferenceType<T>>>::VALUE
 	>::exec(*this, initObject);
 }
 
@@ -474,8 +474,8 @@ template<typename Arg, typename ...Args> template<typename T, typename>
 Variant<Arg, Args...>::Variant(T &&initObject) noexcept
 {
 	InitStruct<
-		typename RemoveAllTrait<T>::Type
-		, ComparingTypes<Me, typename RemoveAllTrait<T>::Type>::VALUE
+		RemoveConstType<RemoveReferenceType<T>>
+		, ComparingTypes<Me, RemoveConstType<RemoveReferenceType<T>>>::VALUE
 	>::execMove(*this, move(initObject));
 }
 
-- 
2.43.0


From 313d74ea85aeebdf2f90347048c847972efbcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:28 +0000
Subject: [PATCH 157/161] fix: reverse the bytes of signed constants

---
 include/FlameIDE/Templates/ByteOrder.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/FlameIDE/Templates/ByteOrder.hpp b/include/FlameIDE/Templates/ByteOrder.hpp
index 29acc2b..b2c3bc9 100644
--- a/include/FlameIDE/Templates/ByteOrder.hpp
+++ b/include/FlameIDE/Templates/ByteOrder.hpp
@@ -85,7 +85,9 @@ struct CompileTimeReverseBytes<Types::short_t>
 	static constexpr Types::short_t ReverseBytes()
 	{
 		return static_cast<Types::short_t>(
-			CompileTimeReverseBytes::ReverseBytes<static_cast<Types::ushort_t>(VALUE)>()
+			CompileTimeReverseBytes<Types::ushort_t>::ReverseBytes<
+				static_cast<Types::ushort_t>(VALUE)
+			>()
 		);
 	}
 };
@@ -93,11 +95,13 @@ struct CompileTimeReverseBytes<Types::short_t>
 template<>
 struct CompileTimeReverseBytes<Types::int_t>
 {
-	template<Types::short_t VALUE>
-	static constexpr Types::short_t ReverseBytes()
+	template<Types::int_t VALUE>
+	static constexpr Types::int_t ReverseBytes()
 	{
 		return static_cast<Types::int_t>(
-			CompileTimeReverseBytes::ReverseBytes<static_cast<Types::uint_t>(VALUE)>()
+			CompileTimeReverseBytes<Types::uint_t>::ReverseBytes<
+				static_cast<Types::uint_t>(VALUE)
+			>()
 		);
 	}
 };
@@ -105,11 +109,13 @@ struct CompileTimeReverseBytes<Types::int_t>
 template<>
 struct CompileTimeReverseBytes<Types::long_t>
 {
-	template<Types::short_t VALUE>
-	static constexpr Types::short_t ReverseBytes()
+	template<Types::long_t VALUE>
+	static constexpr Types::long_t ReverseBytes()
 	{
 		return static_cast<Types::long_t>(
-			CompileTimeReverseBytes::ReverseBytes<static_cast<Types::ulong_t>(VALUE)>()
+			CompileTimeReverseBytes<Types::ulong_t>::ReverseBytes<
+				static_cast<Types::ulong_t>(VALUE)
+			>()
 		);
 	}
 };
-- 
2.43.0


From 0eac1d285900af5a4d97e00f8ba54368410015ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:12 +0000
Subject: [PATCH 158/161] fix: emplace copies of a vector's own elements

---
 include/FlameIDE/Templates/Vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/FlameIDE/Templates/Vector.hpp b/include/FlameIDE/Templates/Vector.hpp
index 7202e1e..c548659 100644
--- a/include/FlameIDE/Templates/Vector.hpp
+++ b/include/FlameIDE/Templates/Vector.hpp
@@ -767,8 +767,9 @@ void VECTOR_TYPE::emplaceBack(Args &&...args)
 		emplaceNew<Type>(tail++, forward<decltype(args)>(args)...);
 	else
 	{
+		Type object(forward<decltype(args)>(args)...);
 		reserve(nextCapacity());
-		emplaceBack(forward<decltype(args)>(args)...);
+		pushBack(move(object));
 	}
 }
 
@@ -895,6 +896,7 @@ void VECTOR_TYPE::emplace(typename VECTOR_TYPE::Iterator it, Args &&...args)
 			emplaceBack(forward<decltype(args)>(args)...);
 		else
 		{
+			Type object(forward<decltype(args)>(args)...);
 			emplaceNew<Type>(tail);
 
 			Range<ReverseIterator> rangeOld(rbegin(), ReverseIterator(it - 1))
@@ -904,15 +906,16 @@ void VECTOR_TYPE::emplace(typename VECTOR_TYPE::Iterator it, Args &&...args)
 					++itOld, ++itNew)
 				*itNew = move(*itOld);
 
-			*it = Type(forward<decltype(args)>(args)...);
+			*it = move(object);
 			++tail;
 		}
 	}
 	else
 	{
+		Type object(forward<decltype(args)>(args)...);
 		auto newIt = it - begin();
 		reserve(nextCapacity());
-		emplace(begin() + newIt, forward<decltype(args)>(args)...);
+		insert(begin() + newIt, move(object));
 	}
 }
 
-- 
2.43.0


From e91a947da917a81a6fcba9ddc81e60ce472a0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:12 +0000
Subject: [PATCH 159/161] fix: emplace copies of an array's own elements

---
 include/FlameIDE/Templates/Array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/FlameIDE/Templates/Array.hpp b/include/FlameIDE/Templates/Array.hpp
index 6bed4a3..218b2b5 100644
--- a/include/FlameIDE/Templates/Array.hpp
+++ b/include/FlameIDE/Templates/Array.hpp
@@ -915,6 +915,7 @@ void ARRAY_TYPE::emplace(typename ARRAY_TYPE::Iterator it, Args &&...args)
 			emplaceBack(forward<decltype(args)>(args)...);
 		else
 		{
+			Type object(forward<decltype(args)>(args)...);
 			emplaceNew<Type>(tail);
 
 			Range<ReverseIterator> viewOld(rbegin(), ReverseIterator(it - 1))
@@ -924,7 +925,7 @@ void ARRAY_TYPE::emplace(typename ARRAY_TYPE::Iterator it, Args &&...args)
 				*itNew = move(*itOld);
 
 			it->~T();
-			emplaceNew<Type>(getPointer(it), forward<decltype(args)>(args)...);
+			emplaceNew<Type>(getPointer(it), move(object));
 			++tail;
 		}
 	}
-- 
2.43.0


From d4514e1928125747321a0cec83dc62a9a55d3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:12 +0000
Subject: [PATCH 160/161] fix: emplace copies of a hybrid vector's own elements

---
 include/FlameIDE/Templates/HybridVector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/FlameIDE/Templates/HybridVector.hpp b/include/FlameIDE/Templates/HybridVector.hpp
index 0b5351e..61a6491 100644
--- a/include/FlameIDE/Templates/HybridVector.hpp
+++ b/include/FlameIDE/Templates/HybridVector.hpp
@@ -1743,8 +1743,9 @@ void HYBVECTOR_TYPE::emplaceBack(Args &&...args)
 			}
 			else
 			{
+				Type object(forward<Args>(args)...);
 				this->useVector();
-				this->emplaceBack(forward<Args>(args)...);
+				this->pushBack(move(object));
 			}
 		}
 		else
@@ -1908,12 +1909,13 @@ void HYBVECTOR_TYPE::emplace(Iterator it, Args &&...args)
 			Array *realContainer = container.template get<Array>();
 			if (realContainer->capacity() == realContainer->size())
 			{
+				Type object(forward<Args>(args)...);
 				auto diff = it - begin();
 
 				this->useVector();
 
 				it = begin() + diff;
-				this->emplace(it, forward<Args>(args)...);
+				this->insert(it, move(object));
 			}
 			else
 			{
-- 
2.43.0


From 119e61fa614680859241ec900df169d575922646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:16:19 +0000
Subject: [PATCH 161/161] fix: refuse arrays whose size in bytes does not fit

The number of bytes of an array wrapped around for very large element
counts, so a block far too small was handed out as the whole array.
---
 include/FlameIDE/Templates/Allocator/ArrayAllocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/FlameIDE/Templates/Allocator/ArrayAllocator.hpp b/include/FlameIDE/Templates/Allocator/ArrayAllocator.hpp
index 13a570d..4ba54b9 100644
--- a/include/FlameIDE/Templates/Allocator/ArrayAllocator.hpp
+++ b/include/FlameIDE/Templates/Allocator/ArrayAllocator.hpp
@@ -103,6 +103,8 @@ ArrayAllocator<T, Traits, BaseAllocatorImpl>::construct(
 		typename ArrayAllocator<T, Traits, BaseAllocatorImpl>::SizeType count
 		, Args &&...args) noexcept
 {
+	if (count > SizeType(-1) / sizeof(Type))
+		return nullptr;
 	Pointer pointer = reinterpret_cast<Pointer>(
 			this->allocate(SizeType(sizeof(Type) * count))
 	);
@@ -119,6 +121,8 @@ template<typename T, typename Traits, typename BaseAllocatorImpl>
 typename ArrayAllocator<T, Traits, BaseAllocatorImpl>::Pointer
 ArrayAllocator<T, Traits, BaseAllocatorImpl>::createArray(SizeType count)
 {
+	if (count > SizeType(-1) / sizeof(Type))
+		return nullptr;
 	return reinterpret_cast<Pointer>(this->allocate(SizeType(sizeof(Type) * count)));
 }
 
@@ -128,6 +132,8 @@ ArrayAllocator<T, Traits, BaseAllocatorImpl>::reallocateArray(
 		typename ArrayAllocator<T, Traits, BaseAllocatorImpl>::Pointer pointer
 		, SizeType count)
 {
+	if (count > SizeType(-1) / sizeof(Type))
+		return nullptr;
 	return reinterpret_cast<Pointer>(
 			this->reallocate(
 					VoidPointer(pointer), SizeType(sizeof(Type) * count)
-- 
2.43.0

