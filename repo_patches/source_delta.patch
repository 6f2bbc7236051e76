From 59ff0746b425fa4ec6d12111614c55ec2f9d2030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 01/25] fix: combine nodes whose elements all have the same
 hash

twig.Combine lost the elements of the other node (or panicked), and leaves
could not be combined with twigs at all.
---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 35 ++++++++++-------------------------
 3 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..c2ba7b6 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -68,6 +68,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..cba75d2 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -102,47 +102,32 @@ func (l *twig[T]) Canonical(depth int) node[T] {
 	}
 }
 
-func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) { //nolint:cyclop
+func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) {
 	var ndata []T
 	switch n := n.(type) {
 	case *twig[T]:
 		ndata = n.data
+	case *leaf2[T]:
+		ndata = n.data[:]
+	case *leaf1[T]:
+		ndata = []T{n.data}
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 73ac2fae59196fa4a28dc204ff9755290a90dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 02/25] fix: do not share a twig's backing array between
 versions

Adding to a twig appended to its slice in place, so that two versions derived
from the same collection overwrote each other's elements.
---
 internal/pkg/tree/twig.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index cba75d2..a8c8f00 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -273,7 +273,9 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -285,7 +287,9 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 32ca8a8dd91dcc1b661228064bc8b6f7895d2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 03/25] fix: locate negative integers in an IntSet cell

---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..db6a04f 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << (uint(i) % cellBits)
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 13c26551c54823de10adcf6aa156d69734bd88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 04/25] fix: format an empty tree without dereferencing its nil
 root

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 51718ce2fe9b8f5208d42169986dabcc30f00030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 05/25] fix: make BitIterator.Without clear exactly the given
 bit

---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 0f46c38a44e363bffedd755d397e8988c10bb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 06/25] fix: end Iota3 when the next element would overflow

---
 set_extra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set_extra.go b/set_extra.go
index 31384ef..ced3689 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -27,11 +27,11 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 	}
 	var b SetBuilder[T]
 	if step > 0 {
-		for i := start; i < stop; i += step {
+		for i, prev := start, start; prev <= i && i < stop; prev, i = i, i+step { // prev > i on overflow
 			b.Add(i)
 		}
 	} else {
-		for i := start; i > stop; i += step {
+		for i, prev := start, start; prev >= i && i > stop; prev, i = i, i+step { // prev < i on overflow
 			b.Add(i)
 		}
 	}
-- 
2.43.0


From b2891747ba831ba3ea0f02422e8fc1af944fefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 07/25] fix: encode a Set of bytes as a JSON array

---
 set_extra.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/set_extra.go b/set_extra.go
index ced3689..98ce802 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -51,9 +51,10 @@ func NewSetFromMask64(mask uint64) Set[int] {
 
 // MarshalJSON implements json.Marshaler.
 func (s Set[T]) MarshalJSON() ([]byte, error) {
-	proxy := make([]T, 0, s.Count())
+	proxy := make([]*T, 0, s.Count()) // not []T, which is a string if T is a byte type
 	for i := s.Range(); i.Next(); {
-		proxy = append(proxy, i.Value())
+		v := i.Value()
+		proxy = append(proxy, &v)
 	}
 	data, err := json.Marshal(proxy)
 	return data, err
-- 
2.43.0


From 26e2be95e903bc5161bd59167d565f2b6f81ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 08/25] fix: compare lazy.EmptySet with the other set in Equal

---
 lazy/set_empty.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..cd5f410 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -36,9 +36,9 @@ func (EmptySet) Freeze() Set {
 	return Frozen(frozen.Set[any]{})
 }
 
-func (EmptySet) Equal(set any) bool {
+func (s EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return s.EqualSet(set)
 	}
 	return false
 }
-- 
2.43.0


From 16c6ff659d74541470689a3cadf44c50df017645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 09/25] fix: consult both operands in lazy union and difference
 membership

---
 lazy/set_diff.go  | 13 +++++++++----
 lazy/set_union.go | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..832466c 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return false, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From a9fd744d797a2a7f7388c699e6b3f971621e72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 10/25] fix: make the hash of a lazy set independent of
 traversal order

---
 lazy/set_base.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..d277256 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -74,9 +74,10 @@ func (s *baseSet) EqualSet(t Set) bool {
 }
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
-	h := hash.Uintptr(hashSeed, seed)
+	h0 := hash.Uintptr(hashSeed, seed)
+	h := h0
 	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+		h ^= hash.Any(i.Value(), h0)
 	}
 	return h
 }
-- 
2.43.0


From 17774a75dab2aa02eebdafc21a70ae0c9bb79754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 11/25] fix: yield each element of a lazy union or map once

---
 lazy/set_transform.go | 18 ++++++++++++++----
 lazy/set_union.go     | 13 ++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/lazy/set_transform.go b/lazy/set_transform.go
index efe285b..27d1894 100644
--- a/lazy/set_transform.go
+++ b/lazy/set_transform.go
@@ -1,5 +1,7 @@
 package lazy
 
+import "github.com/arr-ai/frozen"
+
 type mapperSet struct {
 	baseSet
 	src Set
@@ -17,14 +19,22 @@ func (s *mapperSet) Range() SetIterator {
 }
 
 type mapperSetIterator struct {
-	i SetIterator
-	m Mapper
+	i     SetIterator
+	m     Mapper
+	seen  frozen.SetBuilder[any]
+	value any
 }
 
 func (s *mapperSetIterator) Next() bool {
-	return s.i.Next()
+	for s.i.Next() {
+		if s.value = s.m(s.i.Value()); !s.seen.Has(s.value) {
+			s.seen.Add(s.value)
+			return true
+		}
+	}
+	return false
 }
 
 func (s *mapperSetIterator) Value() any {
-	return s.m(s.i.Value())
+	return s.value
 }
diff --git a/lazy/set_union.go b/lazy/set_union.go
index 832466c..1413206 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -1,5 +1,7 @@
 package lazy
 
+import "github.com/arr-ai/frozen"
+
 type unionSet struct {
 	baseSet
 	a, b Set
@@ -48,14 +50,19 @@ func (s *unionSet) Range() SetIterator {
 }
 
 type unionSetIterator struct {
-	i SetIterator
-	b Set
+	i    SetIterator
+	b    Set
+	seen frozen.SetBuilder[any]
 }
 
 func (i *unionSetIterator) Next() bool {
 	for {
 		if i.i.Next() {
-			return true
+			if val := i.i.Value(); !i.seen.Has(val) {
+				i.seen.Add(val)
+				return true
+			}
+			continue
 		}
 		if i.b == nil {
 			return false
-- 
2.43.0


From 91ac44273caf39e0be6b2a3d03e1db5273552ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 12/25] fix: find subsets in a lazy power set

---
 lazy/set_powerset.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..693b062 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,8 +57,14 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	switch ss := el.(type) {
+	case Set:
+		return ss.IsSubsetOf(s.set)
+	case frozen.Set[any]:
+		return Frozen(ss).IsSubsetOf(s.set)
+	default:
+		return false
+	}
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 6702bc163c1774a263647470dec545746bd30c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 13/25] fix: count lazy power sets up to a limit without
 overflow

---
 lazy/set_powerset.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 693b062..cffa624 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -6,6 +6,10 @@ import (
 	"github.com/arr-ai/frozen"
 )
 
+// maxPowersetBits is the smallest cardinality whose power set has too many
+// elements to count with an int.
+const maxPowersetBits = int(8*unsafe.Sizeof(0)) - 1
+
 type powerSet struct {
 	baseSet
 	set Set
@@ -26,32 +30,28 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < maxPowersetBits {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
 }
 
 func (s *powerSet) FastCount() (count int, ok bool) {
-	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
-			return 1 << uint(count), true
-		}
-		panic("Count(): too many elements")
+	if count, ok := s.set.FastCount(); ok && count < maxPowersetBits {
+		return 1 << uint(count), true
 	}
 	return 0, false
 }
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < maxPowersetBits {
 			n := 1 << uint(count)
 			if n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From 608aad88e71e3264c62a4dba91043c503cf6428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 14/25] fix: keep a lazy memo when its iterator is advanced
 past the end

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From 4b0073701592dcf68fa7ecd262a94f482ce16140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 15/25] fix: a lazy power set has lazy sets, not frozen sets,
 as elements

---
 lazy/set_powerset.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index cffa624..ab485d3 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,14 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	switch ss := el.(type) {
-	case Set:
-		return ss.IsSubsetOf(s.set)
-	case frozen.Set[any]:
-		return Frozen(ss).IsSubsetOf(s.set)
-	default:
-		return false
-	}
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 5a9b7f56bae7a2fa5396ffe5ce333fd3e402d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 16/25] fix: a join with an empty relation is empty

---
 pkg/rel/relation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..af072f4 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -58,9 +58,12 @@ func Join(relations ...Relation) Relation {
 }
 
 func join(s, t Relation) Relation {
-	if s.IsEmpty() || t.IsEmpty() {
+	if s.IsEmpty() {
 		return s
 	}
+	if t.IsEmpty() {
+		return t
+	}
 	if s.Equal(trueSet) {
 		return t
 	}
-- 
2.43.0


From aab521269b9a78baf96b41765c9e86e64ca4a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 17/25] fix: combine branches in parallel without data races

---
 internal/pkg/tree/branch.go   |  4 ++--
 internal/pkg/tree/nodeArgs.go | 16 +++++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..8274972 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,18 +34,16 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	a := &CombineArgs[T]{EqArgs: ea, f: combine}
+	a.flipped = &CombineArgs[T]{
+		EqArgs:  ea,
+		f:       func(a, b T) T { return combine(b, a) },
+		flipped: a,
+	}
+	return a
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
-	}
 	return a.flipped
 }
 
-- 
2.43.0


From c40ee9d73b19fdb0a697a3e64c2b4f32ce7a7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 18/25] fix: format memoised lazy sets without racing with
 memoisation

---
 lazy/set_memo.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 0014493..f4accda 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -1,6 +1,7 @@
 package lazy
 
 import (
+	"fmt"
 	"sync/atomic"
 	"unsafe"
 
@@ -30,6 +31,12 @@ func (s *memoSet) getSet() Set {
 	return *(*Set)(atomic.LoadPointer(s.pointer()))
 }
 
+// String formats the current underlying set. Without it, fmt would read the
+// set field while another goroutine replaces it.
+func (s *memoSet) String() string {
+	return fmt.Sprint(s.getSet())
+}
+
 func (s *memoSet) Range() SetIterator {
 	if f, ok := s.getSet().(*frozenSet); ok {
 		return f.set.Range()
-- 
2.43.0


From 688c910fb76ac4d32293388d8fd4c3787a8d378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 19/25] fix: hand panics of parallel workers over to the caller

---
 internal/pkg/depth/gauge.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/pkg/depth/gauge.go b/internal/pkg/depth/gauge.go
index 821fb43..a30c415 100644
--- a/internal/pkg/depth/gauge.go
+++ b/internal/pkg/depth/gauge.go
@@ -51,19 +51,27 @@ func NewGauge(count int) Gauge {
 func (pd Gauge) Parallel(depth int, mask masker.Masker, f func(i int) (bool, int)) (_ bool, matches int) {
 	if depth < int(pd) {
 		type outcome struct {
-			matches int
-			ok      bool
+			matches  int
+			ok       bool
+			panicked any
 		}
 		outcomes := make(chan outcome, Fanout)
 		for m := mask; m != 0; m = m.Next() {
 			i := m.FirstIndex()
 			go func() {
-				ok, m := f(i)
-				outcomes <- outcome{matches: m, ok: ok}
+				var o outcome
+				defer func() {
+					// Hand panics over to the caller's goroutine.
+					o.panicked = recover()
+					outcomes <- o
+				}()
+				o.ok, o.matches = f(i)
 			}()
 		}
 		for m := mask; m != 0; m = m.Next() {
-			if o := <-outcomes; o.ok {
+			if o := <-outcomes; o.panicked != nil {
+				panic(o.panicked)
+			} else if o.ok {
 				matches += o.matches
 			} else {
 				return false, matches
-- 
2.43.0


From a9a34025d549420ea0c9f7a7d71fda5a67ab0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 20/25] fix: bound the capacity in OrderedFirstN by the size of
 the set

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index d3b552f..676fdf2 100644
--- a/set.go
+++ b/set.go
@@ -104,6 +104,9 @@ func (s Set[T]) AnyN(n int) Set[T] {
 
 // OrderedFirstN returns a list of elements in a defined order.
 func (s Set[T]) OrderedFirstN(n int, less tree.Less[T]) []T {
+	if n > s.Count() {
+		n = s.Count()
+	}
 	result := make([]T, 0, n)
 	currentLength := 0
 	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
-- 
2.43.0


From 2ae258934a02934940bca50ac7a4ced5d81a996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 21/25] fix: hash nested collections apart

Combining element hashes with XOR and nothing after made rearrangements
collide: {{1},{2,3}} with {{1,2},{3}}, relations that pair the same values
differently, and elements of equal hash cancelled out. Sets of such
collections took linear time to look up.
---
 intset.go         | 5 +++--
 lazy/set_base.go  | 4 ++--
 lazy/set_empty.go | 2 +-
 map.go            | 2 +-
 set.go            | 4 ++--
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/intset.go b/intset.go
index db6a04f..7a9e040 100644
--- a/intset.go
+++ b/intset.go
@@ -104,10 +104,11 @@ func (s IntSet[I]) Format(f fmt.State, verb rune) {
 }
 
 func (s IntSet[I]) Hash(seed uintptr) uintptr {
+	h := seed
 	for i := s.Range(); i.Next(); {
-		seed ^= hash.Any(i.Value(), 0)
+		h ^= hash.Any(i.Value(), 0)
 	}
-	return seed
+	return hash.Uintptr(h, seed)
 }
 
 // EqualSet is deprecated. Use Equal instead.
diff --git a/lazy/set_base.go b/lazy/set_base.go
index d277256..b68a9a8 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -77,9 +77,9 @@ func (s *baseSet) Hash(seed uintptr) uintptr {
 	h0 := hash.Uintptr(hashSeed, seed)
 	h := h0
 	for i := s.set.Range(); i.Next(); {
-		h ^= hash.Any(i.Value(), h0)
+		h += hash.Any(i.Value(), h0)
 	}
-	return h
+	return hash.Uintptr(h, seed)
 }
 
 func (s *baseSet) Has(el any) bool {
diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index cd5f410..d5e6725 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -48,7 +48,7 @@ func (EmptySet) EqualSet(set Set) bool {
 }
 
 func (EmptySet) Hash(seed uintptr) uintptr {
-	return hash.Uintptr(hashSeed, seed)
+	return hash.Uintptr(hash.Uintptr(hashSeed, seed), seed)
 }
 
 func (EmptySet) Has(any) bool {
diff --git a/map.go b/map.go
index 16fee54..cd83def 100644
--- a/map.go
+++ b/map.go
@@ -217,7 +217,7 @@ func (m Map[K, V]) Hash(seed uintptr) uintptr {
 	for i := m.Range(); i.Next(); {
 		h ^= hash.Any(i.Value(), hash.Any(i.Key(), seed))
 	}
-	return h
+	return hash.Uintptr(h, seed)
 }
 
 // Equal returns true iff i is a Map with all the same key-value pairs as this
diff --git a/set.go b/set.go
index 676fdf2..8922764 100644
--- a/set.go
+++ b/set.go
@@ -167,9 +167,9 @@ func (s Set[T]) OrderedRange(less tree.Less[T]) Iterator[T] {
 func (s Set[T]) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(uintptr(10538386443025343807&uint64(^uintptr(0))), seed)
 	for i := s.Range(); i.Next(); {
-		h ^= hash.Any(i.Value(), seed)
+		h += hash.Any(i.Value(), seed)
 	}
-	return h
+	return hash.Uintptr(h, seed)
 }
 
 // Equal returns true iff s and set have all the same elements.
-- 
2.43.0


From 84350ef39c515065534f29d54b556f374fa9e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 22/25] fix: let go of elements removed from a collision bucket

A builder's Remove left the removed element in the slot past the end of the
bucket's slice, from where it stayed reachable for as long as the bucket.
---
 internal/pkg/tree/twig.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index a8c8f00..e955611 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -214,6 +214,8 @@ func (l *twig[T]) Remove(v T, depth int, _ hasher) (_ node[T], matches int) {
 			if i < last {
 				l.data[i] = l.data[last]
 			}
+			var zero T
+			l.data[last] = zero // let the removed element go
 			l.data = l.data[:last]
 			return l.Canonical(depth), matches
 		}
-- 
2.43.0


From 21d82cdfa798957f7978e1b2b4e1211aa064e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 23/25] fix: ask a lazy set's predicate about its elements only

Has called the predicate with any value it was asked about, so that a
predicate for the set's elements, (func(el any) bool { return el.(int) > 3 }),
panicked on others, also within Intersection, Difference and EqualSet with
sets of others.
---
 lazy/set_where.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_where.go b/lazy/set_where.go
index afdf6c6..83aa530 100644
--- a/lazy/set_where.go
+++ b/lazy/set_where.go
@@ -20,7 +20,7 @@ func (s *whereSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *whereSet) Has(el any) bool {
-	return s.pred(el) && s.src.Has(el)
+	return s.src.Has(el) && s.pred(el)
 }
 
 func (s *whereSet) Range() SetIterator {
-- 
2.43.0


From ae17f5060691bcc7598b6ca7b6ff08aac61748a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 24/25] fix: keep FastCountUpTo of a union with an empty set
 fast

It counted the other set, calling its predicates and mappers, whatever
that takes.
---
 lazy/set_union.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index 1413206..db4989d 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -15,10 +15,10 @@ func union(a, b Set) Set {
 
 func (s *unionSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if empty, ok := s.a.FastIsEmpty(); ok && empty {
-		return s.b.CountUpTo(limit), true
+		return s.b.FastCountUpTo(limit)
 	}
 	if empty, ok := s.b.FastIsEmpty(); ok && empty {
-		return s.a.CountUpTo(limit), true
+		return s.a.FastCountUpTo(limit)
 	}
 	if count, ok := s.a.FastCountUpTo(limit); ok && count == limit {
 		return count, true
-- 
2.43.0


From 3278f08aadc69cfb2437d3017ef7ddb9cc132177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 25/25] fix: memoise a difference with an empty set

It gave the minuend's underlying set, which evaluates anew with each
observation.
---
 lazy/set_diff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index db1ec43..ba44efd 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -10,7 +10,7 @@ func difference(a, b Set) Set {
 		return a
 	}
 	if empty, ok := b.FastIsEmpty(); ok && empty {
-		return a
+		return memo(a)
 	}
 	s := &differenceSet{a: a, b: b}
 	s.baseSet.set = s
-- 
2.43.0

