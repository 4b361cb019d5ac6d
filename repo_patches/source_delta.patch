From a11d9c814f9ed747335e48662eedb58d35387cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 01/58] fix: AVL range iterator starts at the first key not
 less than start

---
 src/collection/avl.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..f817f8d 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -448,11 +448,17 @@ func (i *AVLIterator) advance() {
 
 	if i.start != nil {
 
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
+		for comp := i.start.Compare(i.currNode.key); comp > 0; {
 
 			if i.currNode.link[1] != nil {
 
 				i.currNode = i.currNode.link[1]
+				i.currPos = 0
+				// smallest key of the right subtree comes first
+				for i.currNode.link[0] != nil {
+					i.paths = append(i.paths, i.currNode)
+					i.currNode = i.currNode.link[0]
+				}
 				comp = i.start.Compare(i.currNode.key)
 
 			} else {
-- 
2.43.0


From a85cc3cb09a3fcd5f7f1754a73b1125b11ccfff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 02/58] fix: exhausted map and set iterators return nil instead
 of panicking

---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 57b2a4a1283a10484628099d0ac1aa0d6601353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:33 +0000
Subject: [PATCH 03/58] fix: slice comparison with a proper prefix no longer
 indexes out of range

---
 src/collection/util.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From 9f507993fc8ccae404359edbae7fc3dd4a9db0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:35 +0000
Subject: [PATCH 04/58] fix: comparables over nil slices compare equal to each
 other

---
 src/collection/comparable.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..86e325a 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -86,9 +86,9 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -143,9 +143,9 @@ func (s *ComparableByteSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableByteSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -200,9 +200,9 @@ func (s *ComparableInt8Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -257,9 +257,9 @@ func (s *ComparableInt16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -314,9 +314,9 @@ func (s *ComparableUint16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -371,9 +371,9 @@ func (s *ComparableInt32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -428,9 +428,9 @@ func (s *ComparableUint32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -485,9 +485,9 @@ func (s *ComparableInt64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
@@ -543,9 +543,9 @@ func (s *ComparableUint64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
-- 
2.43.0


From de939f5bad417e3d6275125b31a2171cfb63f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:37 +0000
Subject: [PATCH 05/58] fix: ComparableSlice handles nil elements, and Equal
 agrees with Compare on nil slices

---
 src/collection/comparable.go | 5 +++++
 src/collection/util.go       | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 86e325a..a3eb3e3 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -65,6 +65,11 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	// convert to ComparableSlice
 	th := t.(*ComparableSlice)
 
+	// If one is nil, the other must also be nil.
+	if (s.slice == nil) != (th.slice == nil) {
+		return false
+	}
+
 	if len(s.slice) != len(th.slice) {
 		return false
 	}
diff --git a/src/collection/util.go b/src/collection/util.go
index 42695bc..0df0d8f 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -441,6 +441,15 @@ func CompareSlice(s1, s2 []IComparable) int {
 			return 1
 		}
 
+		// nil element is equal to nil, and smaller than any other element
+		if s1[i] == nil && s2[i] == nil {
+			continue
+		} else if s1[i] == nil {
+			return -1
+		} else if s2[i] == nil {
+			return 1
+		}
+
 		compare := s1[i].Compare(s2[i])
 		if compare != 0 {
 			return compare
-- 
2.43.0


From 92ed1957f88f4c300f7fbcb0204d872d08d36340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:39 +0000
Subject: [PATCH 06/58] fix: HashableSlice hashes non-nil elements without
 panicking

---
 src/collection/hashable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..d15bcc6 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -102,7 +102,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
+			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((*IHashable)(nil)).Elem()) {
 				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
 			}
 			h ^= obj.(IHashable).HashUint32(f)
-- 
2.43.0


From 4007e6ac109c32533406568197f6b2c03e7c1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 07/58] fix: numeric hashable slices no longer reslice past
 their capacity

---
 src/collection/hashable.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index d15bcc6..373b720 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -204,7 +204,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +253,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +302,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +351,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +400,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +449,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 4855b12fbf1c535cb00353c6bc6caffd2b756a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 08/58] fix: IsNil no longer panics on array values

---
 src/collection/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index 0df0d8f..43a6f5b 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -30,7 +30,7 @@ func IsNil(i interface{}) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 143b08463d9a7b83a0e4390dba7901adb65b639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 09/58] fix: DecodeVarchar rejects lengths that overflow int
 instead of panicking

---
 src/util/misc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..fbae299 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -122,7 +122,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if bufLength > uint64(len(buf)-bufN) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From b043a22c6578849ee0cf4b71f81c8929b55995db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:11 +0000
Subject: [PATCH 10/58] fix: MappedKey.Decode rejects missing and zero length
 sub keys

---
 src/util/key_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..8a6a6db 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,12 +227,20 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	// each sub key takes at least 1 byte
+	if subKeySize > uint64(len(k.buf)-pos) {
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
 		}
+		// sub key cannot have zero length
+		if len(k.keys[idx]) == 0 {
+			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] is missing or has zero length", idx)
+		}
 		pos += length
 	}
 
-- 
2.43.0


From 36075cbfc0992dca464199b1d2610845bf22a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 11/58] fix: MappedKey.Buf ends where the key ends

---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 8a6a6db..c177dae 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -244,6 +244,7 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		pos += length
 	}
 
+	k.buf = k.buf[:pos] // keep the mapped key only, buf may have other data follow
 	k.decoded = true
 
 	return pos, nil
-- 
2.43.0


From 2fc383aae2885117faa17369469ede74756eaecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 12/58] fix: MappedKey.IsDecoded reports whether the key is
 decoded

---
 src/util/key_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index c177dae..6dc7693 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
-- 
2.43.0


From e560736d0b62b7c5e60d7c7c9589771d51213fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:18 +0000
Subject: [PATCH 13/58] fix: comparing a key with its own prefix no longer
 panics

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 6dc7693..eccdd46 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -305,7 +305,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -511,7 +511,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From 4bf7e91066d5123d14098f7b9a40e0e9c24bb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 14/58] fix: Key.Add invalidates the encoded buf

---
 src/util/key_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index eccdd46..a4c2f44 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -558,6 +558,8 @@ func (k *Key) Add(subKey []byte) *Key {
 	}
 
 	k.keys = append(k.keys, subKey)
+	k.buf = nil
+	k.encoded = false // encoded buf is out of date
 	k.estBufSize += 1 + len(subKey)
 	return k
 }
-- 
2.43.0


From dc21149cd739de427d9e81a9a9462706e3a584b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 15/58] fix: key hash depends on the order of sub keys, so
 MPHBuild terminates

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index a4c2f44..f0f8feb 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -327,7 +327,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*31 + f(key)
 	}
 	return hashValue
 }
@@ -471,7 +471,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*31 + f(key)
 	}
 	return hashValue
 }
-- 
2.43.0


From bc6ae5027161de4a907c422902f67b45427820cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:02 +0000
Subject: [PATCH 16/58] fix: nil Primitive encodes to its magic byte, so it
 keeps its place in a ValueArray

---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From 6cece36ad5d4c2feec4c3b5676245716212235b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:04 +0000
Subject: [PATCH 17/58] fix: ValueAt and RecordAt keep reporting the error of
 an invalid element

---
 src/util/value_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..587a966 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -289,6 +289,7 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 			}
 			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
 			if err != nil {
+				d.data_array[i] = nil // no typed nil, next ValueAt reports the error again
 				return nil, err
 			}
 		}
@@ -326,6 +327,7 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 			}
 			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
 			if err != nil {
+				d.record_list[i] = nil // no typed nil, next RecordAt reports the error again
 				return nil, err
 			}
 		}
-- 
2.43.0


From ae93b3cdce0a5fad84e0724d4df29b13d9682530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 18/58] fix: MappedRecord.Decode accepts records without key,
 value, or scheme

---
 src/util/record_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..ddc0e8b 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -170,9 +170,9 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
-	} else if len(key.Buf()) > MAX_KEY_LENGTH {
+	} else if hasKey != 0 && len(key.Buf()) > MAX_KEY_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
-	} else {
+	} else if hasKey != 0 {
 		r.key = key
 		pos += len(r.key.Buf())
 	}
@@ -187,9 +187,9 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
-	} else if len(value.Buf()) > MAX_VALUE_LENGTH {
+	} else if hasValue != 0 && len(value.Buf()) > MAX_VALUE_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
-	} else {
+	} else if hasValue != 0 {
 		r.value = value
 		pos += len(r.value.Buf())
 	}
@@ -204,9 +204,9 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
-	} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
+	} else if hasScheme != 0 && len(scheme.Buf()) > MAX_SCHEME_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
-	} else {
+	} else if hasScheme != 0 {
 		r.scheme = scheme
 		pos += len(r.scheme.Buf())
 	}
-- 
2.43.0


From 69504bf19dbda71e3ba81f2cc3f1f9dd04a992c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 19/58] fix: MappedRecord.CopyConstruct handles absent and
 invalid elements

---
 src/util/record_util.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index ddc0e8b..3477060 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -266,24 +266,29 @@ func (r *MappedRecord) Copy() IEncodable {
 func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 
 	result := NewRecord()
-	var err error
 
-	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+	if r.Key() != nil {
+		key, err := r.Key().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+		}
+		result.key = key.(IKey)
 	}
 
-	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+	if r.Value() != nil {
+		value, err := r.Value().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+		}
+		result.value = value.(IValue)
 	}
 
-	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+	if r.Scheme() != nil {
+		scheme, err := r.Scheme().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+		}
+		result.scheme = scheme.(IValue)
 	}
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
-- 
2.43.0


From 01ab86feb69d8be5ef446b4f2fb0654ed1526b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 20/58] fix: Record.Encode rejects values and schemes that
 Decode would reject

---
 src/util/record_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 3477060..01bba5b 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -433,6 +433,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.value.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
+		} else if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 5
@@ -445,6 +447,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.scheme.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
+		} else if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 4
-- 
2.43.0


From b196bf797291a0c314364056e8cb1c2530cd13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:12 +0000
Subject: [PATCH 21/58] fix: Record setters accept nil

---
 src/util/record_util.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 01bba5b..09b4405 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -555,7 +555,10 @@ func (r *Record) CopyConstruct() (IEncodable, error) {
 func (r *Record) SetKey(key IKey) *Record {
 	r.key = key
 	r.encoded = false
-	r.estKeySize = r.key.EstBufSize()
+	r.estKeySize = 1
+	if r.key != nil {
+		r.estKeySize = r.key.EstBufSize()
+	}
 	return r
 }
 
@@ -569,7 +572,7 @@ func (r *Record) SetK(key []byte) *Record {
 func (r *Record) SetValue(value IValue) *Record {
 	r.value = value
 	r.encoded = false
-	r.estDataSize = r.value.EstBufSize()
+	r.estDataSize = estimateValueBufSize(r.value)
 	return r
 }
 
@@ -583,7 +586,7 @@ func (r *Record) SetV(value []byte) *Record {
 func (r *Record) SetScheme(scheme IValue) *Record {
 	r.scheme = scheme
 	r.encoded = false
-	r.estSchemeSize = r.scheme.EstBufSize()
+	r.estSchemeSize = estimateValueBufSize(r.scheme)
 	return r
 }
 
-- 
2.43.0


From df94ed169c767b7c785352069bab1cd93abe506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 22/58] fix: NewMPHTable rejects a verify key count the buf
 cannot hold

---
 src/util/mph_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..20a5cab 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -132,11 +132,19 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each verify key takes at least 1 byte
+		if uint64(verifyKeySize) > uint64(len(buf)-pos) {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify keys %d", verifyKeySize)
+		}
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
 		for i := 0; i < int(verifyKeySize); i++ {
 
+			if len(buf) <= pos {
+				return nil, pos, fmt.Errorf("NewMPHTable - missing verify key [%d] %d", i, len(buf))
+			}
+
 			// verify key length
 			verifyKey, verifyKeyN, err := NewMappedKey(buf[pos:])
 			if err != nil {
-- 
2.43.0


From f68f010d046ceb741167cb7b9a9b609a09ec0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:41 +0000
Subject: [PATCH 23/58] fix: MPHTable.Lookup does not panic on empty or
 inconsistent tables

---
 src/util/mph_util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index 20a5cab..fe3b6d6 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -92,6 +92,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level0Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level0Mask >= len(t.level0) {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 0 mask %d exceeds level 0 length %d", t.level0Mask, len(t.level0))
+	}
 
 	////////////////////////////////////////
 	// level 1 size
@@ -117,6 +120,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	}
 	t.level1Mask = int(binary.BigEndian.Uint32(buf[pos:]))
 	pos += 4
+	if t.level1Mask >= len(t.level1) {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 1 mask %d exceeds level 1 length %d", t.level1Mask, len(t.level1))
+	}
 
 	////////////////////////////////////////
 	// verify key, or verify hash
@@ -365,6 +371,10 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
+	// index without key (e.g. table is empty)
+	if int(n) >= len(t.verifyKey) && int(n) >= len(t.verifyHash) {
+		return n, false
+	}
 	if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
-- 
2.43.0


From d1311588623a3305b7a97de6aecf82a21a04a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 24/58] fix: scheme magic bits record which attributes are
 present

---
 src/util/scheme_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..21d9184 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -158,7 +158,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +167,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +176,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -326,7 +326,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -336,7 +336,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -346,7 +346,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 231d1f4f7af4f2845aed8bbb058b31eb4fb7695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 25/58] fix: MappedScheme.Decode rejects truncated input, and
 Buf ends where the scheme ends

---
 src/util/scheme_util.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 21d9184..6191dfe 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,12 +153,19 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - invalid empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
 
 	// decode domain
 	if s.buf[0]&(0x01<<7) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing domain")
+		}
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -168,6 +175,9 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 
 	// decode tablet
 	if s.buf[0]&(0x01<<6) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing tablet")
+		}
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -182,8 +192,15 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		// each bucket takes at least 1 byte
+		if length == 0 || bucketSize > uint64(len(s.buf)-pos) {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing buckets [%d]", bucketSize)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
+			if len(s.buf) <= pos {
+				return 0, fmt.Errorf("MappedScheme::Decode - missing bucket [%d]", idx)
+			}
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
 			if err != nil {
 				return 0, fmt.Errorf("MappedScheme::Decode - bucket [%d] error [%v]", idx, err)
@@ -192,6 +209,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		}
 	}
 
+	s.buf = s.buf[:pos] // keep the mapped scheme only, buf may have other data follow
 	s.decoded = true
 
 	return pos, nil
-- 
2.43.0


From e479858f69cc1d11b628b15dc9682d2d796d4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 26/58] fix: decoded varints are no longer limited by the size
 of the remaining buf

---
 src/util/misc_util.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index fbae299..ec9e940 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
-- 
2.43.0


From aa2cc6cb9a9c7fa2e27f774914bab4a6873271a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 27/58] fix: RaftTime LT and LE agree with GT and GE

---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..91fa6fa 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From 269a464f24fac0739479f90d682798f7bde6a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:49 +0000
Subject: [PATCH 28/58] fix: RaftTime.Buf no longer overwrites the magic byte

---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index 91fa6fa..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From b9626e21e638b6af2bb66f2ca3fc826965d23b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:51 +0000
Subject: [PATCH 29/58] fix: NewMappedConsensusID returns an error on empty buf

---
 src/util/consensus_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..4cb9505 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -280,6 +280,10 @@ type MappedConsensusID struct {
 }
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
+	if len(buf) == 0 {
+		return nil, fmt.Errorf("NewConsensusID - no magic")
+	}
+
 	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
 		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
 	}
-- 
2.43.0


From 3c8380efc774b5ee26e6cbf648b4fe710319a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 30/58] fix: signed random ranges never go below min

---
 src/util/rand_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..bbc4fb4 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -155,7 +155,7 @@ func RandUint64() uint64 {
 
 func RandInt8Range(min, max int8) int8 {
 	data := RandInt8()
-	result := data%(max-min) + min
+	result := int8(uint8(data)%(uint8(max)-uint8(min))) + min
 	return result
 }
 
@@ -167,7 +167,7 @@ func RandUint8Range(min, max uint8) uint8 {
 
 func RandInt16Range(min, max int16) int16 {
 	data := RandInt16()
-	result := data%(max-min) + min
+	result := int16(uint16(data)%(uint16(max)-uint16(min))) + min
 	return result
 }
 
@@ -179,7 +179,7 @@ func RandUint16Range(min, max uint16) uint16 {
 
 func RandInt32Range(min, max int32) int32 {
 	data := RandInt32()
-	result := data%(max-min) + min
+	result := int32(uint32(data)%(uint32(max)-uint32(min))) + min
 	return result
 }
 
@@ -191,7 +191,7 @@ func RandUint32Range(min, max uint32) uint32 {
 
 func RandInt64Range(min, max int64) int64 {
 	data := RandInt64()
-	result := data%(max-min) + min
+	result := int64(uint64(data)%(uint64(max)-uint64(min))) + min
 	return result
 }
 
-- 
2.43.0


From 1744f88ee66cb8c1d83ea27c8aa975aaf8011a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 31/58] fix: generated public key is the one recovered from its
 X coordinate

---
 src/util/ecdsa_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..6881518 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -9,6 +9,8 @@ import (
 	"crypto/sha256"
 	"fmt"
 	"math/big"
+
+	"../collection"
 )
 
 // 32 byte array
@@ -44,6 +46,10 @@ func ECDSAGenerateKey() *ecdsa.PrivateKey {
 		fmt.Println(err)
 		return nil
 	} else {
+		// pub key is known by X only, keep the priv key whose Y is the one calculated from X
+		if ECDSACalculateY(curve, priv_key.X).Cmp(priv_key.Y) != 0 {
+			priv_key = ECDSAGetPrivateKey(collection.BigIntToByteArray(new(big.Int).Sub(curve.Params().N, priv_key.D)))
+		}
 		return priv_key
 	}
 }
-- 
2.43.0


From aeabfaad2a2cf4c0d75246f200db1e1d65378984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:57 +0000
Subject: [PATCH 32/58] fix: loading a truncated key file returns an error
 instead of panicking

---
 src/util/lc_util.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..5b9fbf3 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] missing CRC", filepath)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -259,7 +263,12 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
-	return ECDSAGetPublicKey(data), nil
+	pub_key := ECDSAGetPublicKey(data)
+	if pub_key.Y == nil || len(data) != 32 {
+		return nil, fmt.Errorf("[%s] invalid public key", filepath)
+	}
+
+	return pub_key, nil
 }
 
 // priv key are always encrypted
@@ -271,6 +280,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] missing nonce", filepath)
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
-- 
2.43.0


From f956d3daa43a321b8530dbc5106a2a883c30455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:59 +0000
Subject: [PATCH 33/58] fix: saving a key reports a directory that cannot be
 created

---
 src/util/lc_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 5b9fbf3..2799271 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -313,7 +313,10 @@ func lc_mkdir_if_not_exist(path string) error {
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, stat_err := os.Stat(path)
+	if stat_err != nil {
+		return stat_err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From 4ec3af778b2669167ec2d85a4ef902ecfb76bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:18 +0000
Subject: [PATCH 34/58] fix: trie lookup of a missing key returns nil instead
 of panicking

---
 src/util/trie_util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 29af67d..7d45e5a 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -369,7 +369,12 @@ func (tn *MappedTrieNode) GetChild(nodeKey []byte) ITrieNode {
 		return nil
 	}
 
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child := tn.children.Get(collection.NewComparableByteSlice(nodeKey))
+	if child == nil {
+		return nil // no such child
+	}
+
+	return child.(ITrieNode)
 }
 
 func (tn *MappedTrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
@@ -837,7 +842,12 @@ func (tn *TrieNode) ChildSize() int {
 }
 
 func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child := tn.children.Get(collection.NewComparableByteSlice(nodeKey))
+	if child == nil {
+		return nil // no such child
+	}
+
+	return child.(ITrieNode)
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
-- 
2.43.0


From 859db5ceeb450422cc8c8c44a48514e1be23cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:20 +0000
Subject: [PATCH 35/58] fix: removing a trie key keeps the keys below it, and
 stops at the root

---
 src/util/trie_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 7d45e5a..277dffd 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -611,9 +611,7 @@ func (t *Trie) Set(k IKey, d IValue) IValue {
 	t.estBufSize += estimateValueBufSize(d) - estimateValueBufSize(resultValue)
 	// if d is nil, clean up unused nodes
 	if d == nil {
-		currNode.Parent().RemoveChild(currNode.NodeKey())
-		t.estBufSize -= currNode.EstBufSize()
-		for currNode = currNode.Parent(); currNode.ChildSize() == 0 && currNode.Value() == nil; {
+		for currNode.Parent() != nil && currNode.ChildSize() == 0 && currNode.Value() == nil {
 			currNode.Parent().RemoveChild(currNode.NodeKey())
 			t.estBufSize -= currNode.EstBufSize()
 			currNode = currNode.Parent()
-- 
2.43.0


From ab7010208f3e6f1d581af4de88302677f193df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 36/58] fix: full key of the trie root is empty

---
 src/util/trie_util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 277dffd..8dea573 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -307,7 +307,8 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	}
 
 	subKeys := []([]byte){}
-	for currNode := tn; currNode != nil; currNode = currNode.parent.(*MappedTrieNode) {
+	// root has no sub key
+	for currNode := tn; !collection.IsNil(currNode.parent); currNode = currNode.parent.(*MappedTrieNode) {
 		subKeys = append([]([]byte){currNode.nodeKey}, subKeys...)
 	}
 
@@ -811,7 +812,8 @@ func (tn *TrieNode) FullKey() IKey {
 
 	subKeys := []([]byte){}
 	var currNode ITrieNode
-	for currNode = tn; currNode != nil; currNode = currNode.Parent() {
+	// root has no sub key
+	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() {
 		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
-- 
2.43.0


From 82f5dd98aa027d2a77755fe8b0eeb014fa776606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 37/58] fix: trie key iterator starts at the node of the given
 key

---
 src/util/trie_util.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 8dea573..33112b1 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -145,13 +145,14 @@ func (t *MappedTrie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if collection.IsNil(currNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -630,13 +631,14 @@ func (t *Trie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if collection.IsNil(currNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -1014,13 +1016,15 @@ func NewTrieKeyIterator(root, curr ITrieNode) *TrieKeyIterator {
 	if collection.IsNil(curr) {
 		result.currNode = root
 	} else {
+		node := root
 		for _, subKey := range curr.FullKey().Key() {
-			child := root.GetChild(subKey)
+			child := node.GetChild(subKey)
 			if collection.IsNil(child) {
 				panic(fmt.Sprintf("NewTrieIterator - curr node [%s] is not a child of root [%s]",
 					root.FullKey().ToString(),
 					curr.FullKey().ToString()))
 			}
+			node = child
 		}
 		// we are here as curr is a descendent of root
 		result.currNode = curr
-- 
2.43.0


From 4219bec54416992c14bed75301e09f48240e94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:27 +0000
Subject: [PATCH 38/58] fix: trie key iterator HasNext is no longer inverted

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 33112b1..bb65d0f 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1078,7 +1078,7 @@ func (i *TrieKeyIterator) HasNext() bool {
 
 	i.advance()
 
-	return collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0)
+	return !(collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0))
 }
 
 func (i *TrieKeyIterator) Peek() (IKey, IValue) {
-- 
2.43.0


From e6d1711213bb44fcc5f5eb6574ad18b37c5c9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:51 +0000
Subject: [PATCH 39/58] fix: trie range iterator honours start and end keys

---
 src/util/trie_util.go | 230 +++++++-----------------------------------
 1 file changed, 35 insertions(+), 195 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index bb65d0f..8989c9f 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1135,25 +1135,21 @@ func (i *TrieKeyIterator) advance() {
 ////////////////////////////////////////////////////////////////////////////////
 
 type TrieRangeIterator struct {
+	start            IKey
+	end              IKey
 	rootNode         ITrieNode
 	isRoot           bool
-	startNodes       []ITrieNode
-	startChild       []byte
-	endNodes         []ITrieNode
-	endChild         []byte
 	paths            []collection.ISortedMapIterator
 	startInitialized bool
-	endMatches       []bool
 }
 
 func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 
 	result := &TrieRangeIterator{
-		startNodes:       make([]ITrieNode, 0),
-		endNodes:         make([]ITrieNode, 0),
+		start:            start,
+		end:              end,
 		paths:            make([]collection.ISortedMapIterator, 0),
 		startInitialized: false,
-		endMatches:       make([]bool, 0),
 	}
 
 	// check root validaty
@@ -1172,55 +1168,6 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 			end.ToString()))
 	}
 
-	// process start key
-	if collection.IsNil(start) {
-		result.startChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range start.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				// result.paths = append(result.paths,
-				//    currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil))
-				result.startNodes = append(result.startNodes, child)
-				currNode = child
-			} else {
-				result.startChild = subKey
-				break
-			}
-		}
-	}
-
-	// process end key
-	if collection.IsNil(end) {
-		result.endChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range end.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				result.endNodes = append(result.endNodes, child)
-				//if len(result.paths) < len(result.endNodes) {
-				result.endMatches = append(result.endMatches, false)
-				//} else if len(result.endMatches) != 0 && !result.endMatches[len(result.endMatches)-1] {
-				//	result.endMatches = append(result.endMatches, false)
-				//} else {
-				//	_, node := result.paths[len(result.endNodes)-1].Peek()
-				//	if collection.IsNil(node) ||
-				//		collection.CompareByteSlice(node.(ITrieNode).NodeKey(), child.NodeKey()) == 0 {
-				//		result.endMatches = append(result.endMatches, true)
-				//	} else {
-				//		result.endMatches = append(result.endMatches, false)
-				//	}
-				//}
-				currNode = child
-			} else {
-				result.endChild = subKey
-				break
-			}
-		}
-	}
-
 	return result
 }
 
@@ -1235,9 +1182,6 @@ func (i *TrieRangeIterator) Next() (IKey, IValue) {
 		if len(i.paths) != 0 {
 			panic(fmt.Sprintf("TrieRangeIterator::Next - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
 		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
 
 		returnNode := i.rootNode
 		if returnNode.ChildSize() != 0 {
@@ -1245,9 +1189,9 @@ func (i *TrieRangeIterator) Next() (IKey, IValue) {
 			// create child iterator and add to paths
 			iter := i.rootNode.Children().Iterator()
 			i.paths = append(i.paths, iter)
-			i.isRoot = false
 
 		}
+		i.isRoot = false
 
 		i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
 		return returnNode.FullKey(), returnNode.Value()
@@ -1296,9 +1240,6 @@ func (i *TrieRangeIterator) Peek() (IKey, IValue) {
 		if len(i.paths) != 0 {
 			panic(fmt.Sprintf("TrieRangeIterator::Peek - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
 		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
 
 		returnNode := i.rootNode
 		return returnNode.FullKey(), returnNode.Value()
@@ -1327,156 +1268,55 @@ func (i *TrieRangeIterator) checkStart() {
 		return
 	}
 
-	if len(i.startNodes) == 0 {
-
-		if collection.IsNil(i.startChild) {
-			i.startInitialized = true
-			return
-		}
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startChild), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
-
-	} else {
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startNodes[0].NodeKey()), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
-	}
-
 	i.startInitialized = true
-	for len(i.paths) != 0 && len(i.startNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		_, node := lastIter.Peek()
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.startNodes[len(i.paths)-1].NodeKey())
-		if comp < 0 {
-
-			panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected node [%v], less than but not matching start key [%v]",
-				node.(ITrieNode).FullKey().ToString(),
-				i.startNodes[len(i.paths)-1].FullKey().ToString()))
-
-		} else if comp == 0 {
-
-			if len(i.startNodes) < len(i.paths) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected paths len [%d], greater than start nodes [%d]",
-					len(i.paths),
-					len(i.startNodes)))
 
-			} else if len(i.startNodes) == len(i.paths) {
-
-				if collection.IsNil(i.startChild) {
-					return // iterate this node, as it matches start key, and there are no child key
-				} else {
-					_, node = lastIter.Next() // bypass this node, as it matches start key, and child key exist
-					childIter := node.(ITrieNode).Children().RangeIterator(
-						collection.NewComparableByteSlice(i.startChild),
-						nil)
-					i.paths = append(i.paths, childIter)
-					return
-				}
-
-			} else {
-
-				_, node = lastIter.Next() // bypass this node, as it matches start key, and child node(s) exist
-				childIter := node.(ITrieNode).Children().RangeIterator(
-					collection.NewComparableByteSlice(i.startNodes[len(i.paths)-1].NodeKey()),
-					nil)
-				i.paths = append(i.paths, childIter)
-				// continue loop
-
-			}
+	// iterate from root if there is no start key
+	if collection.IsNil(i.start) || i.start.IsEmpty() {
+		return
+	}
 
-		} else { // comp > 0
+	i.isRoot = false
+	currNode := i.rootNode
+	for idx, subKey := range i.start.Key() {
 
-			return
+		// children not less than the sub key
+		iter := currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil)
+		i.paths = append(i.paths, iter)
 
+		child := currNode.GetChild(subKey)
+		if collection.IsNil(child) || idx == len(i.start.Key())-1 {
+			return // start key is not present, or is the next node
 		}
+
+		iter.Next() // bypass this node, it is a prefix of, and less than start key
+		currNode = child
 	}
 }
 
 func (i *TrieRangeIterator) checkEnd() {
 
-	if len(i.endNodes) != len(i.endMatches) {
-		panic(fmt.Sprintf("TrieRangeIterator::checkEnd - endNodes len [%d] does not match endMatches [%d]",
-			len(i.endNodes),
-			len(i.endMatches)))
+	// destack if no more element left
+	for len(i.paths) != 0 && !i.paths[len(i.paths)-1].HasNext() {
+		i.paths = i.paths[:len(i.paths)-1]
 	}
 
-	if len(i.endNodes) == 0 {
+	if collection.IsNil(i.end) {
 		return
 	}
 
+	var node ITrieNode
 	if i.isRoot {
-		//panic("TrieRangeIterator::checkEnd - isRoot set!")
+		node = i.rootNode
+	} else if len(i.paths) != 0 {
+		_, data := i.paths[len(i.paths)-1].Peek()
+		node = data.(ITrieNode)
+	} else {
 		return
 	}
 
-	for len(i.paths) != 0 && len(i.endNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if !lastIter.HasNext() {
-			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
-			continue                           // continue to next loop
-		}
-
-		if len(i.paths) != 1 && !i.endMatches[len(i.paths)-2] {
-			return // iterate this node, as some of previous end node(s) does not match
-		}
-
-		// we are here if all previous end node(s) match(es)
-		_, node := i.paths[len(i.paths)-1].Peek()
-		if collection.IsNil(node) {
-			panic("TrieRangeIterator::checkEnd - unexpected nil node from iterator")
-		}
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.endNodes[len(i.paths)-1].NodeKey())
-		if comp > 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			i.paths = i.paths[:len(i.paths)-1]
-			continue // next loop
-
-		} else if comp == 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			if len(i.paths) > len(i.endNodes) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkEnd - unexpected paths len [%d], greater than end nodes [%d]",
-					len(i.paths),
-					len(i.endNodes)))
-
-			} else if len(i.paths) == len(i.endNodes) {
-
-				if collection.IsNil(i.endChild) {
-
-					i.paths = i.paths[:len(i.paths)-1] // bypass this node, this node matches full end key, (no child)
-					continue                           // next loop
-
-				} else {
-
-					return // iterate this node, this node does not match full end key, child exist
-				}
-
-			} else { // len(i.paths) < len(i.endNodes)
-
-				return // iterate this node, this node does not match ffull end key, child exist
-			}
-
-		} else { // comp < 0
-
-			i.endMatches[len(i.paths)-1] = false // iterate this node, as more element exists
-			return                               // just return
-		}
-
+	// no more left if next node is not less than end key
+	if node.FullKey().Compare(i.end) >= 0 {
+		i.isRoot = false
+		i.paths = nil
 	}
 }
-- 
2.43.0


From 727ca102245a25a8aa5ffbe6ca81b9e5ff79a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 40/58] fix: copies of a key do not share the bytes of the
 copied key

---
 src/util/key_util.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index f0f8feb..f7ba814 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -251,7 +251,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	// make a deep copy of the buf
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
@@ -264,7 +267,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...)) // make a deep copy of the sub key
 	}
 
 	return result, nil
@@ -451,7 +454,7 @@ func (k *Key) Copy() IEncodable {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...)) // make a deep copy of the sub key
 	}
 
 	return result
@@ -462,7 +465,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.Add(append([]byte{}, key...)) // make a deep copy of the sub key
 	}
 
 	return result, nil
-- 
2.43.0


From 8a3f9189ae6262eb2b0a6d498fdff8cb04ce8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 41/58] fix: log file stays in use when it is selected again

---
 src/util/lc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 2799271..9e7ced3 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -86,7 +86,7 @@ func LCSetLoggerFileTmp() error {
 		}
 		log_file = file
 	}
-	log.SetOutput(file)
+	log.SetOutput(log_file)
 	log.SetFlags(log.Lshortfile | log.Ldate | log.Ltime | log.Lmicroseconds)
 	return nil
 }
-- 
2.43.0


From 4c989d14f36018a83eb04055e43ca725dfa2e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:41 +0000
Subject: [PATCH 42/58] fix: copies of a scheme do not share the bytes of the
 copied scheme

---
 src/util/scheme_util.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 6191dfe..de31822 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -223,16 +223,18 @@ func (s *MappedScheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -403,16 +405,18 @@ func (s *Scheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 7d0b72dac4331e6a585417cc69231dd150759a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:32 +0000
Subject: [PATCH 43/58] fix: hash of an empty key depends on the hash function,
 MPH build does not loop

---
 src/util/key_util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index f7ba814..98d67a5 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -118,8 +118,7 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	return hashValue
+	return f([]byte{})
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
@@ -328,6 +327,9 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 }
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // hash of empty key depends on f as well
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*31 + f(key)
@@ -472,6 +474,9 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // hash of empty key depends on f as well
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*31 + f(key)
-- 
2.43.0


From 603b724926d264c6f6fc9cd6713d5c95727c77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:19 +0000
Subject: [PATCH 44/58] fix: record with a key whose sub key count is not in
 its shortest form is decoded from the wrong position

---
 src/util/record_util.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 09b4405..d601257 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -170,11 +170,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
-	} else if hasKey != 0 && len(key.Buf()) > MAX_KEY_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
+	} else if hasKey != 0 && length < 1 {
+		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no key, %d, %x", len(r.buf), r.buf)
+	} else if hasKey != 0 && length > MAX_KEY_LENGTH {
+		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", length, MAX_KEY_LENGTH)
 	} else if hasKey != 0 {
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length // length as decoded, an empty key can take more than 1 byte
 	}
 
 	// value
-- 
2.43.0


From 720056f0047636bc3607a8ce1e11b9a4e678884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:56 +0000
Subject: [PATCH 45/58] fix: keys of equal sub keys had hashes with equal low
 bits under every hash function, MPH build looped

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 98d67a5..6c8fd4f 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -332,7 +332,7 @@ func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue = hashValue*31 + f(key)
+		hashValue = (hashValue^hashValue>>15)*0x85ebca6b + f(key) // low bits depend on all bits of prior sub keys
 	}
 	return hashValue
 }
@@ -479,7 +479,7 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue = hashValue*31 + f(key)
+		hashValue = (hashValue^hashValue>>15)*0x85ebca6b + f(key) // low bits depend on all bits of prior sub keys
 	}
 	return hashValue
 }
-- 
2.43.0


From 6869aea5e084a0062a6e938cd8164662f3d5985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 46/58] fix: an encoded trie can be decoded, encoding a trie no
 longer panics

---
 src/util/trie_util.go | 124 ++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 59 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 8989c9f..4a2534e 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -209,18 +209,20 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 		}
 		pos += length
 		if node.dummy {
+			if currNode.ChildSize() != currNode.childSize {
+				return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] child size [%d] does not match [%d]", pos, currNode.ChildSize(), currNode.childSize)
+			}
 			if currNode == t.root {
 				break // we have completed processing
 			} else {
 				currNode = currNode.parent.(*MappedTrieNode) // go back to the parent
 			}
-		} else {
+		} else if node.childSize != 0 {
 			currNode = node // traverse down to child node
 		}
 	}
 
-	// TODO - use size for validation
-
+	t.buf = t.buf[:pos]
 	t.decoded = true
 
 	return pos, nil
@@ -431,6 +433,8 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	isDummy, isDummyN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - dummy - %s", err)
+	} else if isDummyN == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing node")
 	}
 	if isDummy == 0 {
 		tn.dummy = true
@@ -443,8 +447,8 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	nodeKey, nodeKeyN, err := DecodeVarchar(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - nodeKey - %s", err)
-	} else if nodeKey == nil || len(nodeKey) == 0 {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - empty nodeKey")
+	} else if nodeKeyN == 0 || (len(nodeKey) == 0) != collection.IsNil(tn.parent) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - invalid nodeKey [%x]", nodeKey) // only root has an empty node key
 	}
 	tn.nodeKey = nodeKey
 	pos += nodeKeyN
@@ -453,34 +457,45 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	parentOffset, parentN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - parent offset - %s", err)
+	} else if parentN == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing parent offset")
 	}
-	parent := tn.known_nodes[uint32(parentOffset)]
-	if parent == nil {
+	if collection.IsNil(tn.parent) {
+		if parentOffset != 0 {
+			return 0, fmt.Errorf("MappedTrieNode::Decode - root with parent node [%d]", parentOffset)
+		}
+	} else if parentOffset != uint64(tn.parent.Offset()) {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - parent node not found [%d]", parentOffset)
-	} else {
-		tn.parent = parent
-		pos += parentN
 	}
+	pos += parentN
 
 	// data
-	nodeValue, nodeValueN, err := NewSimpleMappedValue(tn.buf[pos:])
+	nodeValue, nodeValueN, err := NewStandardMappedValue(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - data - %s", err)
 	}
-	tn.nodeValue = nodeValue
+	if !nodeValue.IsNil() {
+		tn.nodeValue = nodeValue
+	}
 	pos += nodeValueN
 
 	// child size
-	childSize, childSizeN, err := DecodeUvarint64(tn.buf)
+	childSize, childSizeN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - child size - %s", err)
+	} else if childSizeN == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - missing child size")
 	}
 	tn.childSize = int(childSize)
 	pos += childSizeN
 
 	// we are here if parsing has completed successfully
-	parent.(*MappedTrieNode).children.Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
-	tn.known_nodes[tn.offset] = tn                                                        // update known nodes
+	tn.children = collection.NewSortedMap()
+	tn.decoded = true
+	if !collection.IsNil(tn.parent) {
+		tn.parent.Children().Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
+	}
+	tn.known_nodes[tn.offset] = tn // update known nodes
 
 	return pos, nil
 }
@@ -584,6 +599,8 @@ func (t *Trie) Get(k IKey) IValue {
 
 func (t *Trie) Set(k IKey, d IValue) IValue {
 
+	t.encoded = false
+
 	// set root data is key is nil
 	if k.IsEmpty() {
 		resultValue := t.root.Value()
@@ -672,53 +689,41 @@ func (t *Trie) IsEncoded() bool {
 
 func (t *Trie) Encode(ctx IContext) error {
 
-	buf := make([]byte, t.EstBufSize())
-	pos := 0
+	buf := make([]byte, 0, t.EstBufSize())
 
 	// encode root node
-	t.root.SetOffset(uint32(pos))
-	t.root.Encode(ctx)
-	if len(buf) > pos+len(t.root.Buf()) {
-		copy(buf[pos:], t.root.Buf())
-	} else {
-		buf = append(buf[:pos], t.root.Buf()...)
+	t.root.SetOffset(0)
+	if err := t.root.Encode(ctx); err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
 	}
-	pos += len(t.root.Buf())
+	buf = append(buf, t.root.Buf()...)
 
 	// encode children
 	iterList := []collection.ISortedMapIterator{t.root.Children().Iterator()}
-	for lastIter := iterList[len(iterList)-1]; len(iterList) != 0; {
+	for len(iterList) != 0 {
+		lastIter := iterList[len(iterList)-1]
 		if lastIter.HasNext() {
 
 			// get next node, and encode
 			_, data := lastIter.Next()
 			node := data.(*TrieNode)
-			node.SetOffset(uint32(pos))
-			node.Encode(ctx)
+			node.SetOffset(uint32(len(buf)))
+			if err := node.Encode(ctx); err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
+			}
 
 			// encode node
-			if len(buf) > pos+len(node.Buf()) {
-				copy(buf[pos:], node.Buf())
-			} else {
-				buf = append(buf[:pos], node.Buf()...)
-			}
-			pos += len(node.Buf())
+			buf = append(buf, node.Buf()...)
 
 			// check if children exist
 			if node.ChildSize() != 0 {
 				iterList = append(iterList, node.Children().Iterator())
-				lastIter = iterList[len(iterList)-1]
 			}
 
 		} else {
 
 			// encode dummy node
-			if len(buf) > pos+1 {
-				buf[pos] = byte(0x00)
-			} else {
-				buf = append(buf[:pos], byte(0x00))
-			}
-			pos += 1
+			buf = append(buf, 0x00)
 
 			// destack
 			iterList = iterList[:len(iterList)-1]
@@ -727,6 +732,7 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// we are here if encoding has completed successfully
 	t.buf = buf
+	t.encoded = true
 	return nil
 }
 
@@ -808,7 +814,7 @@ func NewTrieNode(parent ITrieNode, nodeKey []byte, data IValue) *TrieNode {
 	}
 }
 
-////////////////////////////////////////
+// //////////////////////////////////////
 // accessor to elements - parent, children, and keys
 func (tn *TrieNode) FullKey() IKey {
 
@@ -892,32 +898,32 @@ func (tn *TrieNode) IsEncoded() bool {
 
 func (tn *TrieNode) Encode(IContext) error {
 
+	// this is not a dummy node
+	buf := EncodeUvarint64(1)
+
 	// node key
-	nodeKeyBuf := EncodeVarchar(tn.nodeKey)
+	buf = append(buf, EncodeVarchar(tn.nodeKey)...)
 
 	// parent offset
-	parentOffsetBuf := EncodeUvarint64(uint64(tn.parent.Offset()))
+	parentOffset := uint64(0) // root has no parent
+	if !collection.IsNil(tn.parent) {
+		parentOffset = uint64(tn.parent.Offset())
+	}
+	buf = append(buf, EncodeUvarint64(parentOffset)...)
 
 	// data
-	err := tn.data.Encode(false)
-	if err != nil {
-		return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+	if collection.IsNil(tn.data) {
+		buf = append(buf, 0x00)
+	} else {
+		err := tn.data.Encode(nil)
+		if err != nil {
+			return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+		}
+		buf = append(buf, tn.data.Buf()...)
 	}
 
 	// child size
-	childSizeBuf := EncodeUvarint64(uint64(tn.children.Size()))
-
-	tn.buf = make([]byte, len(nodeKeyBuf)+len(parentOffsetBuf)+len(tn.data.Buf())+len(childSizeBuf))
-
-	pos := 0
-	copy(tn.buf[pos:], nodeKeyBuf)
-	pos += len(nodeKeyBuf)
-	copy(tn.buf[pos:], parentOffsetBuf)
-	pos += len(parentOffsetBuf)
-	copy(tn.buf[pos:], tn.data.Buf())
-	pos += len(tn.data.Buf())
-	copy(tn.buf[pos:], childSizeBuf)
-	pos += len(childSizeBuf)
+	tn.buf = append(buf, EncodeUvarint64(uint64(tn.children.Size()))...)
 
 	tn.encoded = true
 	return nil
-- 
2.43.0


From 3d0b506ae8ca45d4c1f485f3d598b7f2b6485815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 47/58] fix: a mapped trie without root is rejected

---
 src/util/trie_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 4a2534e..316f511 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -201,6 +201,9 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 	}
 
 	currNode := (t.root).(*MappedTrieNode)
+	if currNode.dummy {
+		return 0, fmt.Errorf("MappedTrie::Decode - missing root")
+	}
 	for {
 		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), known_nodes: t.known_nodes}
 		length, err := node.Decode(nil)
-- 
2.43.0


From 335528dea5c8eed83e32ff641c69dd66beefc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 48/58] fix: prompted passphrases of other lengths than an AES
 key can save and load keys, including those of pkeygen

---
 src/util/lc_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 9e7ced3..f0b1907 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -138,7 +138,7 @@ func LCLoadPrivKeyPrompt(cls int, id string) (*ecdsa.PrivateKey, error) {
 	}
 
 	// do not keep private key in fixed memory variables
-	return lc_load_priv_key(cls, id, secret)
+	return lc_load_priv_key(cls, id, lc_pad_secret(secret))
 }
 
 // ECDSA pub / priv keys for node
@@ -153,12 +153,19 @@ func LCSaveKeyPairPrompt(cls int, id string, pub_key, priv_key *big.Int) error {
 		return err
 	}
 
-	return lc_save_key_pair(cls, id, pub_key, priv_key, node_secret)
+	return lc_save_key_pair(cls, id, pub_key, priv_key, lc_pad_secret(node_secret))
 }
 
 ////////////////////////////////////////////////////////////////////////////////
 // Private Functions
 
+// a passphrase is padded (or cut) to one block to be an AES key, as pkeygen does
+func lc_pad_secret(passphrase []byte) []byte {
+	secret := make([]byte, aes.BlockSize)
+	copy(secret, passphrase)
+	return secret
+}
+
 func lc_get_etc_dir(cls int) string {
 	switch cls {
 	case CLS_NODE:
-- 
2.43.0


From 0d27fed79ae061d0123678f0b4138afbb59a9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 49/58] fix: pkeygen replaces an alias whose key is gone, and
 asks before

---
 src/main/pkeygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..f906598 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -12,7 +12,7 @@ import (
 )
 
 func check_path_exist(filepath string) bool {
-    _, stat_err := os.Stat(filepath)
+    _, stat_err := os.Lstat(filepath)
     if os.IsNotExist(stat_err) {
         return false
     } else {
-- 
2.43.0


From ae362db8965b35205e777040db6bdc2214fec171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 50/58] fix: a failed element access of a decoded value is not
 visible to other readers as a nil element

---
 src/util/value_util.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 587a966..4c810b6 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,18 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			value, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
-				d.data_array[i] = nil // no typed nil, next ValueAt reports the error again
-				return nil, err
+				return nil, err // nothing stored, next ValueAt reports the error again
 			}
+			d.data_array[i] = value
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -318,18 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			record, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
-				d.record_list[i] = nil // no typed nil, next RecordAt reports the error again
-				return nil, err
+				return nil, err // nothing stored, next RecordAt reports the error again
 			}
+			d.record_list[i] = record
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From aaee979dc9453eb04ca3c392ef4eb818fee85b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 51/58] fix: copying a trie gives its current content, whether
 it is encoded or not

---
 src/util/trie_util.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 316f511..78ef92d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -752,18 +752,31 @@ func (t *Trie) Decode(IContext) (int, error) {
 
 func (t *Trie) Copy() IEncodable {
 
-	buf := make([]byte, len(t.buf))
-	copy(buf, t.buf)
-	result, _, err := NewMappedTrie(buf)
+	result, err := t.CopyConstruct()
 	if err != nil {
-		panic(fmt.Sprintf("MappedTrie::Copy - unexpected error %s", err))
+		panic(fmt.Sprintf("Trie::Copy - unexpected error %s", err))
 	}
 
 	return result
 }
 
 func (t *Trie) CopyConstruct() (IEncodable, error) {
-	return t.Copy(), nil
+
+	// the copy is made from the encoding, make sure it has the current content
+	if !t.encoded {
+		if err := t.Encode(nil); err != nil {
+			return nil, fmt.Errorf("Trie::CopyConstruct - %s", err)
+		}
+	}
+
+	buf := make([]byte, len(t.buf))
+	copy(buf, t.buf)
+	result, _, err := NewMappedTrie(buf)
+	if err != nil {
+		return nil, fmt.Errorf("Trie::CopyConstruct - %s", err)
+	}
+
+	return result, nil
 }
 
 ////////////////////////////////////////
-- 
2.43.0


From 3c730c0aad3d31a638cbad633cbf8a58c6e82c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 52/58] fix: a copy of an encoded trie shows changes made
 inside stored values since it was encoded

---
 src/util/trie_util.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 78ef92d..fda6f4c 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -762,11 +762,9 @@ func (t *Trie) Copy() IEncodable {
 
 func (t *Trie) CopyConstruct() (IEncodable, error) {
 
-	// the copy is made from the encoding, make sure it has the current content
-	if !t.encoded {
-		if err := t.Encode(nil); err != nil {
-			return nil, fmt.Errorf("Trie::CopyConstruct - %s", err)
-		}
+	// the copy is made from the encoding, make sure it has the current content, stored values included
+	if err := t.Encode(nil); err != nil {
+		return nil, fmt.Errorf("Trie::CopyConstruct - %s", err)
 	}
 
 	buf := make([]byte, len(t.buf))
-- 
2.43.0


From 8c844a11fe25873ab80835f255994f432bbfe954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:54 +0000
Subject: [PATCH 53/58] fix: a malformed trie node is refused with an error

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index fda6f4c..51e5f31 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -297,7 +297,7 @@ func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32, known_nodes
 
 	length, err := result.Decode(nil)
 	if err != nil {
-		fmt.Errorf("NewMappedTrieNode - %s", err)
+		return nil, length, fmt.Errorf("NewMappedTrieNode - %s", err)
 	}
 
 	return result, length, nil
-- 
2.43.0


From 7c772ca579d1598d5b6d5c298ceff109c6265059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:58 +0000
Subject: [PATCH 54/58] fix: a decoded trie node can be copied, its buf is its
 own encoding

---
 src/util/trie_util.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 51e5f31..870327e 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -430,6 +430,23 @@ func (tn *MappedTrieNode) IsDecoded() bool {
 
 func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 
+	pos, err := tn.decodeNode()
+	if err != nil || tn.dummy {
+		return pos, err
+	}
+
+	// we are here if parsing has completed successfully
+	if !collection.IsNil(tn.parent) {
+		tn.parent.Children().Put(collection.NewComparableByteSlice(tn.nodeKey), tn) // update pointer in parent
+	}
+	tn.known_nodes[tn.offset] = tn // update known nodes
+
+	return pos, nil
+}
+
+// decode the node itself, without adding it to parent and known nodes
+func (tn *MappedTrieNode) decodeNode() (int, error) {
+
 	pos := 0
 
 	// check if this is a dummy Trie Node
@@ -440,6 +457,7 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - missing node")
 	}
 	if isDummy == 0 {
+		tn.buf = tn.buf[:isDummyN]
 		tn.dummy = true
 		tn.decoded = true
 		return isDummyN, nil
@@ -492,13 +510,9 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	tn.childSize = int(childSize)
 	pos += childSizeN
 
-	// we are here if parsing has completed successfully
+	tn.buf = tn.buf[:pos]
 	tn.children = collection.NewSortedMap()
 	tn.decoded = true
-	if !collection.IsNil(tn.parent) {
-		tn.parent.Children().Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
-	}
-	tn.known_nodes[tn.offset] = tn // update known nodes
 
 	return pos, nil
 }
@@ -519,12 +533,23 @@ func (tn *MappedTrieNode) Copy() IEncodable {
 	buf := make([]byte, len(tn.buf))
 	copy(buf, tn.buf)
 
-	result := &MappedTrieNode{buf: buf, offset: tn.offset, known_nodes: tn.known_nodes}
-	_, err := result.Decode(nil)
+	// the copy has the same parent, the original node remains the child of it
+	result := &MappedTrieNode{parent: tn.parent, buf: buf, offset: tn.offset, known_nodes: tn.known_nodes}
+	_, err := result.decodeNode()
 	if err != nil {
 		panic(fmt.Sprintf("MappedTrieNode::Copy - unexpected error %s", err))
 	}
 
+	// copy children
+	if tn.children != nil && tn.children.Size() != 0 {
+		for iter := tn.children.Iterator(); iter.HasNext(); {
+			_, value := iter.Next()
+			child := value.(ITrieNode).Copy().(*MappedTrieNode)
+			child.parent = result
+			result.children.Put(collection.NewComparableByteSlice(child.nodeKey), child)
+		}
+	}
+
 	return result
 }
 
-- 
2.43.0


From 8817466652118b8d1a82013bde65f5670380a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 55/58] fix: a copy of a trie node is independent of the
 original

---
 src/util/trie_util.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 870327e..eaf3765 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -990,13 +990,16 @@ func (tn *TrieNode) SetOffset(offset uint32) error {
 
 func (tn *TrieNode) Copy() IEncodable {
 
-	buf := make([]byte, len(tn.buf))
-	copy(buf, tn.buf)
-
-	result := NewTrieNode(tn.parent, tn.nodeKey, tn.data)
+	// make a deep copy of node key, data and children
+	result := NewTrieNode(tn.parent, append([]byte{}, tn.nodeKey...), nil)
+	if !collection.IsNil(tn.data) {
+		result.data = tn.data.Copy().(IValue)
+	}
 	for iter := tn.Children().Iterator(); iter.HasNext(); {
-		key, value := iter.Next()
-		result.Children().Put(key, value)
+		_, value := iter.Next()
+		child := value.(ITrieNode).Copy().(*TrieNode)
+		child.parent = result
+		result.PutChild(child.nodeKey, child)
 	}
 
 	return result
-- 
2.43.0


From a0e2ad8a26f29921cedb5c848a0e8ce0d16d2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 56/58] fix: a changed trie node is no longer encoded

---
 src/util/trie_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index eaf3765..90793d5 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -898,11 +898,13 @@ func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
+	tn.encoded = false
 	tn.children.Put(collection.NewComparableByteSlice(nodeKey), n)
 	return nil
 }
 
 func (tn *TrieNode) RemoveChild(nodeKey []byte) error {
+	tn.encoded = false
 	tn.children.Remove(collection.NewComparableByteSlice(nodeKey))
 	return nil
 }
@@ -912,6 +914,7 @@ func (tn *TrieNode) Value() IValue {
 }
 
 func (tn *TrieNode) SetValue(data IValue) error {
+	tn.encoded = false
 	tn.data = data
 	return nil
 }
-- 
2.43.0


From a61c511ff13d9ea156d694b31e41fce4f4baa2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:11 +0000
Subject: [PATCH 57/58] fix: keys are printed with their indent and described
 in one line

---
 src/util/key_util.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 6c8fd4f..41b59a0 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -122,7 +122,7 @@ func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "EmptyKey")
+	fmt.Fprintf(w, "%*sEmptyKey\n", indent, "")
 }
 
 func (k *EmptyKey) ToString() string {
@@ -338,23 +338,23 @@ func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *MappedKey) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "MappedKey:\n")
+	fmt.Fprintf(w, "%*sMappedKey:\n", indent, "")
 	if k.decoded {
 		for i, subKey := range k.keys {
-			fmt.Fprintf(w, "    subKey[%d] = %v\n", i, subKey)
+			fmt.Fprintf(w, "%*s    subKey[%d] = %v\n", indent, "", i, subKey)
 		}
 	}
-	fmt.Fprintf(w, "    buf = %v\n", k.buf[:collection.MinInt(len(k.buf), 32)])
+	fmt.Fprintf(w, "%*s    buf = %v\n", indent, "", k.buf[:collection.MinInt(len(k.buf), 32)])
 }
 
 func (k *MappedKey) ToString() string {
 	str := fmt.Sprintf("MappedKey")
 	if k.decoded {
 		for i, subKey := range k.keys {
-			str += fmt.Sprintf("\n    subKey[%d] = %v", i, subKey)
+			str += fmt.Sprintf(", subKey[%d] = %v", i, subKey)
 		}
 	}
-	str += fmt.Sprintf("\n    buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
+	str += fmt.Sprintf(", buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
 	return str
 }
 
@@ -539,11 +539,11 @@ func (k *Key) Compare(c collection.IComparable) int {
 }
 
 func (k *Key) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "Key:\n")
+	fmt.Fprintf(w, "%*sKey:\n", indent, "")
 	for i, subKey := range k.keys {
-		fmt.Fprintf(w, "    subKey[%d] = %v\n", i, subKey)
+		fmt.Fprintf(w, "%*s    subKey[%d] = %v\n", indent, "", i, subKey)
 	}
-	fmt.Fprintf(w, "    buf = %v\n", k.buf[:collection.MinInt(len(k.buf), 32)])
+	fmt.Fprintf(w, "%*s    buf = %v\n", indent, "", k.buf[:collection.MinInt(len(k.buf), 32)])
 
 }
 
@@ -552,9 +552,9 @@ func (k *Key) ToString() string {
 	str := fmt.Sprintf("Key")
 
 	for i, subKey := range k.keys {
-		str += fmt.Sprintf("\n    subKey[%d] = %v", i, subKey)
+		str += fmt.Sprintf(", subKey[%d] = %v", i, subKey)
 	}
-	str += fmt.Sprintf("\n    buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
+	str += fmt.Sprintf(", buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
 
 	return str
 }
-- 
2.43.0


From 146f1589f9f333953225a6f6e04c022194cda6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 58/58] fix: tries are printed with their indent, one node per
 line

---
 src/util/trie_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 90793d5..67f918d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -254,7 +254,7 @@ func (t *MappedTrie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *MappedTrie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
@@ -561,7 +561,7 @@ func (tn *MappedTrieNode) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (tn *MappedTrieNode) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s", "", tn.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", tn.ToString())
 	for iter := tn.children.Iterator(); iter.HasNext(); {
 		_, v := iter.Next()
 		v.(ITrieNode).Print(w, indent+4)
@@ -806,7 +806,7 @@ func (t *Trie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *Trie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
@@ -1016,7 +1016,7 @@ func (tn *TrieNode) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (tn *TrieNode) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s", "", tn.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", tn.ToString())
 	for iter := tn.children.Iterator(); iter.HasNext(); {
 		_, v := iter.Next()
 		v.(ITrieNode).Print(w, indent+4)
-- 
2.43.0

