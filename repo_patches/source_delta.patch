From 590e93a8ef5b885422343465a8b41ccb8ead66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 1/8] fix: search reads the first key of the range from the
 right leaf

When the lower bound lies after the last record of a leaf, search moves on
to the next leaf but went on reading the key from the former one: ranges
came out empty, too long or endless.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..deb92d2 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From 8c0c8b83da567b8f1fa859687d33359e4df92dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 2/8] fix: search for a single absent key finds nothing

With minKey equal to maxKey and no such key, search returned the next
greater record.
---
 bptree/bptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index deb92d2..4ccbf12 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -759,6 +759,10 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	minLeafAddr, minLeafController, minRecordIndex := bpt.locateRecord(minRecordPath)
 
 	if !ok3 {
+		if d == 0 {
+			return 0, 0, 0, 0, false
+		}
+
 		if minRecordIndex == minLeafController.NumberOfRecords() {
 			if minLeafAddr == bpt.leafList.TailAddr() {
 				return 0, 0, 0, 0, false
-- 
2.43.0


From 090e9791d05759d145c1e6b7612a5da83666a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 3/8] fix: count of records to shift judges the loads it leaves
 behind

The loads compared with the thresholds after the loop included the record
that did not fit, so a shift could leave a leaf overloaded (a later insert
then overflows the page) or underloaded.
---
 bptree/leaf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..412cbe5 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -202,13 +202,13 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 
 	for i := 0; ; i++ {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
@@ -236,13 +236,13 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 
 	for i := lc.NumberOfRecords() - 1; ; i-- {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
-- 
2.43.0


From 8c8e4cde91e90c72e6928b5a5d178aa812e3f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 4/8] fix: count of children to shift accounts for the
 separator keys

Shifting children moves the parent's separator down into the sibling and a
child's key up in its place; neither was counted, so a shift could leave a
non-leaf overloaded (a later insert then overflows the page) or underloaded.
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 59 +++++++++++++++++++++++++++--------------------
 2 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 4ccbf12..eb72e69 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..5339578 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,25 +202,31 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	// the separator goes down to the left sibling and the key of the child
+	// which becomes the first one goes up as the new separator
+	separatorSize := len(parent.GetKey(index))
 	childCount := 0
 
-	for i := 1; ; i++ {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := 1; i < nlc.NumberOfChildren(); i++ {
+		keySize := len(nlc.GetKey(i))
+		childSize1 := nonLeafChildHeaderSize + keySize
+		childSize2 := nonLeafChildHeaderSize + separatorSize
+
+		if loadSize1-childSize1 < nonLeafUnderloadThreshold || loadSize2+childSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= childSize1
+		loadSize2 += childSize2
+		separatorSize = keySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,28 +244,31 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	// the separator goes down to the right sibling and the key of the last
+	// child shifted goes up as the new separator
+	separatorSize := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := nlc.NumberOfChildren() - 1; i >= 1; i-- {
+		keySize := len(nlc.GetKey(i))
+		childSize1 := nonLeafChildHeaderSize + keySize
+		childSize2 := nonLeafChildHeaderSize + separatorSize
+
+		if loadSize1-childSize1 < nonLeafUnderloadThreshold || loadSize2+childSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= childSize1
+		loadSize2 += childSize2
+		separatorSize = keySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +286,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From b10d71a285407a529282cec0082eebfb86f52dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 5/8] fix: do not take a leaf for a non-leaf after the root is
 removed

When fixing the underload of a non-leaf removes the root, the record path
gets shorter and the following overload check looked at a leaf as if it was
a non-leaf: with a leaf list address of 4 GiB or more the check goes wrong.
---
 bptree/bptree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index eb72e69..af8fa2b 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -464,6 +464,11 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 }
 
 func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
+	if i == len(*recordPath)-1 {
+		// the root has been removed and the i-th node is now a leaf
+		return
+	}
+
 	nonLeafAddr := (*recordPath)[i].NodeAddr
 	nonLeafController1 := bpt.getNonLeafController(nonLeafAddr)
 
-- 
2.43.0


From 381a1443f1c1050776c78c56a2427e487881458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 6/8] fix: a fetched key does not share its spare capacity with
 the next items

---
 hashmap/hashmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..b11f772 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -616,9 +616,9 @@ func unpackSlot(slot *protocol.HashSlot) []hashItem {
 		itemInfo := &slot.ItemInfos[j]
 		item := &items[j]
 		item.KeySum = itemInfo.KeySum
-		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]
+		item.Key = slot.Bin[i : i+int(itemInfo.KeySize) : i+int(itemInfo.KeySize)]
 		i += int(itemInfo.KeySize)
-		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
+		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize) : i+int(itemInfo.ValueSize)]
 		i += int(itemInfo.ValueSize)
 	}
 
-- 
2.43.0


From 83b4f634b7675811a2046aac4ef89c5f060ba1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 7/8] fix: a partial read at a huge offset does not overflow

---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..54a6148 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if dataOffset <= keyPrefixSize-len(buffer) {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..eff82b9 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if dataOffset <= valuePrefixSize-len(buffer) {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0


From 2b9e4cd300dd375b6b7637c4bfbce472ae773232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 8/8] fix: a new hash map does not write through a buffer the
 second allocation may have moved

---
 hashmap/hashmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index b11f772..194340e 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,10 +34,10 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
-	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
-	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
-	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirAddr, buffer := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	binary.BigEndian.PutUint64(buffer, ^uint64(0))
+	binary.BigEndian.PutUint64(hm.fileStorage.AccessSpace(slotDirsAddr), uint64(slotDirAddr))
 	hm.slotDirsAddr = slotDirsAddr
 	hm.maxSlotDirCountShift = minMaxSlotDirCountShift
 	hm.slotDirCount = 1
-- 
2.43.0

