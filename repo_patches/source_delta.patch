From 741e1a809ff977852aa076695a093cb7e0256def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/53] fix: hash every element of an int32 slice

HashInt32SliceMurmur3 skipped every second element and sign-extended
negative ones, so {1,2} and {1,3} were the same item for CPC sketches.
---
 internal/murmur3.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..d68498f 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := getUint64FromInt32s(key, offsetInts+(i<<2), 2)   //offsetInts + 0, 4, 8, ...
+		k2 := getUint64FromInt32s(key, offsetInts+(i<<2)+2, 2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,11 +84,11 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
-		k2 = uint64(key[offsetInts+tail+2])
+		k1 = getUint64FromInt32s(key, offsetInts+tail, 2) //k1 -> whole; k2 -> partial
+		k2 = getUint64FromInt32s(key, offsetInts+tail+2, rem-2)
 	} else {
 		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
+			k1 = getUint64FromInt32s(key, offsetInts+tail, rem) //k1 -> whole(2), partial(1) or 0; k2 == 0
 		}
 	}
 
@@ -157,6 +157,15 @@ func HashByteArrMurmur3(key []byte, offsetBytes int, lengthBytes int, seed uint6
 	return hashState.finalMix128(k1, k2, uint64(lengthBytes))
 }
 
+// getUint64FromInt32s packs rem (1 or 2) ints, little-endian, into a uint64.
+func getUint64FromInt32s(iArr []int32, index int, rem int) uint64 {
+	var out uint64
+	for i := rem - 1; i >= 0; i-- { //i= 1,0
+		out ^= uint64(uint32(iArr[index+i])) << uint(i*32) //equivalent to |=
+	}
+	return out
+}
+
 func getUint64(bArr []byte, index int, rem int) uint64 {
 	var out uint64
 	for i := rem - 1; i >= 0; i-- { //i= 7,6,5,4,3,2,1,0
-- 
2.43.0


From 6b976d4b77c9c20b94242ac61ce2166e67bb909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 02/53] fix: tuple set operations must not share summaries with
 inputs and results

---
 tuple/arrayofnumbers_intersection.go |  2 +-
 tuple/arrayofnumbers_union.go        | 12 +++++++++---
 tuple/intersection.go                |  2 +-
 tuple/union.go                       | 12 +++++++++---
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..dd0e5db 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -153,13 +153,19 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	}
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..778a4d3 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -245,13 +245,19 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	}
-- 
2.43.0


From e9c9dc02ca411fb64eaf4fcfede38b31ddf94f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 03/53] fix: give every entry of a tuple sketch made from a
 theta sketch its own summary

---
 tuple/compact_sketch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..43cc753 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -103,9 +103,14 @@ func NewCompactSketchFromThetaSketch[S Summary](
 
 	entries := make([]entry[S], 0, sketch.NumRetained())
 	for hash := range sketch.All() {
+		cloned, ok := summary.Clone().(S)
+		if !ok {
+			return nil, fmt.Errorf("cloned summary is not S")
+		}
+
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: cloned,
 		})
 	}
 
-- 
2.43.0


From 86cfd16cde44d87a7b2f08f32c0ba6e6fc010c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 04/53] fix: copy the caller's strings into an array-of-strings
 summary

---
 tuple/arrayofstrings_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..d01c1ad 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -72,7 +72,7 @@ func (s *ArrayOfStringsSummary) Clone() Summary {
 
 // Update incorporates a new string value into the summary.
 func (s *ArrayOfStringsSummary) Update(values []string) {
-	s.values = values
+	s.values = append([]string{}, values...)
 }
 
 // ArrayOfStringsSummaryWriter writes an ArrayOfStringsSummary to the provided io.Writer in binary format.
-- 
2.43.0


From 212c9aed22d04b061014ec3bd7cd6a20bc6c9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 05/53] fix: HLL union must fold its registers when a dense
 source has a smaller lgK

---
 hll/union.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..dc79c3d 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -242,7 +242,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -286,7 +286,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			folded, err := downsample(u.gadget, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, folded, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			folded.(*hllSketchState).sketch.putOutOfOrder(true)
+			return folded.(*hllSketchState).sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -307,6 +316,26 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 }
 
+// downsample returns an HLL_8 sketch in HLL mode with the registers of the given
+// HLL mode sketch folded to the smaller tgtLgK.
+func downsample(src HllSketch, tgtLgK int) (HllSketch, error) {
+	tgt := newHll8Array(tgtLgK)
+	itr := src.iterator()
+	for itr.nextAll() {
+		v, err := itr.getValue()
+		if err != nil {
+			return nil, err
+		}
+		if v == empty {
+			continue
+		}
+		if _, err = tgt.couponUpdate(pair(itr.getIndex(), v)); err != nil {
+			return nil, err
+		}
+	}
+	return newHllSketchState(tgt), nil
+}
+
 func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	sketchImpl := sketch.(*hllSketchState).sketch
 	curMode := sketch.GetCurMode()
-- 
2.43.0


From cbdf7747afa798fcd9807e714a5bb1b8b0fee929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 06/53] fix: HLL union estimates and bounds must reflect merged
 registers

---
 hll/union.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hll/union.go b/hll/union.go
index dc79c3d..5916dce 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
-- 
2.43.0


From af2ae7a257cb9c5cad6f5cd09fcb25687460a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 07/53] fix: a deserialized HLL sketch must not keep the
 caller's bytes

---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..8666a28 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From 2a89d09649e2213a1bbcfe82809a1c70c4aaf331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 08/53] fix: refuse truncated and inconsistent HLL images

---
 hll/hll_sketch.go |  3 +++
 hll/union.go      |  3 +++
 hll/utils.go      | 69 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+)

diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..7ebfd15 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -186,6 +186,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkImageSize(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
diff --git a/hll/union.go b/hll/union.go
index 5916dce..be1680e 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -114,6 +114,9 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
+	if len(byteArray) < 8 {
+		return nil, fmt.Errorf("input array too small: %d", len(byteArray))
+	}
 	lgK, err := checkLgK(extractLgK(byteArray))
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..e4b6ec4 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -180,6 +180,75 @@ func checkPreamble(preamble []byte) (curMode, error) {
 	return curMode, nil
 }
 
+// checkImageSize checks that the image holds everything that its preamble announces.
+func checkImageSize(image []byte, curMode curMode) error {
+	lgK, err := checkLgK(extractLgK(image))
+	if err != nil {
+		return err
+	}
+	tgtHllType := extractTgtHllType(image)
+	if tgtHllType != TgtHllTypeHll4 && tgtHllType != TgtHllTypeHll6 && tgtHllType != TgtHllTypeHll8 {
+		return fmt.Errorf("possible Corruption: Invalid target HLL type: %d", tgtHllType)
+	}
+	lgArr := extractLgArr(image)
+	compact := extractCompactFlag(image)
+
+	required := 0
+	switch curMode {
+	case curModeList:
+		couponCount := extractListCount(image)
+		if couponCount > 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid coupon count: %d", couponCount)
+		}
+		required = listIntArrStart + couponCount<<2
+	case curModeSet:
+		couponCount := extractHashSetCount(image)
+		if compact {
+			required = hashSetIntArrStart + couponCount<<2
+			break
+		}
+		if lgArr < lgInitSetSize {
+			if lgArr, err = computeLgArr(image, couponCount, lgK); err != nil {
+				return err
+			}
+		}
+		if lgArr >= lgK {
+			return fmt.Errorf("possible Corruption: Invalid array size: %d", lgArr)
+		}
+		if couponCount > 1<<lgArr {
+			return fmt.Errorf("possible Corruption: Invalid coupon count: %d", couponCount)
+		}
+		required = hashSetIntArrStart + 4<<lgArr
+	case curModeHll:
+		switch tgtHllType {
+		case TgtHllTypeHll4:
+			required = hllByteArrStart + 1<<(lgK-1)
+			auxCount := extractAuxCount(image)
+			if auxCount == 0 {
+				break
+			}
+			if compact {
+				required += auxCount << 2
+				break
+			}
+			if lgArr >= lgK {
+				return fmt.Errorf("possible Corruption: Invalid aux array size: %d", lgArr)
+			}
+			required += 4 << lgArr
+		case TgtHllTypeHll6:
+			required = hllByteArrStart + ((1<<lgK)*3)>>2 + 1
+		case TgtHllTypeHll8:
+			required = hllByteArrStart + 1<<lgK
+		}
+	default:
+		return fmt.Errorf("possible Corruption: Invalid mode: %d", curMode)
+	}
+	if len(image) < required {
+		return fmt.Errorf("possible Corruption: image too small: %d, expected at least %d", len(image), required)
+	}
+	return nil
+}
+
 func getMaxUpdatableSerializationBytes(lgConfigK int, tgtHllType TgtHllType) int {
 	var arrBytes int
 	if tgtHllType == TgtHllTypeHll4 {
-- 
2.43.0


From 1702b98ed5eb19c13e7c45e60349085e91672bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 09/53] fix: HLL_4 must accept as many exceptions as there are
 slots

---
 hll/aux_hash_map.go | 3 ---
 hll/utils.go        | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..aacbe1b 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -195,9 +195,6 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
-	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
 	probe := slotNo & auxArrMask
diff --git a/hll/utils.go b/hll/utils.go
index e4b6ec4..2dbf7cc 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -231,7 +231,7 @@ func checkImageSize(image []byte, curMode curMode) error {
 				required += auxCount << 2
 				break
 			}
-			if lgArr >= lgK {
+			if lgArr > lgK+1 {
 				return fmt.Errorf("possible Corruption: Invalid aux array size: %d", lgArr)
 			}
 			required += 4 << lgArr
-- 
2.43.0


From a4b498c956df89220f94065005a9963409bc6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 10/53] fix: refuse CPC images written with another seed

---
 cpc/cpc_sketch.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..e16b3b4 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -96,22 +96,7 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 	if err != nil {
 		return nil, err
 	}
-
-	sketch, err := NewCpcSketch(c.LgK, seed)
-	if err != nil {
-		return nil, err
-	}
-	sketch.numCoupons = c.NumCoupons
-	sketch.windowOffset = c.getWindowOffset()
-	sketch.fiCol = c.FiCol
-	sketch.mergeFlag = c.MergeFlag
-	sketch.kxp = c.Kxp
-	sketch.hipEstAccum = c.HipEstAccum
-	sketch.slidingWindow = nil
-	sketch.pairTable = nil
-
-	err = c.uncompress(sketch)
-	return sketch, err
+	return uncompressSketch(c, seed)
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
-- 
2.43.0


From 7f52a11b7aa814f4683ec3ffc7fbf4a30ff3e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 11/53] fix: sort the whole range when CPC pairs are far out of
 order

---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..f163e50 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -213,7 +213,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From 38de36fa7e574b47bd7c33e7924c221daf5fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 12/53] fix: CpcUnion.GetBitMatrix must not hand out the
 union's own matrix

---
 cpc/cpc_union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..326fa0b 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"fmt"
 	"math/bits"
+	"slices"
 
 	"github.com/apache/datasketches-go/internal"
 )
@@ -351,7 +352,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return slices.Clone(u.bitMatrix), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From 1c7d773d396ab7e4811283360812e6a407733f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 13/53] fix: refuse CPC images that end inside their preamble

---
 cpc/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..fc63db8 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkCapacity(len(bytes), int(preIntsDef)<<2); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
-- 
2.43.0


From 43c7aac261ebe27589c11d8c546ac63ced21ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 14/53] fix: CpcWrapper must refuse truncated images

---
 cpc/cpc_wrapper.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index ec2d268..a5aed63 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -38,6 +38,16 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 	if !isCompressed(byteArray) {
 		return nil, fmt.Errorf("CpcWrapper: sketch is not compressed")
 	}
+	required := getPreInts(byteArray)
+	if getFlags(byteArray)&supValFlagMask > 0 {
+		required += getSvLengthInts(byteArray)
+	}
+	if getFlags(byteArray)&windowFlagMask > 0 {
+		required += getWLengthInts(byteArray)
+	}
+	if err := checkCapacity(len(byteArray), required<<2); err != nil {
+		return nil, fmt.Errorf("CpcWrapper: %w", err)
+	}
 	return &CpcWrapper{mem: byteArray}, nil
 }
 
-- 
2.43.0


From 4afcc58d9be806365ab4badfb9ca1ef3a118dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 15/53] fix: CpcWrapper of an empty sketch must estimate zero

---
 cpc/cpc_wrapper.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index a5aed63..682d307 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -51,10 +51,18 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 	return &CpcWrapper{mem: byteArray}, nil
 }
 
+// isEmpty reports whether the image has no coupons: it then carries no counts.
+func (cw *CpcWrapper) isEmpty() bool {
+	return getFlags(cw.mem)&(supValFlagMask|windowFlagMask) == 0
+}
+
 // GetEstimate returns the best estimate of the cardinality of the wrapped sketch.
 // If the sketch is in HIP mode, we return the HIP accumulator; otherwise we
 // return the ICON estimate.
 func (cw *CpcWrapper) GetEstimate() float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconEstimate(getLgK(cw.mem), getNumCoupons(cw.mem))
 	}
@@ -69,6 +77,9 @@ func (cw *CpcWrapper) GetLgK() int {
 // GetLowerBound returns the lower bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceLB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
@@ -78,6 +89,9 @@ func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
 // GetUpperBound returns the upper bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetUpperBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceUB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
-- 
2.43.0


From cac55d2720096227124a06b822897ee8ac4f768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 16/53] fix: CPC pair table must not outgrow the number of
 possible pairs

---
 cpc/pair_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index f163e50..f146265 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -78,7 +78,8 @@ func (p *pairTable) maybeInsert(item int) (bool, error) {
 	//assert (fetched == -1)
 	p.slotsArr[probe] = item
 	p.numPairs++
-	for (upsizeDenom * p.numPairs) > (upsizeNumer * (1 << p.lgSizeInts)) {
+	for p.lgSizeInts < p.validBits && // with a slot for every possible pair the table cannot overflow
+		(upsizeDenom*p.numPairs) > (upsizeNumer*(1<<p.lgSizeInts)) {
 		if err := p.rebuild(p.lgSizeInts + 1); err != nil {
 			return false, err
 		}
@@ -317,7 +318,7 @@ func (p *pairTable) unwrap(numPairs int) ([]int, error) {
 func newInstanceFromPairsArray(pairs []int, numPairs, lgK int) (*pairTable, error) {
 	lgNumSlots := 2
 	// Increase lgNumSlots until the table is large enough.
-	for (upsizeDenom * numPairs) > (upsizeNumer * (1 << lgNumSlots)) {
+	for lgNumSlots < 6+lgK && (upsizeDenom*numPairs) > (upsizeNumer*(1<<lgNumSlots)) {
 		lgNumSlots++
 	}
 	// Create a new pairTable with validBits = 6 + lgK.
-- 
2.43.0


From bb241117f50ceb66bc8aa5ebdc54c180535ed944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 17/53] fix: kll Reset must restore minK

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..382c6ac 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From 2d9e4545bdb4e238417cafe47a4ebbe3815b61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 18/53] fix: kll level capacities for k of 32768 and more

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 382c6ac..5bf3aaf 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1022,7 +1022,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 4a69c77bbc1f1828f18a97dc4c9e2f7e343bddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 19/53] fix: kll partition boundaries must not change the
 sorted view

---
 kll/items_sketch_sorted_view.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..7224078 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,6 +182,11 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
+	// work on a copy: the view answers other queries as well
+	view := *s
+	s = &view
+	s.cumWeights = slices.Clone(s.cumWeights)
+	s.quantiles = slices.Clone(s.quantiles)
 	s.cumWeights[0] = 1
 	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
 	s.quantiles[0] = s.minItem
-- 
2.43.0


From 392b0532b56dc81a34e79a3a505544986627eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 20/53] fix: kll images of sketches with 59 and more levels

---
 kll/items_sketch.go          | 8 ++++----
 kll/items_sketch_validate.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 5bf3aaf..9999325 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -155,7 +155,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -563,10 +563,10 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
 	for i := uint8(0); i < numLevels; i++ {
-		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
+		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+int(i)*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4:], minMaxByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..3f2b229 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -112,7 +112,7 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		vlid.numLevels = getNumLevels(vlid.srcMem)
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
-		for i := uint8(0); i < vlid.numLevels; i++ {
+		for i := 0; i < int(vlid.numLevels); i++ {
 			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
-- 
2.43.0


From 8f361e9bb3eeaaa0e4f0153302047d3710f1dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 21/53] fix: kll images of sketches whose only, least or
 greatest item is the empty string

---
 kll/items_sketch.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 9999325..7aa39a8 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -642,12 +642,8 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	// SerializeOneToSlice of an empty string has no length field
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
@@ -663,7 +659,7 @@ func (s *ItemsSketch[C]) getSingleItemByteArr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return s.serde.SerializeOneToSlice(v), nil
+	return s.serde.SerializeManyToSlice([]C{v}), nil
 }
 
 func (s *ItemsSketch[C]) getSingleItem() (C, error) {
-- 
2.43.0


From 1ab5326ac8dc8168d962d37d9858c46bfd3da8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 22/53] fix: kll constructor must refuse values of m its images
 cannot carry

---
 kll/items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 7aa39a8..612a584 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -86,6 +86,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
-- 
2.43.0


From a54ab46b8ee2f633471139e97d860e62cc75064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 23/53] fix: kll and the item SerDes must refuse truncated and
 malformed images

---
 common/item_sketch_double.go |  4 ++++
 common/item_sketch_float.go  |  4 ++++
 common/item_sketch_long.go   |  4 ++++
 common/item_sketch_string.go |  4 ++--
 kll/items_sketch_validate.go | 24 ++++++++++++++++++++----
 5 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..5a6c8d0 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -74,6 +75,9 @@ func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems == 0 {
 		return []float64{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*8, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..c780ed8 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -66,6 +67,9 @@ func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes i
 	if numItems == 0 {
 		return []float32{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*4, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..bf2f1ec 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -73,6 +74,9 @@ func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes in
 	if numItems == 0 {
 		return []int64{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*8, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..2992ee7 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -59,7 +59,7 @@ func (f ItemSketchStringSerDe) SizeOfMany(mem []byte, offsetBytes int, numItems
 		}
 		itemLenBytes := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += 4
-		if offset+itemLenBytes > memCap {
+		if !checkBounds(offset, itemLenBytes, memCap) {
 			return 0, errors.New("offset out of bounds")
 		}
 		offset += itemLenBytes
@@ -127,10 +127,10 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
+		utf8Bytes := make([]byte, strLength)
 		copy(utf8Bytes, mem[offset:offset+strLength])
 		offset += strLength
 		array[i] = string(utf8Bytes)
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index 3f2b229..d45aefd 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,13 +57,12 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
-	if capa < 8 {
-		return nil, fmt.Errorf("Memory too small: %d", capa)
+	if len(srcMem) < _DATA_START_ADR_SINGLE_ITEM {
+		return nil, fmt.Errorf("Memory too small: %d", len(srcMem))
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
-	sketchStructure := getSketchStructure(preInts, serVer)
+	sketchStructure := sketchStructure{preInts, serVer} // checked by validate
 	familyID := getFamilyID(srcMem)
 	if familyID != internal.FamilyEnum.Kll.Id {
 		return nil, fmt.Errorf("Source not KLL: %d", familyID)
@@ -107,16 +106,30 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
 		// Get Levels Arr and add the last element
+		if vlid.numLevels < 1 || vlid.numLevels > 61 {
+			return fmt.Errorf("Invalid number of levels: %d", vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
 		for i := 0; i < int(vlid.numLevels); i++ {
 			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		for i := 0; i < int(vlid.numLevels); i++ {
+			if vlid.levelsArr[i] > vlid.levelsArr[i+1] {
+				return fmt.Errorf("Invalid levels array")
+			}
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
@@ -148,6 +161,9 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 	default:
 		return fmt.Errorf("Invalid preamble ints and serial version combo")
 	}
+	if len(vlid.srcMem) < vlid.sketchBytes {
+		return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+	}
 	return nil
 }
 
-- 
2.43.0


From 2176a2fe675be1255a016cd96aa340ea4c0e5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 24/53] fix: a merge into a new req sketch must take the other
 sketch's extremes

NewSketch left the minimum and the maximum at zero; Merge compares with
them, so the result of merging positive (negative) data into a new sketch
had minimum (maximum) zero.
---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..b53a983 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -74,6 +74,8 @@ func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 	}
 	for _, option := range options {
 		option(sk)
-- 
2.43.0


From 1255e6ab428f446f427e23e6d3e391c5b304e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 25/53] fix: req rank bounds must be normalized ranks

Bounds below 0 or above 1 made QuantileLowerBound and QuantileUpperBound
fail for ranks near the inaccurate end.
---
 req/sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index b53a983..d855170 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -746,7 +746,7 @@ func computeRankLowerBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank - (float64(numStdDev) * relative)
 	lbFix := rank - (float64(numStdDev) * fixed)
-	return max(lbRel, lbFix)
+	return max(lbRel, lbFix, 0)
 }
 
 func isExactRank(
@@ -782,7 +782,7 @@ func computeRankUpperBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank + (float64(numStdDev) * relative)
 	lbFix := rank + (float64(numStdDev) * fixed)
-	return min(lbRel, lbFix)
+	return min(lbRel, lbFix, 1)
 }
 
 // Item represents a quantile value and its associated weight retained by the sketch.
-- 
2.43.0


From 88769518eff371567fe4c55b886e823a4e1cad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 26/53] fix: t-digest quantiles must move from one centroid to
 the next, not back

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..974a122 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From 8c23eccbca10f3d522167509dae6d111200c4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 27/53] fix: t-digest quantiles above the centre of a heavy
 last centroid

---
 tdigest/double.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 974a122..df57062 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -376,7 +376,10 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		if lastWeight == 2 {
+			return d.max, nil
+		}
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
@@ -406,9 +409,9 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 		weightSoFar += dw
 	}
 
-	w1 := weight - float64(d.centroidsWeight) - float64(d.centroids[len(d.centroids)-1].weight)/2.0
-	w2 := float64(d.centroids[len(d.centroids)-1].weight)/2.0 - w1
-	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w1, d.max, w2), nil
+	w1 := weight - (float64(d.centroidsWeight) - lastWeight/2.0)
+	w2 := lastWeight/2.0 - w1
+	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w2, d.max, w1), nil
 }
 
 // PMF returns an approximation to the Probability Mass Function (PMF)
-- 
2.43.0


From f9332dc902aa329ee6bcc42d5d2be1eff5745f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 28/53] fix: t-digest merge must take the other digest's
 extremes

---
 tdigest/double.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index df57062..d7329e0 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,7 +213,10 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	otherMin, otherMax := other.min, other.max
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
+	d.min = min(d.min, otherMin)
+	d.max = max(d.max, otherMax)
 
 	return nil
 }
-- 
2.43.0


From d7de09b8457135964380677b7a2d11d93923475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 29/53] fix: t-digest decoders must refuse what is no digest

---
 tdigest/double_decoder.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..b72e0f6 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -140,7 +140,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
@@ -200,6 +200,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
+
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
 		if err := binary.Read(r, binary.BigEndian, &minValBytes); err != nil {
@@ -315,7 +319,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
@@ -525,7 +529,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
 		return nil, errInsufficientData
 	}
 
-- 
2.43.0


From ff624aa4db829bbb660c9afdb0d546dc7f90dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 30/53] fix: items sketches smaller than the least map must be
 able to purge

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..3a27b82 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From b39e3de26c5bd77410b78f17d49c274aa09b28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 31/53] fix: image of an empty items sketch must restore its
 maximum map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 3a27b82..6bd25b3 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From 838669c7f9ca4efb330edb90948f8d97ceeca3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 32/53] fix: a frequency sketch whose items were all purged is
 not empty

---
 frequencies/items_sketch.go | 2 +-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 6bd25b3..c250f7e 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -325,7 +325,7 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	return i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..2beb0be 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -393,7 +393,7 @@ func (s *LongsSketch) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	return s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From 5dd3942f2ae7508b1dc9a0857efd01ab2773b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 33/53] fix: string form of longs sketches must carry negative
 items

---
 frequencies/reverse_purge_long_hash_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..7a357f7 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,15 +288,15 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		value, err := strconv.ParseUint(tokens[j+1], 10, 64)
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, value)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4e5b6b0ce5319dbf4189bee9ddfc19af23b84f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 34/53] fix: count-min constructor must refuse sizes that
 overflow and less than one hash

---
 count/count_min_sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..410ad39 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
-- 
2.43.0


From 294e37b804329c29196d4b1894260f791e99cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 35/53] fix: SuggestNumHashes of confidence 1 must not overflow
 to zero

---
 count/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/count/utils.go b/count/utils.go
index da7c25c..08df106 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -33,7 +33,7 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	if confidence < 0 || confidence > 1.0 {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0


From 715e39c6dbead7cdc1027a450d10a3e2ec0221cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 36/53] fix: count-min images of another seed, truncated or
 foreign must be refused

---
 count/count_min_sketch.go | 20 +++++++++++++++-----
 count/utils.go            | 11 +++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 410ad39..6bc22d7 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -307,7 +307,7 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	}
 
 	unused32 := make([]byte, 4)
-	_, err = r.Read(unused32)
+	_, err = io.ReadFull(r, unused32)
 	if err != nil {
 		return nil, err
 	}
@@ -336,12 +336,24 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
 	if err != nil {
 		return nil, err
 	}
+	if seedHash != expectedSeedHash {
+		return nil, errors.New("incompatible seed hash")
+	}
 
 	isEmpty := (flag & (1 << IsEmpty)) > 0
+	if !isEmpty && int64(r.Len()) < 8*(1+int64(numBuckets)*int64(numHashes)) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	if err != nil {
+		return nil, err
+	}
+
 	if isEmpty {
 		return cms, nil
 	}
@@ -354,14 +366,12 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	cms.totalWeight = totalWeight
 
 	var w int64
-	var i int
-	for r.Len() > 0 {
+	for i := range cms.sketchSlice {
 		err = binary.Read(r, binary.LittleEndian, &w)
 		if err != nil {
 			return nil, err
 		}
 		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
diff --git a/count/utils.go b/count/utils.go
index 08df106..b6937ca 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -20,6 +20,8 @@ package count
 import (
 	"errors"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -37,6 +39,15 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+	if preamble != PreambleLongsShort {
+		return errors.New("possible corruption: unexpected preamble longs")
+	}
+	if serVer != SerialVersion1 {
+		return errors.New("possible corruption: unexpected serial version")
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return errors.New("possible corruption: not a count-min sketch")
+	}
 	return nil
 }
 
-- 
2.43.0


From 2fb894ba70514c70c5ad7fe8a6a593156f941273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 37/53] fix: a bloom filter of 65535 hashes must not loop
 forever

---
 filters/bloom_filter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..cfd2f0e 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -202,8 +202,8 @@ func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
 			bf.numBitsSet++
@@ -217,8 +217,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			return false
 		}
@@ -231,8 +231,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
 		if !wasSet {
-- 
2.43.0


From 9fcdd77e8ab1ad7682a5999f1e38ad1e431e359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 38/53] fix: bloom filter images without bits must be refused,
 sizes checked first

---
 filters/bloom_filter_builder.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..3c97ad0 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -218,6 +218,14 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return nil, fmt.Errorf("numHashes must be positive")
 	}
 
+	// Validate the size before allocating anything
+	if bitArrayLength == 0 {
+		return nil, fmt.Errorf("bit array length must be positive")
+	}
+	if expectedSize := preambleBytes + int(bitArrayLength)*8; !isEmpty && len(bytes) != expectedSize {
+		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
+	}
+
 	// Calculate capacity
 	capacityBits := uint64(bitArrayLength) * 64
 
@@ -239,12 +247,6 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return bf, nil
 	}
 
-	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 84b6b868fb650571f81e8fae94c69ba376dc243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 39/53] fix: Reset of a reservoir union without items must not
 panic

---
 sampling/reservoir_items_union.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..c01a187 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -265,6 +265,9 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
+	if u.gadget == nil {
+		return
+	}
 	u.gadget.Reset()
 }
 
-- 
2.43.0


From 115741b4ac82f5b7d6efda5d7785c7d521b27f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 40/53] fix: reservoir union must refuse a maxK no reservoir
 can have

---
 sampling/reservoir_items_union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index c01a187..6a19209 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("maxK must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
-- 
2.43.0


From 0397dfa04471815d577394b2a0d4761c99259060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 41/53] fix: reservoir images truncated in the preamble or of
 impossible counts must be refused

---
 sampling/reservoir_items_sketch.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..4810043 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -435,9 +435,19 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 
 	flags := data[3]
 	isEmpty := (flags & flagEmpty) != 0
+	if isEmpty != (preambleLong == preambleIntsEmpty) {
+		return nil, fmt.Errorf("possible corruption: %d preamble longs, empty: %t", preambleLong, isEmpty)
+	}
 	n := 0
 	if !isEmpty {
-		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if len(data) < internal.FamilyEnum.ReservoirItems.MaxPreLongs*8 {
+			return nil, errors.New("data too short for a non-empty sketch")
+		}
+		itemsSeen := binary.LittleEndian.Uint64(data[8:])
+		if itemsSeen == 0 || itemsSeen > maxItemsSeen {
+			return nil, fmt.Errorf("possible corruption: %d items seen", itemsSeen)
+		}
+		n = int(itemsSeen)
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
@@ -459,6 +469,10 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 		return NewReservoirItemsSketch[T](k, WithReservoirItemsSketchResizeFactor(rf))
 	}
 
+	if k < minK {
+		return nil, errors.New("k must be at least 2")
+	}
+
 	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
 	capacity := k
 	if n < k {
-- 
2.43.0


From b10a278d3d45159a5dc617761364cbbce3beb30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 42/53] fix: a VarOpt sketch read back in estimation mode must
 accept updates

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..b2f47ec 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0, // the gap holds no item
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From f284bb0647a025b479289e2b2d48389134875a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 43/53] fix: rounding of tau must not make a VarOpt sketch
 refuse all further updates

---
 sampling/varopt_items_sketch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..f87f787 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -74,6 +74,7 @@ const (
 	// VarOpt specific constants
 	varOptDefaultResizeFactor = ResizeX8
 	varOptMaxK                = (1 << 31) - 2 // maximum k value
+	varOptTauTolerance        = 1e-10         // relative rounding error of tau
 )
 
 type VarOptOption func(*varOptConfig)
@@ -271,7 +272,8 @@ func (s *VarOptItemsSketch[T]) update(item T, weight float64, mark bool) error {
 			return err
 		}
 
-		if minWeight < s.tau() {
+		// rounding may leave the lightest heavy item a few ulps below tau
+		if tau := s.tau(); minWeight < tau-tau*varOptTauTolerance {
 			return errors.New("sketch not in valid estimation mode")
 		}
 	}
-- 
2.43.0


From 352da2fac4bdc9e1704330d5fc36cf0c7ce40e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 44/53] fix: total weight of an exact VarOpt subset sum must be
 that of the whole sketch

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index f87f787..97b5c0e 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -746,7 +746,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From 7709f278f1a7d100822e053b1af7d2ae4faea409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 45/53] fix: VarOpt union results of a decreased k must be
 serializable

---
 sampling/varopt_items_sketch.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 97b5c0e..0542e45 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -904,7 +904,9 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.k--
 		s.n-- // will be re-incremented with the update
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		s.truncateToK()
+
+		return s.update(pulledItem, pulledWeight, pulledMark)
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -918,8 +920,19 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.truncateToK()
 	default:
 	}
 
 	return nil
 }
+
+// truncateToK drops the slots beyond the k+1 that a sketch in estimation mode uses.
+func (s *VarOptItemsSketch[T]) truncateToK() {
+	clear(s.data[s.k+1:])
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From 377550efb97315ad4fa0872624f11d8d5dc4bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 46/53] fix: VarOpt union results must not keep items lighter
 than tau as heavy

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..534ff5a 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -224,7 +224,7 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 
 	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < u.outerTau() && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From 3034936f2573c4105bc7f9489b0c197b6161632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 47/53] fix: VarOpt union must not fail on the rounding of
 large weights

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index 534ff5a..14a95c9 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -396,7 +396,7 @@ func (u *VarOptItemsUnion[T]) markMovingGadgetCoercer() (*VarOptItemsSketch[T],
 			resultK, resultH+resultR,
 		)
 	}
-	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10 {
+	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10*math.Max(1, u.outerTauNumer) {
 		return nil, fmt.Errorf(
 			"invalid state after mark moving: expected transferredWeight=%g, outerTauNumer=%g",
 			transferredWeight, u.outerTauNumer,
-- 
2.43.0


From 5ae831af625e9b6ab3f5e331aeea99fa89c50d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 48/53] fix: VarOpt union must refuse a maximum k beyond the
 int range

---
 sampling/varopt_items_union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index 14a95c9..afabba9 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -37,6 +37,10 @@ type VarOptItemsUnion[T any] struct {
 
 // NewVarOptItemsUnion creates a new union with the specified maximum k.
 func NewVarOptItemsUnion[T any](maxK uint) (*VarOptItemsUnion[T], error) {
+	if maxK < 1 || maxK > varOptMaxK {
+		return nil, errors.New("k must be at least 1 and less than 2^31 - 1")
+	}
+
 	gadget, err := newVarOptItemsSketchFromState[T](
 		int(maxK), defaultResizeFactor, true,
 	)
-- 
2.43.0


From 5db582f37ebc7dd70c0590fe4ce09a46158036e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 49/53] fix: theta images truncated in the preamble or of
 impossible preamble sizes must be refused

---
 theta/decoder.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..9f0dc59 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -157,6 +157,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	preambleLongs := bytes[compactSketchPreLongsByte]
+	if preambleLongs < 1 || preambleLongs > 2 {
+		return compactSketchData{}, fmt.Errorf("invalid preamble size: %d (expected 1 or 2)", preambleLongs)
+	}
 	hasTheta := preambleLongs > 1
 	theta := MaxTheta
 
@@ -168,6 +171,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid size of the number of entries: %d bytes", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -185,6 +191,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits < 1 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid entry bits: %d (expected 1 to 63)", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -208,6 +217,11 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 	theta := MaxTheta
 	seedHash := binary.LittleEndian.Uint16(bytes[compactSketchSeedHashU16*2:])
 
+	preambleLongs := bytes[compactSketchPreLongsByte]
+	if preambleLongs < 1 || preambleLongs > 3 {
+		return compactSketchData{}, fmt.Errorf("invalid preamble size: %d (expected 1, 2, or 3)", preambleLongs)
+	}
+
 	if bytes[compactSketchFlagsByte]&(1<<serializationFlagIsEmpty) != 0 {
 		return compactSketchData{
 			isEmpty:    true,
@@ -228,7 +242,6 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
-	preambleLongs := bytes[compactSketchPreLongsByte]
 	hasTheta := preambleLongs > 2
 	if hasTheta {
 		if err := validateMemorySize(bytes, (compactSketchThetaU64+1)*8); err != nil {
@@ -254,6 +267,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +319,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +351,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +396,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From bf8d0951b4019e4d7991810f254e53748de7121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 50/53] fix: tuple images of an impossible preamble size must
 be refused

---
 tuple/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..7aa13d3 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -98,6 +98,10 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		return nil, fmt.Errorf("sketch type mismatch: expected %d, actual %d", SketchTypeCompactTuple, sketchType)
 	}
 
+	if preambleLongs < 1 || int(preambleLongs) > internal.FamilyEnum.Tuple.MaxPreLongs {
+		return nil, fmt.Errorf("invalid preamble longs: %d", preambleLongs)
+	}
+
 	isEmpty := (flags & (1 << flagIsEmpty)) != 0
 	if !isEmpty {
 		expectedSeedHash, err := internal.ComputeSeedHash(int64(dec.seed))
-- 
2.43.0


From 247a8f2e40bfc74dc04f146d1b7aec4ad315c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 51/53] fix: frequency images whose preamble size contradicts
 the empty flag must be refused

---
 frequencies/items_sketch.go | 2 +-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index c250f7e..ec5a575 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -137,7 +137,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible corruption: familyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 { //Byte 5 and Byte 0
+	if empty != preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 2beb0be..cf41453 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -124,7 +124,7 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible Corruption: FamilyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 {
+	if empty != preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
 	if empty {
-- 
2.43.0


From dbd63949cd5a25e3483e21e009b06d67ca5ebee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:14 +0000
Subject: [PATCH 52/53] fix: rebuild both HIP accumulators of an HLL union as
 the updates keep them

A register of 32 or more left kxq0 counting it as zero and subtracted 1 from
kxq1 instead, so that the two cancelled out and the sum lost its precision.
---
 hll/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index be1680e..626e786 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -383,7 +383,8 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 				if err != nil {
 					return err
 				}
-				kxq1 += inv - 1.0
+				kxq0 -= 1.0
+				kxq1 += inv
 			}
 		}
 		if v > curMin {
-- 
2.43.0


From c7f620ac0c46626f4716da3aa70dfa8e0259f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 53/53] fix: the maximum serialized size of a compact theta
 sketch no longer wraps at 256

MaxSerializedSizeBytes returned a uint8, too small for any size it computes.
---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0

