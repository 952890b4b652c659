From 4689a59e0759f04b2b900066395d60324e88a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 1/8] fix: BytesSet.Del removed mismatched keys and kept the
 requested key

---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 971d7909faae47d90d2e01ae93540fcb5afca658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 2/8] fix: ArrMap.Set dropped the value when a new key collided
 with an existing key

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..f324cc2 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{value, key}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 9f92445f137947e5b9b9537f90de7e7bbe5547c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 3/8] fix: Map.Set and Set.Add rehashed a conflicting key with
 the wrong iteration

---
 generic_map.go | 2 +-
 generic_set.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..2fd1a23 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From b96a8e6cd7610626880e6f547ff088e88d86dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 4/8] fix: Map.Mod placed a conflicting key by the hash of the
 new key

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 2fd1a23..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From e4b3c0383caabd9868db8e2edf944acbe572170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 5/8] fix: IntMap and IntSet left inline key bits in the type
 map of a new branch

---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..4f4e036 100644
--- a/int_map.go
+++ b/int_map.go
@@ -193,6 +193,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -302,6 +303,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 7c6e44a..e11c213 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From 4393e94b0840a2584f388622797606fad41b3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 6/8] fix: Int lacked the Equal method required of a generic
 Map key

---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 4f4e036..6cbae21 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From af8030daa508587b27d2ce05cffbcd10328f5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 7/8] fix: HashBytes truncated iter to 8 bits

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 01469a9c65c262b6788cb5ee25203dae31d2f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 8/8] fix: Mod ran its callback while the map was inconsistent
 when a new key collided

---
 arr_map.go     | 4 ++--
 bytes_map.go   | 4 ++--
 generic_map.go | 4 ++--
 int_map.go     | 4 ++--
 string_map.go  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index f324cc2..9365e0b 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..4a24b40 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 857dca9..78d5bdd 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,8 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +254,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index 6cbae21..7b15c63 100644
--- a/int_map.go
+++ b/int_map.go
@@ -273,6 +273,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		val := &intkv[V]{}
+		mod(&val.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -291,8 +293,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..5c20fb7 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0

