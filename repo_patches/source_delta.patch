From 09461096b2f4bdde76e26780d3254ac2a131125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 01/13] fix: rwmap Len no longer counts a Store or LoadOrStore
 whose unhashable key panicked

---
 rwmap/rwmap.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..8b663f3 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -205,11 +205,15 @@ func (e *entry[V]) swapLocked(i *V) *V {
 // Otherwise, it stores and returns the given value.
 // The loaded result is true if the value was loaded, false if stored.
 func (m *RWMap[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
-	defer func() {
-		if !loaded {
-			atomic.AddInt64(&m.len, 1)
-		}
-	}()
+	// Count only calls that return: an unhashable key panics without storing.
+	actual, loaded = m.loadOrStore(key, value)
+	if !loaded {
+		atomic.AddInt64(&m.len, 1)
+	}
+	return actual, loaded
+}
+
+func (m *RWMap[K, V]) loadOrStore(key K, value V) (actual V, loaded bool) {
 	// Avoid locking if it's a clean hit.
 	read := m.loadReadOnly()
 	if e, ok := read.m[key]; ok {
@@ -342,11 +346,15 @@ func (e *entry[V]) trySwap(i *V) (*V, bool) {
 // Swap swaps the value for a key and returns the previous value if any.
 // The loaded result reports whether the key was present.
 func (m *RWMap[K, V]) Swap(key K, value V) (previous V, loaded bool) {
-	defer func() {
-		if !loaded {
-			atomic.AddInt64(&m.len, 1)
-		}
-	}()
+	// Count only calls that return: an unhashable key panics without storing.
+	previous, loaded = m.swap(key, value)
+	if !loaded {
+		atomic.AddInt64(&m.len, 1)
+	}
+	return previous, loaded
+}
+
+func (m *RWMap[K, V]) swap(key K, value V) (previous V, loaded bool) {
 	read := m.loadReadOnly()
 	if e, ok := read.m[key]; ok {
 		if v, ok := e.trySwap(&value); ok {
-- 
2.43.0


From a4c56803a21265193b49af5dd418dbf1db0e59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:54 +0000
Subject: [PATCH 02/13] fix: rwmap.Clear keeps Len exact and race-free against
 concurrent operations

---
 rwmap/rwmap.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 8b663f3..0bfc7a4 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -529,10 +529,32 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Retire every entry, so that operations still holding one neither change
+	// nor count it any more, and account for exactly the values removed here.
+	var removed int64
+	for _, e := range read.m {
+		if e.retireLocked() {
+			removed++
+		}
+	}
+	for _, e := range m.dirty {
+		if e.retireLocked() {
+			removed++
+		}
+	}
+	atomic.AddInt64(&m.len, -removed)
+
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+}
+
+// retireLocked expunges an entry for good and reports whether it held a value.
+//
+// The entry must no longer be reachable from m.read.
+func (e *entry[V]) retireLocked() (hadValue bool) {
+	p := e.p.Swap((*V)(expunged))
+	return p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From d4f674a8db24a38643124f6387001b008137aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:16 +0000
Subject: [PATCH 03/13] fix: synccache.LoadOrStore never returns an expired
 entry that somebody else removed first

---
 synccache/synccache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..516f192 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,8 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		// Expired: remove it, unless somebody else just did, and try again.
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From ef12b167c294c9700a364fc524203f95787bb139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 04/13] fix: synccache.CompareValueAndDelete retries when the
 entry was replaced by an equal value

---
 synccache/synccache.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 516f192..836f08d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -135,10 +135,16 @@ func (sc *SyncCache[K, V]) CompareAndDelete(key K, oldEntry *Entry[V]) (success
 }
 
 func (sc *SyncCache[K, V]) CompareValueAndDelete(key K, oldValue V) (success bool) {
-	if e, ok := sc.Load(key); ok && reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
-		return sc.CompareAndDelete(key, e)
+	for {
+		e, ok := sc.Load(key)
+		if !ok || !reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
+			return false
+		}
+		// The entry may have been replaced by one with an equal value.
+		if sc.CompareAndDelete(key, e) {
+			return true
+		}
 	}
-	return false
 }
 
 func (sc *SyncCache[K, V]) Clear() {
-- 
2.43.0


From 169315abdc9baa69924d0fb5f3a2a4feea1e2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:22 +0000
Subject: [PATCH 05/13] fix: synccache Load, LoadAndDelete and Range no longer
 miss a key that held an unexpired entry throughout

---
 synccache/synccache.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 836f08d..0ced4f4 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -79,15 +79,19 @@ func (sc *SyncCache[K, V]) Store(key K, value V, expire time.Duration) {
 }
 
 func (sc *SyncCache[K, V]) Load(key K) (value *Entry[V], loaded bool) {
-	e, ok := sc.cache.Load(key)
-	if !ok {
-		return nil, false
-	}
-	if !e.IsExpired() {
-		return e, true
+	for {
+		e, ok := sc.cache.Load(key)
+		if !ok {
+			return nil, false
+		}
+		if !e.IsExpired() {
+			return e, true
+		}
+		// Expired: if it is no longer the current entry, look again.
+		if sc.CompareAndDelete(key, e) {
+			return nil, false
+		}
 	}
-	sc.CompareAndDelete(key, e)
-	return nil, false
 }
 
 func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (actual *Entry[V], loaded bool) {
@@ -111,11 +115,14 @@ func (sc *SyncCache[K, V]) Delete(key K) {
 }
 
 func (sc *SyncCache[K, V]) LoadAndDelete(key K) (value *Entry[V], loaded bool) {
+	// Read the clock first: an entry that was unexpired when it was removed is
+	// the caller's.
+	now := time.Now().UnixMilli()
 	value, loaded = sc.cache.LoadAndDelete(key)
 	if !loaded {
 		return nil, false
 	}
-	if value.IsExpired() {
+	if now > atomic.LoadInt64(&value.expiration) {
 		if sc.deletedCallback != nil {
 			sc.deletedCallback(value.value)
 		}
@@ -160,10 +167,13 @@ func (sc *SyncCache[K, V]) Clear() {
 
 func (sc *SyncCache[K, V]) Range(f func(key K, value *Entry[V]) bool) {
 	sc.cache.Range(func(key K, value *Entry[V]) bool {
-		if !value.IsExpired() {
-			return f(key, value)
+		if value.IsExpired() {
+			// Remove it, or visit the entry that has replaced it since.
+			var ok bool
+			if value, ok = sc.Load(key); !ok {
+				return true
+			}
 		}
-		sc.CompareAndDelete(key, value)
-		return true
+		return f(key, value)
 	})
 }
-- 
2.43.0


From 30b351ba7a130c309517d0b09f0577e29efed874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 06/13] fix: refreshcache keeps its state when the refresh
 function panics or exits the goroutine

---
 refreshcache/refreshcache.go   | 18 ++++++++++++++++--
 refreshcache0/refreshcache0.go | 18 ++++++++++++++++--
 refreshcache1/refreshcache1.go | 18 ++++++++++++++++--
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..79ce668 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -111,7 +111,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -122,13 +127,20 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -139,7 +151,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..79f004b 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -111,7 +111,12 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -122,13 +127,20 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -139,7 +151,9 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..57c86f2 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -111,7 +111,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -122,13 +127,20 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			// refreshFunc panicked or exited the goroutine: there is no result to store
+			return
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -139,7 +151,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From 75f0114add528f5825d75c23968578f1698c1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 07/13] fix: refreshcache never treats the zero timestamp as a
 recent refresh or failure

---
 refreshcache/refreshcache.go   | 14 ++++++++------
 refreshcache0/refreshcache0.go | 14 ++++++++------
 refreshcache1/refreshcache1.go | 14 ++++++++------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 79ce668..3debd99 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
@@ -192,10 +193,11 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 79f004b..7179355 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
@@ -192,10 +193,11 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 57c86f2..1193270 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
@@ -192,10 +193,11 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From 33f215e4f293f910a444015b79039f10d9096b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 08/13] fix: refreshcache reads its timestamps atomically under
 the lock too

---
 refreshcache/refreshcache.go   | 6 ++++--
 refreshcache0/refreshcache0.go | 6 ++++--
 refreshcache1/refreshcache1.go | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 3debd99..d19bc0f 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 7179355..8efe148 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 1193270..de82b95 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && (time.Now().UnixNano()-lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
 	returned := false
-- 
2.43.0


From b51855a9770b259b081dfb4103954299418070b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:58 +0000
Subject: [PATCH 09/13] fix: vec read-only methods no longer write the
 auto-detected comparators

---
 vec/vec.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..9634b35 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -34,9 +34,10 @@ func New[T any](conf ...VecConf[T]) *Vec[T] {
 	return v
 }
 
-func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
+// It never stores the detected comparator: read-only methods, which may run concurrently, call it.
+func (v *Vec[T]) autoDetectCmpLess() func(T, T) bool {
 	if v.cmpLess != nil {
-		return v
+		return v.cmpLess
 	}
 	reflectType := reflect.TypeOf(v.d).Elem()
 	if reflectType.Kind() == reflect.Ptr {
@@ -44,31 +45,30 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	}
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		v.cmpLess = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		v.cmpLess = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
-		v.cmpLess = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
 		}
 	case reflect.String:
-		v.cmpLess = func(a, b T) bool {
+		return func(a, b T) bool {
 			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
 		}
-
 	default:
 		panic("warning: auto detect type failed, please set cmp less manually or use WithCmpLess when create vec")
 	}
-	return v
 }
 
-func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
+// It never stores the detected comparator: read-only methods, which may run concurrently, call it.
+func (v *Vec[T]) autoDetectCmpEqual() func(T, T) bool {
 	if v.cmpEqual != nil {
-		return v
+		return v.cmpEqual
 	}
 	reflectType := reflect.TypeOf(v.d).Elem()
 	if reflectType.Kind() == reflect.Ptr {
@@ -76,25 +76,24 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	}
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		v.cmpEqual = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		v.cmpEqual = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
-		v.cmpEqual = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
 		}
 	case reflect.String:
-		v.cmpEqual = func(a, b T) bool {
+		return func(a, b T) bool {
 			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
 	}
-	return v
 }
 
 func (v *Vec[T]) SetCmpLess(cmpLess func(T, T) bool) *Vec[T] {
@@ -295,7 +294,7 @@ func (v *Vec[T]) Less(i, j int) bool {
 }
 
 func (v *Vec[T]) CmpLess(v1, v2 T) bool {
-	return v.autoDetectSetCmpLess().cmpLess(v1, v2)
+	return v.autoDetectCmpLess()(v1, v2)
 }
 
 func (v *Vec[T]) Equal(i, j int) bool {
@@ -303,7 +302,7 @@ func (v *Vec[T]) Equal(i, j int) bool {
 }
 
 func (v *Vec[T]) CmpEqual(v1, v2 T) bool {
-	return v.autoDetectSetCmpEqual().cmpEqual(v1, v2)
+	return v.autoDetectCmpEqual()(v1, v2)
 }
 
 // After Grow(n), at least n elements can be appended to the slice without another allocation.
-- 
2.43.0


From e4bd9fa45259a830f6fbd8eb7e210ad1301530ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 10/13] fix: hashring.GetNode returns the owner of a hit point
 and orders colliding points by node

---
 hashring/hashring.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..b08d5e1 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -26,10 +26,13 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
-				return t1.hash < t2.hash
+				if t1.hash != t2.hash {
+					return t1.hash < t2.hash
+				}
+				return t1.Node < t2.Node
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
-				return t1.hash == t2.hash
+				return t1.hash == t2.hash && t1.Node == t2.Node
 			})),
 	}
 	return hr
@@ -66,19 +69,22 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	if i, ok := hr.nodes.BinarySearch(node[Node]{
-		hash: hash,
-		Node: key,
-	}); ok {
-		return key
-	} else {
-		if i == hr.nodes.Len() {
-			n, _ := hr.nodes.First()
-			return n.Node
-		} else {
-			n, _ := hr.nodes.Get(i)
-			return n.Node
+	// the first point at or after hash owns the key
+	i, _ := hr.nodes.BinarySearchFunc(node[Node]{hash: hash}, func(val, target node[Node]) int {
+		if val.hash < target.hash {
+			return -1
+		}
+		if val.hash > target.hash {
+			return 1
 		}
+		return 0
+	})
+	if i == hr.nodes.Len() {
+		n, _ := hr.nodes.First()
+		return n.Node
+	} else {
+		n, _ := hr.nodes.Get(i)
+		return n.Node
 	}
 }
 
-- 
2.43.0


From ef86e683e010fe85112912b982962bc1594c8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 11/13] fix: vec: clones and split-off vectors no longer
 compare through the original vector

---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 9634b35..c199c03 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -268,7 +268,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -318,7 +318,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From d86479ee4df518ac793c0936220725401944a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 12/13] fix: set: IsSupperSet reports a superset, not the
 opposite

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From 2c285007f59f1ae0809eae2ccc9806aff3a2ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 13/13] fix: genmap.LoadOrStore returns the stored value, not
 the zero value, when it stores

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0

