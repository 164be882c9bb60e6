From d2a2510945aa22a253402511a843b14c49ba3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 01/21] fix: two-key map removes only the entry the key belongs
 to

---
 collections/two_key_map.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..89eb3a7 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,12 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if oldK2, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, oldK2)
+	}
+	if oldK1, ok := m.k2Tok1[k2]; ok {
+		delete(m.k1Tok2, oldK1)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
@@ -56,15 +62,21 @@ func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
-	delete(m.k1Tok2, k1)
+	if k2, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, k2)
+		delete(m.k1Tok2, k1)
+	}
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From 6ba6a2b6849917a3b243c0f2250c75ea4497abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 02/21] fix: hash set keeps each key once in its insertion
 order

---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..dac9451 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.m[key] {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From 4bfe8df599a5f8fcd0445272967b6c2344eaa5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 03/21] fix: wait map timeout releases only the waiters it was
 armed for

---
 collections/wait_map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..bef6817 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// release only the waiters this timeout was armed for
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,11 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+// set stores the value and releases the waiters, wm.mu must be held
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From c68671bd234f0160ef29006fe06085bae7f7cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 04/21] fix: holder map reads its state under its lock, never
 blocks a release, releases waiters on cancel

---
 collections/holder_map.go | 52 +++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..f830c18 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -16,6 +16,28 @@ type holderMapHolder[V any] struct {
 	timeOutTimer    *time.Timer
 	mu              sync.Mutex
 }
+
+// wait returns the outcome of a released holder or waits for it
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
+// settle gives the holder its outcome, only the first one counts
+func (h *holderMapHolder[V]) settle(err error) {
+	select {
+	case h.inChan <- err:
+	default:
+	}
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -29,6 +51,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -46,29 +70,13 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
@@ -85,7 +93,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
@@ -128,7 +138,7 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.settle(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -140,7 +150,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.settle(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From 781819d943474a62c18c9e3f7057c93049b03d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 05/21] fix: request map forgets the load times of expired
 results

---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..9e9768a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -71,6 +71,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From 17c169fc27c166ba4e219deda09d1e61a012362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 06/21] fix: response map keeps a key's state under its lock

---
 collections/response_map.go | 74 ++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..85e8a6b 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -71,10 +71,10 @@ type chansHolder[K comparable, V any] struct {
 	trx       K
 	t         *time.Timer
 	createdAt time.Time
-	mu        sync.RWMutex
+	mu        sync.Mutex
 	isExist   bool
+	expired   bool
 	data      V
-	dataCh    chan V
 	listeners []chan V
 }
 
@@ -86,60 +86,47 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 		trx:       trx,
 		t:         time.NewTimer(timeout),
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
 	}
 	go func() {
 		defer h.t.Stop()
-		for {
-			select {
-			case <-h.ctx.Done():
-				close(h.dataCh)
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				return
-			case <-h.t.C:
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				h.mu.Lock()
-				h.listeners = nil
-				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
-			}
+		select {
+		case <-h.ctx.Done():
+		case <-h.t.C:
 		}
+		h.expire()
 	}()
 	return h
 }
 
+// expire releases the waiters, from now on nobody waits for the data
+func (h *chansHolder[K, V]) expire() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.expired = true
+	for _, ch := range h.listeners {
+		close(ch)
+	}
+	h.listeners = nil
+}
+
 func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.isExist {
 		return
 	}
-	h.dataCh <- data
+	h.data = data
+	h.isExist = true
+	for _, ch := range h.listeners {
+		ch <- data
+	}
+	h.listeners = nil
 }
 
 func (h *chansHolder[K, V]) wait() V {
-	h.mu.RLock()
-	e := h.isExist
-	h.mu.RUnlock()
-	if e {
-		return h.data
-	}
 	h.mu.Lock()
-	e = h.isExist
-	if e {
-		h.mu.Unlock()
+	if h.isExist || h.expired {
+		defer h.mu.Unlock()
 		return h.data
 	}
 	ch := make(chan V, 1)
@@ -184,9 +171,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -199,8 +186,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 				holder.cancelCtx()
 				delete(r.m, holder.trx)
 			}
+			count := len(r.m)
 			r.mu.Unlock()
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.logger.Debug().Int("holders count", count).Msg("successfully cleaned expired holders")
 		}
 	}
 }
-- 
2.43.0


From 99599522a18f9e6a268320af81dd9e71cd70944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 07/21] fix: unique-struct set survives an empty expiry queue
 and keeps re-added elements

---
 collections/struct_uniq_set.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..c62b92b 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,19 +77,24 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
-				first := res.ttlElements[0]
+				expired := len(res.ttlElements) > 0 && time.Since(res.ttlElements[0].createdAt) >= res.ttl
 				res.elementsMu.RUnlock()
-				if time.Since(first.createdAt) < res.ttl {
+				if !expired {
 					continue
 				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				count := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					// the element may have been removed and added again
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
+					count++
 				}
+				res.ttlElements = res.ttlElements[count:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From 0fa8b32637c66eb9e94aed3921d9ffaa0081c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 08/21] fix: unique-struct set uses the configured build
 function

---
 collections/struct_uniq_set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index c62b92b..5d67a38 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -103,14 +103,7 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 }
 
 func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
+	return s.build(v)
 }
 
 func (s *StructUniqSet[V]) Count() int {
-- 
2.43.0


From ce4447fd328471b1fa14800f8609dd178f3b855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 09/21] fix: cache map ignores deletes of absent keys and
 timers of earlier entries

---
 collections/guava_map.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..674e41d 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -74,9 +74,11 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 				return
 			case <-res.timer.C:
 				m.mu.Lock()
-				m.safeDelete(key)
+				// the key may hold a later entry by now
+				if m.stored[key] == res {
+					m.safeDelete(key)
+				}
 				m.mu.Unlock()
-
 			}
 		}()
 	}
@@ -117,15 +119,15 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	v, ok := m.stored[key]
+	if !ok {
+		return
+	}
 	if m.unloadFunc != nil {
-		v := m.stored[key].v
-		go m.unloadFunc(key, v)
+		go m.unloadFunc(key, v.v)
 	}
-	if m.readTimeout > 0 || m.writeTimeout > 0 {
-		v := m.stored[key]
-		if v != nil && v.cancelFn != nil {
-			v.cancelFn()
-		}
+	if v.cancelFn != nil {
+		v.cancelFn()
 	}
 
 	delete(m.stored, key)
@@ -191,12 +193,12 @@ func (m *GuavaMap[K, V]) Delete(key K) {
 func (m *GuavaMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.unloadFunc != nil {
-		for k, v := range m.stored {
+	for k, v := range m.stored {
+		if m.unloadFunc != nil {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
-- 
2.43.0


From 335ce98202a477064769970cd73cf525c5cbda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 10/21] fix: cache map keeps update locks while they are in use

---
 collections/guava_map.go | 73 +++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 45 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 674e41d..5f413a2 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -28,11 +28,17 @@ type guavaHolder[V any] struct {
 	v        V
 }
 
+// guavaUpdateLock is kept in the lock map while somebody holds it or waits for it
+type guavaUpdateLock struct {
+	mu    sync.Mutex
+	users int
+}
+
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
-	updateLockMapMu    sync.RWMutex
+	updateLockMap      map[K]*guavaUpdateLock
+	updateLockMapMu    sync.Mutex
 	mu                 sync.RWMutex
 	maxCount           int
 	loadFunc           GuavaLoadFunc[K, V]
@@ -44,17 +50,32 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
+func (m *GuavaMap[K, V]) lockKey(key K) *guavaUpdateLock {
 	m.updateLockMapMu.Lock()
-	defer m.updateLockMapMu.Unlock()
+	if m.updateLockMap == nil {
+		m.updateLockMap = make(map[K]*guavaUpdateLock)
+	}
 	lock, ok := m.updateLockMap[key]
 	if !ok {
-		lock = &sync.Mutex{}
+		lock = &guavaUpdateLock{}
 		m.updateLockMap[key] = lock
 	}
+	lock.users++
+	m.updateLockMapMu.Unlock()
+	lock.mu.Lock()
 	return lock
 }
 
+func (m *GuavaMap[K, V]) unlockKey(key K, lock *guavaUpdateLock) {
+	lock.mu.Unlock()
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	lock.users--
+	if lock.users == 0 {
+		delete(m.updateLockMap, key)
+	}
+}
+
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	res := &guavaHolder[V]{
 		v: value,
@@ -131,9 +152,6 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 	}
 
 	delete(m.stored, key)
-	//m.updateLockMapMu.Lock()
-	//delete(m.updateLockMap, key)
-	//m.updateLockMapMu.Unlock()
 	if m.maxCount > 0 {
 		for i, k := range m.storedSlice {
 			if k == key {
@@ -142,41 +160,11 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	lock.Lock()
-	defer lock.Unlock()
+	lock := m.lockKey(key)
+	defer m.unlockKey(key, lock)
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -205,11 +193,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
-- 
2.43.0


From 45b9cec0a5092c4e52ee55612f513b6df04098ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 11/21] fix: cache map update-under-lock respects the maximum
 count and the timeouts

---
 collections/guava_map.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 5f413a2..c3aa71e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -124,13 +124,7 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 	defer m.mu.Unlock()
 	_, ok := m.stored[key]
 	if !ok {
-		m.stored[key] = m.createHolder(key, value)
-		if m.maxCount > 0 {
-			if len(m.storedSlice) >= m.maxCount {
-				m.safeDelete(m.storedSlice[0])
-			}
-		}
-		m.storedSlice = append(m.storedSlice, key)
+		m.safeSet(key, value)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].timer.Reset(m.readTimeout)
@@ -168,7 +162,7 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.stored[key] = m.createHolder(key, res)
+	m.safeSet(key, res)
 	return res
 }
 
@@ -264,6 +258,11 @@ func (m *GuavaMap[K, V]) GetStored() map[K]V {
 func (m *GuavaMap[K, V]) Set(key K, val V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.safeSet(key, val)
+}
+
+// safeSet stores the value; a new key makes room for itself if the map is full
+func (m *GuavaMap[K, V]) safeSet(key K, val V) {
 	v, ok := m.stored[key]
 	if !ok {
 		m.stored[key] = m.createHolder(key, val)
-- 
2.43.0


From 4c788acfc88f5f8ad199d645fb603ca05a373828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 12/21] fix: cache map get stores what it loads before others
 may load, reads values under the lock

---
 collections/guava_map.go | 55 ++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index c3aa71e..2ea2b22 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -196,58 +196,59 @@ func (m *GuavaMap[K, V]) Size() int {
 }
 
 func (m *GuavaMap[K, V]) Get(key K) (V, error) {
-	m.mu.RLock()
-	val, ok := m.stored[key]
-	m.mu.RUnlock()
+	val, ok := m.read(key)
 	if ok {
-		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
-		}
-		return val.v, nil
+		return val, nil
 	}
 	if m.loadFunc == nil {
 		var v V
 		return v, nil
 	}
-	var err error
-	var loadedVal V
 
 	if m.lockLoad != nil {
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		val, ok = m.read(key)
+		if ok {
+			return val, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
 	}
-
+	loadedVal, err := m.loadFunc(key)
 	if err != nil {
 		var v V
 		return v, err
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	val, ok = m.stored[key]
+	holder, ok := m.stored[key]
 	if ok {
-		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+		if holder.timer != nil && m.readTimeout > 0 {
+			holder.timer.Reset(m.readTimeout)
 		}
-		return val.v, nil
+		return holder.v, nil
 	}
-	if m.maxCount > 0 {
-		if len(m.storedSlice) >= m.maxCount {
-			m.safeDelete(m.storedSlice[0])
-		}
-		m.storedSlice = append(m.storedSlice, key)
-	}
-	m.stored[key] = m.createHolder(key, loadedVal)
+	m.safeSet(key, loadedVal)
 	return loadedVal, nil
 }
 
+// read returns the stored value, if there is one
+func (m *GuavaMap[K, V]) read(key K) (V, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	holder, ok := m.stored[key]
+	if !ok {
+		var v V
+		return v, false
+	}
+	if holder.timer != nil && m.readTimeout > 0 {
+		holder.timer.Reset(m.readTimeout)
+	}
+	return holder.v, true
+}
+
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From 7aec780b705a33d0d7278804f1a845cecbff62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 13/21] fix: sharding channel routes negative shard function
 results to a shard

---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..2145ccd 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				res.outgoingChans[key] <- msg
 			}
 		}
-- 
2.43.0


From 7b1120bbc8cd2ab79563d83e9566db7487fac2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 14/21] fix: channel pipelines stop with their context while a
 send is blocked

---
 chans/chunk_chan.go       | 18 ++++++++++++++++--
 chans/shard_chan.go       |  6 +++++-
 chans/shard_chunk_chan.go |  6 +++++-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..780a018 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -41,19 +41,33 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
 	}
 }
 
+// send reports false when the context ended before the chunk could be sent.
+func (c *ChunkChan[T]) send(chunk []T) bool {
+	select {
+	case <-c.ctx.Done():
+		return false
+	case c.outgoingChan <- chunk:
+		return true
+	}
+}
+
 type ChunkChanBuilder[T any] struct {
 	ctx                context.Context
 	chunkSize          int
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 2145ccd..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -135,7 +135,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				if key < 0 {
 					key += res.shardCount
 				}
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..86ddf78 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -128,7 +128,11 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 				case <-b.ctx.Done():
 					return
 				case m := <-sharder.C(k):
-					chunkers[k].Add(m)
+					select {
+					case <-b.ctx.Done():
+						return
+					case chunkers[k].Incoming() <- m:
+					}
 				}
 			}
 		}(i)
-- 
2.43.0


From 1142cc2bcacb7e1409bd127f457129debe38f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 15/21] fix: decrypting input shorter than a nonce returns an
 error

---
 crypto/aes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..14dc3b8 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
 type AES struct {
@@ -54,6 +55,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, errors.New("ciphertext too short")
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 4c12da2f7514d1b82df2173920431722c4f8b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 16/21] fix: adding a missing folder to the encrypted file
 system does not panic

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From 0e9ba4905c34d4e0e56cf39126c34750dc12d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 17/21] fix: files of the encrypted file system are read to
 their end, each open separately

---
 crypto_fs/crypto_fs.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..93458e5 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -173,7 +173,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -235,9 +235,14 @@ func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+func (f file) Close() error { return nil }
+
+// openFile is an opened file with its own read position.
+type openFile struct {
+	file
+	reader *bytes.Reader
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.reader.Read(i)
+}
-- 
2.43.0


From 2d009dfe8814fec646da0aa3d8c4678c2ff64901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 18/21] fix: a single file of the encrypted file system has its
 base name

---
 crypto_fs/crypto_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 93458e5..811ea27 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -38,7 +38,7 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 		return b
 	}
 	f := file{
-		FileName: of.Name(),
+		FileName: filepath.Base(path),
 		Path:     path,
 		Data:     data,
 	}
-- 
2.43.0


From 3d9ec38031d126fefcd9371b22280fde748a872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 19/21] fix: entries of a listed directory report the size of
 their files

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 811ea27..9e146cf 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -187,6 +187,9 @@ func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	entries := make([]fs.DirEntry, len(f.Entries))
 	for i := 0; i < len(f.Entries); i++ {
 		entries[i] = f.Entries[i]
+		if e, ok := c.files[f.Entries[i].Path]; ok {
+			entries[i] = e
+		}
 	}
 	return entries, nil
 }
-- 
2.43.0


From e4997dfce1dc2ee7d6dd461dc9d3744348021e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 20/21] fix: channels built from one builder are independent of
 it and of each other

---
 chans/chunk_chan.go       | 13 +++++++------
 chans/shard_chan.go       | 11 ++++++-----
 chans/shard_chunk_chan.go | 20 +++++++++++---------
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 780a018..40a3880 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -124,26 +124,27 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc := b.chunkFunc; chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..b1b5b81 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,14 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
@@ -143,7 +144,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc := b.workerFunc; workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -151,7 +152,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 86ddf78..7608982 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,24 +112,26 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	ctx := b.ctx
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
-	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(b.incomingChan).Build()
+	sharder, err := NewShardChan[T]().WithContext(ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(incomingChan).Build()
 	if err != nil {
 		return nil, err
 	}
 	chunkers := make([]*ChunkChan[T], b.shardCount)
 	for i := 0; i < b.shardCount; i++ {
-		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
+		chunkers[i] = NewChunkChan[T]().WithContext(ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case chunkers[k].Incoming() <- m:
 					}
@@ -137,15 +139,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker := b.shardWorker; shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From 29045d5974f06f6fa84244af0e8dc296cc694e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 21/21] fix: a built processor keeps its routes when the
 builder gets more

---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..d54643d 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := fb.routes[:len(fb.routes):len(fb.routes)]
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0

