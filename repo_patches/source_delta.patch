From b29a059a38c2e1d92b1b465bbc108238e498de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 01/23] fix: bolt Get returns copies, not slices of the mapped
 database file

---
 provider/bolt/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..1eedf84 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -169,8 +169,9 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 	for i, k := range key {
 		b := bucket.Get([]byte(k))
 		if b != nil {
+			// b is only valid during the transaction
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  append(make([]byte, 0, len(b)), b...),
 				Exists: true,
 			}
 		}
-- 
2.43.0


From afe0b020a3825a755265219a840f9e6002f69497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 02/23] fix: bolt removes the dead sessions reported by Check,
 Get and Keys

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..52d8b52 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From ca06219dc2826a0d10932ddde1234b1045301a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 03/23] fix: bolt Clear works on a store that never held a
 session

---
 provider/bolt/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 52d8b52..760d401 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -856,9 +856,11 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From 28ad2a5e71b9ecc2e79657a55e794461a5600c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 04/23] fix: bolt Clear on a closed provider does not keep the
 lock

---
 provider/bolt/provider.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 760d401..2ec8f99 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -883,7 +883,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
 	p.m.Unlock()
 	return
-- 
2.43.0


From 0574b62669973bb840dee99e51f7726b6b88fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 05/23] fix: bolt sweep does nothing once the provider is
 closed

---
 provider/bolt/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 2ec8f99..e8f6a14 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -158,6 +158,9 @@ func (p *Provider) data(t *bolt.Tx) (store, md, data *bolt.Bucket) {
 }
 
 func (p *Provider) doClear() {
+	if p.done != 0 {
+		return
+	}
 	p.db.Update(func(t *bolt.Tx) (e error) {
 		var (
 			store                  = p.store(t)
-- 
2.43.0


From ace8c60fd33dc1c34330b8e0049886e5586bb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 06/23] fix: memory sweep forgets ids without sessions

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 3c04702..2f1eb3f 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From 6fded823960772f242796ce78f89c820b2c67ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 07/23] fix: Refresh onto a token in use ends the session that
 used it

---
 provider.go               | 2 ++
 provider/bolt/provider.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/provider.go b/provider.go
index 2f1eb3f..ec7e4f5 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,8 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	// a session already using the new token ends
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index e8f6a14..664250d 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -775,6 +775,11 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			// a session already using the new token ends
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From da0ecc04f0054319dcafc14cb27aeb848cd14feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 08/23] fix: Session.Delete forgets the deleted keys in the
 local cache

---
 session.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 2ab136d..1646b21 100644
--- a/session.go
+++ b/session.go
@@ -214,5 +214,14 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e != nil {
+		return
+	}
+	if token == s.token {
+		for _, k := range key {
+			delete(s.keys, k)
+		}
+	}
+	return
 }
-- 
2.43.0


From a9916767448abc3b0cfbf1f49b5f736511b6cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 09/23] fix: Session.Get decodes afresh unless the cached value
 is a scalar of the same type

---
 session.go | 57 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/session.go b/session.go
index 1646b21..6b3f2fb 100644
--- a/session.go
+++ b/session.go
@@ -16,6 +16,38 @@ type value struct {
 	Ready bool
 }
 
+// cacheable reports whether decoded values of type t can be handed out again by
+// assignment: they share nothing with their copies.
+func cacheable(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Bool, reflect.String,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+		return true
+	}
+	return false
+}
+
+// decode v into pointer, which points to elem, and keep the result in v if possible
+func (s *Session) decode(v *value, pointer interface{}, elem reflect.Value) (e error) {
+	if !cacheable(elem.Type()) {
+		return s.coder.Decode(copyBytes(v.Bytes), pointer)
+	}
+	p := reflect.New(elem.Type())
+	e = s.coder.Decode(copyBytes(v.Bytes), p.Interface())
+	if e != nil {
+		return
+	}
+	elem.Set(p.Elem())
+	v.Ready = true
+	v.Elem = p
+	return
+}
+func copyBytes(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 type Session struct {
 	id       string
 	token    string
@@ -90,7 +122,7 @@ func (s *Session) Put(ctx context.Context, pair ...Pair) (e error) {
 	for i := 0; i < count; i++ {
 		val := Value{
 			Exists: true,
-			Bytes:  kv[i].Value,
+			Bytes:  copyBytes(kv[i].Value),
 		}
 		s.keys[kv[i].Key] = value{
 			Value: val,
@@ -153,7 +185,7 @@ func (s *Session) getKey(key string) (val value, exists bool) {
 // Get key's value
 func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e error) {
 	vo := reflect.ValueOf(pointer)
-	if vo.Kind() != reflect.Ptr {
+	if vo.Kind() != reflect.Ptr || vo.IsNil() {
 		e = ErrNeedsPointer
 		return
 	} else if vo.Elem().Kind() == reflect.Ptr {
@@ -162,17 +194,13 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
+			if v.Ready && vo.Elem().Type() == v.Elem.Elem().Type() {
 				vo.Elem().Set(v.Elem.Elem())
 			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
+				e = s.decode(&v, pointer, vo.Elem())
 				if e != nil {
 					return
 				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
 				s.keys[key] = v
 			}
 			return
@@ -196,18 +224,13 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 		return
 	}
 	// ready
-	e = s.coder.Decode(vals[0].Bytes, pointer)
-	if e != nil {
-		return
-	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
 	var v value
 	v.Exists = true
 	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
+	e = s.decode(&v, pointer, vo.Elem())
+	if e != nil {
+		return
+	}
 	s.keys[key] = v
 	return
 }
-- 
2.43.0


From 95b710276504bdaea105975a4d47d3b9c0071353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 10/23] fix: Verify refuses other spellings of a valid
 signature

---
 cryptoer/hmac.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..95713d8 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -72,6 +72,11 @@ func (m *SigningMethodHMAC) Verify(signingString, signature string, key interfac
 		return err
 	}
 
+	// Only the canonical encoding is accepted, not one with line breaks or stray trailing bits
+	if EncodeSegment(sig) != signature {
+		return ErrSignatureInvalid
+	}
+
 	// Can we use the specified hashing method?
 	if !m.Hash.Available() {
 		return ErrHashUnavailable
-- 
2.43.0


From 938c043057b3c63fc9b4ccff29aa46132151fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 11/23] fix: redis keeps a session for its whole refresh
 lifetime, not whole seconds of it

---
 provider/redis/metadata.go | 6 ++++++
 provider/redis/provider.go | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 2f0d8fa..6b973f4 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -33,3 +33,9 @@ func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDu
 	md.AccessDeadline = at.Add(accessDuration)
 	md.RefreshDeadline = at.Add(refreshDuration)
 }
+
+// expireAt returns when redis may drop the key, redis counts in milliseconds
+// and the session must not be dropped before its refresh deadline
+func (md *_Metadata) expireAt() time.Time {
+	return md.RefreshDeadline.Add(time.Millisecond)
+}
diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..6c64b96 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -152,8 +152,7 @@ func (p *Provider) Create(ctx context.Context,
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpireAt(ctx, key, md.expireAt())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -286,7 +285,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.expireAt())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -425,7 +424,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.expireAt())
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From 111d9593dadeae07184e364460ab2e17379cba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 12/23] fix: redis Refresh reports that the session no longer
 exists

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 6c64b96..e2d8740 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -408,6 +408,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From 51f890713aae06f3f3e1ff0518bf6b1f5836a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 13/23] fix: redis Create does not inherit what a key already
 holds

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index e2d8740..6f6cdde 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.PExpireAt(ctx, key, md.expireAt())
 	_, e = tx.Exec(ctx)
-- 
2.43.0


From d152962e88a53694a9dfaa1df75d0cee4bb71b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 14/23] fix: redis Keys answers by the state of the session and
 hides the metadata key

---
 provider/redis/provider.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 6f6cdde..37ec8b4 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -207,7 +207,16 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	return
 }
 func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+	cmd := p.opts.client.HGet(ctx, key, p.opts.metadataKey)
+	e = p.decodeMetadata(cmd, md)
+	if e != nil {
+		return
+	}
+	val = cmd.Val()
+	return
+}
+func (p *Provider) decodeMetadata(cmd *redis.StringCmd, md *_Metadata) (e error) {
+	val, e := cmd.Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -356,11 +365,34 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	var md _Metadata
+	key := p.keyName(token)
+	tx := p.opts.client.TxPipeline()
+	defer tx.Close()
+	val := tx.HGet(ctx, key, p.opts.metadataKey)
+	names := tx.HKeys(ctx, key)
+	tx.Exec(ctx)
+	e = p.decodeMetadata(val, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+	vals, e := names.Result()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
+	for _, name := range vals {
+		if name != p.opts.metadataKey {
+			keys = append(keys, name)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From b99feb08aed0efe465d2d678d0de4dde17f740d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 15/23] fix: redis Destroy takes the id literally and catches
 sessions refreshed meanwhile

---
 provider/redis/provider.go | 42 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 37ec8b4..6bb8c29 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -11,6 +12,14 @@ import (
 	"github.com/powerpuffpenguin/sessionid"
 )
 
+// globEscaper escapes the characters with a meaning in the pattern of the KEYS command
+var globEscaper = strings.NewReplacer(
+	`\`, `\\`,
+	`*`, `\*`,
+	`?`, `\?`,
+	`[`, `\[`,
+)
+
 // Provider a provider store data on local bolt database
 type Provider struct {
 	opts options
@@ -174,22 +183,25 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
-	e = result.Err()
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
-	keys := result.Val()
-	if len(keys) == 0 {
-		return
-	}
-	e = p.opts.client.Del(ctx, keys...).Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	pattern := globEscaper.Replace(p.keyName(id)) + `.*`
+	for {
+		// repeat until nothing is found, a session refreshed meanwhile has moved to another key
+		result := p.opts.client.Keys(ctx, pattern)
+		e = result.Err()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
+		keys := result.Val()
+		if len(keys) == 0 {
+			return
+		}
+		e = p.opts.client.Del(ctx, keys...).Err()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
 	}
-	return
 }
 
 // Destroy a session by token
-- 
2.43.0


From 95d0afcf69346cc826ebf87df0787aaf5c104531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 16/23] fix: redis Get does not hand out the metadata

---
 provider/redis/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 6bb8c29..2e943b1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -359,7 +359,7 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				break
 			}
 		} else {
-			if str, ok := v.(string); ok {
+			if str, ok := v.(string); ok && fields[i] != p.opts.metadataKey {
 				vals[i-1] = sessionid.Value{
 					Exists: true,
 					Bytes:  []byte(str),
-- 
2.43.0


From df74cc2cce6a90dd2825b5c9d53d5a0733193e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 17/23] fix: redis operations cut off by Close are answered
 with provider already closed

---
 provider/redis/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 2e943b1..06b621d 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -122,7 +122,7 @@ func (p *Provider) read() (token string, closed bool) {
 	return
 }
 func (p *Provider) toError(e error) error {
-	if errors.Is(e, redis.ErrClosed) {
+	if e != nil && (errors.Is(e, redis.ErrClosed) || p.ctx.Err() != nil) {
 		return sessionid.ErrProviderClosed
 	}
 	return e
-- 
2.43.0


From 86607024815acf3f0969fd27daa29c77f69d534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 18/23] fix: redis Put and Refresh write only to the session
 they checked

---
 provider/redis/provider.go | 62 +++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 06b621d..7492f24 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -218,8 +218,26 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	cmd := p.opts.client.HGet(ctx, key, p.opts.metadataKey)
+
+// errDeleted is returned by the function passed to update if the session is to be deleted
+var errDeleted = errors.New(`session is deleted`)
+
+// update runs f, and runs it again if another client changed the key between what f read and wrote
+func (p *Provider) update(ctx context.Context, key string, f func(client *redis.Tx) error) (e error) {
+	for {
+		e = p.opts.client.Watch(ctx, f, key)
+		if e == errDeleted {
+			e = sessionid.ErrTokenNotExists
+			p.pushDelete(key)
+			return
+		} else if e != redis.TxFailedErr {
+			e = p.toError(e)
+			return
+		}
+	}
+}
+func (p *Provider) getMetadata(ctx context.Context, client redis.Cmdable, key string, md *_Metadata) (val string, e error) {
+	cmd := client.HGet(ctx, key, p.opts.metadataKey)
 	e = p.decodeMetadata(cmd, md)
 	if e != nil {
 		return
@@ -253,7 +271,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -289,14 +307,19 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
+	e = p.update(ctx, key, func(client *redis.Tx) error {
+		return p.put(ctx, client, key, fields)
+	})
+	return
+}
+func (p *Provider) put(ctx context.Context, client *redis.Tx, key string, fields []string) (e error) {
+	var md _Metadata
+	mdStr, e := p.getMetadata(ctx, client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
+		e = errDeleted
 		return
 	} else if md.IsExpired() {
 		e = sessionid.ErrTokenExpired
@@ -304,15 +327,11 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	}
 	fields = append(fields, p.opts.metadataKey, mdStr)
 
-	tx := p.opts.client.TxPipeline()
+	tx := client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
 	tx.PExpireAt(ctx, key, md.expireAt())
 	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
 	return
 }
 
@@ -447,14 +466,19 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
+	e = p.update(ctx, key, func(client *redis.Tx) error {
+		return p.refresh(ctx, client, key, refresh, newAccess, newRefresh)
+	})
+	return
+}
+func (p *Provider) refresh(ctx context.Context, client *redis.Tx, key, refresh, newAccess, newRefresh string) (e error) {
+	var md _Metadata
+	_, e = p.getMetadata(ctx, client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
+		e = errDeleted
 		return
 	} else if md.Refresh != refresh {
 		e = sessionid.ErrRefreshTokenNotMatched
@@ -467,16 +491,12 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	}
 
 	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
+	tx := client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
 	tx.PExpireAt(ctx, key, md.expireAt())
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
 	return
 }
 
-- 
2.43.0


From 6ed15ecd388f1ea43a179469ca048a875fe57b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 19/23] fix: redis Delete answers by the state of the session
 and keeps the metadata

---
 provider/redis/provider.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 7492f24..07fcd20 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -433,14 +433,38 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
+	for _, name := range keys {
+		e = p.checkKey(name)
+		if e != nil {
+			return
+		}
+	}
 	if len(keys) == 0 {
+		e = p.Check(ctx, token)
 		return
 	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
+	key := p.keyName(token)
+	e = p.update(ctx, key, func(client *redis.Tx) error {
+		return p.hdel(ctx, client, key, keys)
+	})
+	return
+}
+func (p *Provider) hdel(ctx context.Context, client *redis.Tx, key string, keys []string) (e error) {
+	var md _Metadata
+	_, e = p.getMetadata(ctx, client, key, &md)
 	if e != nil {
-		e = p.toError(e)
+		return
+	} else if md.IsDeleted() {
+		e = errDeleted
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
 		return
 	}
+	tx := client.TxPipeline()
+	defer tx.Close()
+	tx.HDel(ctx, key, keys...)
+	_, e = tx.Exec(ctx)
 	return
 }
 func (p *Provider) checkID(token ...string) (e error) {
-- 
2.43.0


From de1036eb701f972a754eb9150f321c33e742befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 20/23] fix: redis background deletion spares a session that
 took over the key

---
 provider/redis/provider.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 07fcd20..2240aa9 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -96,13 +96,34 @@ func (p *Provider) delete(batch int) {
 		for key := range m {
 			keys = append(keys, key)
 		}
-		p.opts.client.Del(p.ctx, keys...)
+		for _, key := range keys {
+			p.deleteDead(p.ctx, key)
+		}
 		// clear task
 		for token = range m {
 			delete(m, token)
 		}
 	}
 }
+
+// deleteDead deletes the key unless there is a live session again since it was found dead
+func (p *Provider) deleteDead(ctx context.Context, key string) (e error) {
+	e = p.update(ctx, key, func(client *redis.Tx) (e error) {
+		var md _Metadata
+		val, e := client.HGet(ctx, key, p.opts.metadataKey).Result()
+		if e != nil && e != redis.Nil {
+			return
+		} else if e == nil && p.opts.coder.Decode([]byte(val), &md) == nil && !md.IsDeleted() {
+			return
+		}
+		tx := client.TxPipeline()
+		defer tx.Close()
+		tx.Del(ctx, key)
+		_, e = tx.Exec(ctx)
+		return
+	})
+	return
+}
 func (p *Provider) tryRead() (token string, yes, closed bool) {
 	select {
 	case <-p.ctx.Done():
-- 
2.43.0


From 992be4aab6a08cf78aa78d69f977fe10da1b7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 21/23] fix: slices given as options (key of a manager, bucket
 of a bolt store) were shared with the caller

---
 option.go               | 2 +-
 provider/bolt/option.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index 235ba44..4cc7aa6 100644
--- a/option.go
+++ b/option.go
@@ -39,7 +39,7 @@ func WithMethod(method cryptoer.SigningMethod) Option {
 }
 func WithKey(key []byte) Option {
 	return newFuncOption(func(o *options) {
-		o.key = key
+		o.key = append([]byte(nil), key...)
 	})
 }
 func WithProvider(provider Provider) Option {
diff --git a/provider/bolt/option.go b/provider/bolt/option.go
index 35dfd02..bb737f0 100644
--- a/provider/bolt/option.go
+++ b/provider/bolt/option.go
@@ -70,7 +70,7 @@ func WithDB(db *bolt.DB) Option {
 }
 func WithBucket(bucket []byte) Option {
 	return newFuncOption(func(o *options) {
-		o.bucket = bucket
+		o.bucket = append([]byte(nil), bucket...)
 	})
 }
 
-- 
2.43.0


From f1f8468b0fc709382d66df8d6564883e2d78b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 22/23] fix: redis Refresh answers with the error of a rename,
 and ends the session, if its new lifetime is over before it is written

---
 provider/redis/provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 2240aa9..8be7e13 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -538,9 +538,9 @@ func (p *Provider) refresh(ctx context.Context, client *redis.Tx, key, refresh,
 	newkey := p.keyName(newAccess)
 	tx := client.TxPipeline()
 	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpireAt(ctx, key, md.expireAt())
 	tx.Rename(ctx, key, newkey)
+	tx.HSet(ctx, newkey, p.opts.metadataKey, string(b))
+	tx.PExpireAt(ctx, newkey, md.expireAt())
 	_, e = tx.Exec(ctx)
 	return
 }
-- 
2.43.0


From aa8c2e129fffc25bc1d0691883078e70d5305694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:05 +0000
Subject: [PATCH 23/23] fix: redis: sessions with a refresh deadline after the
 year 2262 were dropped at once

---
 provider/redis/metadata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 6b973f4..0466135 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -1,9 +1,13 @@
 package redis
 
 import (
+	"math"
 	"time"
 )
 
+// maxExpireAt is the latest time whose nanoseconds, from which the client computes, fit in an int64
+var maxExpireAt = time.Unix(0, math.MaxInt64)
+
 type _Metadata struct {
 	Access          string
 	Refresh         string
@@ -37,5 +41,9 @@ func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDu
 // expireAt returns when redis may drop the key, redis counts in milliseconds
 // and the session must not be dropped before its refresh deadline
 func (md *_Metadata) expireAt() time.Time {
-	return md.RefreshDeadline.Add(time.Millisecond)
+	at := md.RefreshDeadline.Add(time.Millisecond)
+	if at.After(maxExpireAt) {
+		at = maxExpireAt
+	}
+	return at
 }
-- 
2.43.0

