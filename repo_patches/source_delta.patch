From 04edd95505a9a4284654d0bcdd1e31da2fde90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 01/48] fix: keep the ring in step with membership

Rebuild the ring while the membership lock is held (concurrent mutations
could install a ring computed from an older member set last), and also
when Mark/Refute moves a member into or out of the dead state.
---
 internal/cluster/membership.go | 45 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..8934fb1 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -61,13 +61,7 @@ func (m *Membership) Upsert(n *Node) {
 
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
-
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes from ring ownership
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
@@ -75,7 +69,6 @@ func (m *Membership) Upsert(n *Node) {
 	state := n.State
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
@@ -113,19 +106,12 @@ func (m *Membership) Remove(id NodeID) bool {
 	}
 
 	delete(m.nodes, id)
-
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
@@ -185,9 +171,15 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := (n.State == NodeDead) != (state == NodeDead)
+
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -227,9 +219,15 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := n.State == NodeDead
+
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -240,6 +238,21 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked rebuilds the ring from every non-dead member.
+// Callers MUST hold m.mu for writing: building under the lock keeps
+// concurrent mutations from installing a ring computed from an older
+// member set over a newer one.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes { // exclude dead nodes from ring ownership
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From c67c386c34c157b60ad3bc9f1bb6056ac0dd1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:31 +0000
Subject: [PATCH 02/48] fix: deliver bus events in version order under
 concurrent publishers

Stamping and fan-out ran under a shared read lock, so two publishers could
enqueue their events in the opposite order of their versions.
---
 internal/eventbus/bus.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..d940a89 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,10 +127,14 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	// Publishers are serialized: stamping and fan-out must happen as
+	// one step, otherwise two concurrent publishers can enqueue their
+	// events in the opposite order of their versions. Sends never
+	// block, so the critical section stays short.
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
+	// Stamp the event under the lock so version is
 	// monotonic across concurrent publishers.
 	version := b.version.Add(1)
 
-- 
2.43.0


From e3e8bbca1032c42fb7d4f5cdaeda89f2542f0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 03/48] fix: median of large samples no longer overflows

---
 pkg/stats/histogramcollector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..aef99e0 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -282,7 +282,8 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	// halve before adding: the sum of two large samples may not fit an int64
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From 97ba01706921748a9946010f3f73713bdca0b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 04/48] fix: report the variance of the sample window around
 the window's mean

The lifetime mean was used, so the figure was not the variance of the
reported values once old samples had left the window.
---
 pkg/stats/histogramcollector.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index aef99e0..5edb3ba 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -189,7 +189,7 @@ func (c *HistogramStatsCollector) GetStats() Stats {
 			Values:   sorted,
 			Count:    int(count),
 			Sum:      sum,
-			Variance: varianceOf(sorted, mean),
+			Variance: varianceOf(sorted),
 		}
 
 		return true
@@ -309,12 +309,20 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	return float64(sorted[idx])
 }
 
-// varianceOf returns the population variance of values around mean.
-func varianceOf(values []int64, mean float64) float64 {
+// varianceOf returns the population variance of values around their own
+// mean (the lifetime mean may include values no longer in the window).
+func varianceOf(values []int64) float64 {
 	if len(values) == 0 {
 		return 0
 	}
 
+	n := float64(len(values))
+
+	var mean float64
+	for _, value := range values {
+		mean += float64(value) / n
+	}
+
 	var acc float64
 
 	for _, value := range values {
@@ -323,5 +331,5 @@ func varianceOf(values []int64, mean float64) float64 {
 		acc += diff * diff
 	}
 
-	return acc / float64(len(values))
+	return acc / n
 }
-- 
2.43.0


From 3ce513edc85152a10420f62c249693bf9337630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 05/48] fix: auth options keep the caller's HTTP transport

WithBearerAuth and WithBasicAuth replaced the transport of a client
supplied through WithHTTPClient (dropping mTLS, proxy and dialer
settings) although the documentation promises they wrap it.
---
 pkg/client/client.go  | 76 ++++++++++++++++++++++---------------------
 pkg/client/options.go |  7 ++--
 2 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..4211fe1 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -43,10 +43,15 @@ type Client struct {
 	// path) snapshot via Load.
 	endpoints atomic.Pointer[[]string]
 
-	// http is the underlying HTTP client. Auth options replace
-	// its Transport; WithHTTPClient replaces the whole thing.
+	// http is the client requests are dispatched on: baseHTTP, with
+	// the last auth option's transport wrapped around its own.
 	http *http.Client
 
+	// baseHTTP is the HTTP client without credentials: the default
+	// one, or the one supplied through WithHTTPClient. Auth options
+	// wrap it, so its Transport (mTLS, proxies, dialers) stays in use.
+	baseHTTP *http.Client
+
 	// failoverRand is the source we shuffle the endpoint order
 	// from. Seeded once at construction so different Clients in
 	// the same process don't synchronize on each other's failover
@@ -88,9 +93,12 @@ func New(seeds []string, opts ...Option) (*Client, error) {
 		return nil, ErrNoEndpoints
 	}
 
+	defaultHTTP := &http.Client{Timeout: defaultHTTPTimeout}
+
 	c := &Client{
 		seeds:        cleaned,
-		http:         &http.Client{Timeout: defaultHTTPTimeout},
+		http:         defaultHTTP,
+		baseHTTP:     defaultHTTP,
 		failoverRand: newFailoverShuffler(),
 		logger:       slog.New(slog.DiscardHandler),
 	}
@@ -322,42 +330,44 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // --- internal helpers used by options.go ---
 
-// bearerAuthTransport returns a RoundTripper that injects the
-// given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
+// authTransport sets one Authorization header on every request and
+// hands the request to the base transport. Used by both bearer and
+// Basic auth — both share the "set one header on every request" shape.
+type authTransport struct {
+	base        http.RoundTripper
+	headerValue string
 }
 
-// bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
-// bearer and Basic auth — both share the "set one header on every
-// request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+// RoundTrip implements http.RoundTripper.
+func (t *authTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.headerValue)
 
-		base := http.DefaultTransport
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
 
-		return resp, nil
-	})
+	return resp, nil
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
+// httpClientWithAuth returns a copy of the base http.Client whose
+// transport adds the given Authorization header. The base client's
+// Transport, Timeout, redirect policy and cookie jar are preserved.
+func httpClientWithAuth(base *http.Client, headerValue string) *http.Client {
+	out := &http.Client{}
 	if base != nil {
-		out.Timeout = base.Timeout
+		*out = *base
 	}
 
+	out.Transport = &authTransport{base: out.Transport, headerValue: headerValue}
+
 	return out
 }
 
@@ -373,14 +383,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..a658d9a 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.baseHTTP, "Bearer "+token)
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.baseHTTP, "Basic "+encoded)
 
 		return nil
 	}
@@ -102,7 +102,7 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// refresh transparently. Pass the existing Transport as
 		// the base so any prior WithHTTPClient (e.g. mTLS) is
 		// preserved.
-		base := c.http
+		base := c.baseHTTP
 		if base == nil {
 			base = http.DefaultClient
 		}
@@ -138,6 +138,7 @@ func WithHTTPClient(httpClient *http.Client) Option {
 		}
 
 		c.http = httpClient
+		c.baseHTTP = httpClient
 
 		return nil
 	}
-- 
2.43.0


From 085b748369c030653c53d52c429bcb628e2da848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 06/48] fix: concurrent Close of a refreshing client no longer
 panics

---
 pkg/client/client.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 4211fe1..1c520e7 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -63,6 +63,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -130,17 +131,12 @@ func (c *Client) Endpoints() []string {
 	return append([]string(nil), (*snap)...)
 }
 
-// Close stops the topology-refresh loop. Idempotent; subsequent
-// calls are no-ops. Pending requests are NOT cancelled; callers
+// Close stops the topology-refresh loop. Idempotent and safe for
+// concurrent use; subsequent calls are no-ops. Pending requests are NOT cancelled; callers
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From a2cfa07096ea2a045e3e97c542f3a54764a3a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 07/48] fix: batch set keeps a sub-millisecond TTL instead of
 dropping the expiry

---
 pkg/client/batch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..efddf6b 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,9 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// The wire counts milliseconds and 0 means "no expiry":
+			// a positive TTL below 1ms must not become immortal.
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From a07a4c25f14be617c6b503cc130f1047886241d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 08/48] fix: topology refresh falls back to the seeds when the
 working view is gone

A refresh that adopted members which all left later stranded the client:
neither requests nor refreshes ever tried the seeds again.
---
 pkg/client/topology.go  | 36 +++++++++++++++++++++++++++++++-----
 pkg/client/transport.go | 12 +++++++++++-
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/pkg/client/topology.go b/pkg/client/topology.go
index 951273a..dcef432 100644
--- a/pkg/client/topology.go
+++ b/pkg/client/topology.go
@@ -3,10 +3,12 @@ package client
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"log/slog"
 	"net/http"
 	"net/url"
+	"slices"
 	"strings"
 	"time"
 )
@@ -61,8 +63,8 @@ func (c *Client) topologyRefreshLoop() {
 }
 
 // RefreshTopology synchronously pulls /cluster/members from one of
-// the currently-known endpoints (random pick, fail over to seeds
-// if the working view is empty) and updates the client's endpoint
+// the currently-known endpoints (random pick, fail over to the
+// seeds when none of them answers) and updates the client's endpoint
 // view in place. Returns the error from the underlying call when
 // every attempt failed; the in-memory view is left unchanged on
 // failure so the next call can fall back to the same endpoints.
@@ -71,9 +73,7 @@ func (c *Client) topologyRefreshLoop() {
 // known node join). The background loop calls this on its own
 // tick; manual callers usually don't need to.
 func (c *Client) RefreshTopology(ctx context.Context) error {
-	resp, err := c.do(ctx, http.MethodGet, "/cluster/members", nil, map[string]string{
-		"Accept": contentTypeJSON,
-	})
+	resp, err := c.fetchMembers(ctx)
 	if err != nil {
 		return fmt.Errorf("fetch /cluster/members: %w", err)
 	}
@@ -128,6 +128,32 @@ func (c *Client) RefreshTopology(ctx context.Context) error {
 	return nil
 }
 
+// fetchMembers asks the working view for /cluster/members and, when
+// every endpoint in it failed, the seeds that are not part of it: the
+// seeds are the recovery anchor for a view whose members are all gone.
+func (c *Client) fetchMembers(ctx context.Context) (*http.Response, error) {
+	headers := map[string]string{"Accept": contentTypeJSON}
+	view := c.currentEndpoints()
+
+	resp, err := c.doOver(ctx, view, http.MethodGet, "/cluster/members", nil, headers)
+	if err == nil || !errors.Is(err, ErrAllEndpointsFailed) {
+		return resp, err
+	}
+
+	anchors := make([]string, 0, len(c.seeds))
+	for _, seed := range c.seeds {
+		if !slices.Contains(view, seed) {
+			anchors = append(anchors, seed)
+		}
+	}
+
+	if len(anchors) == 0 {
+		return nil, err
+	}
+
+	return c.doOver(ctx, anchors, http.MethodGet, "/cluster/members", nil, headers)
+}
+
 // schemeFromSeeds extracts the URL scheme from the first valid
 // seed. Falls back to "https" when no seed parses — production
 // deployments should always be TLS, and a seed without a scheme
diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index b34c7fe..a93cb68 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -100,7 +100,17 @@ func (c *Client) do(
 	body io.Reader,
 	headers map[string]string,
 ) (*http.Response, error) {
-	endpoints := c.currentEndpoints()
+	return c.doOver(ctx, c.currentEndpoints(), method, path, body, headers)
+}
+
+// doOver is do against an explicit endpoint list.
+func (c *Client) doOver(
+	ctx context.Context,
+	endpoints []string,
+	method, path string,
+	body io.Reader,
+	headers map[string]string,
+) (*http.Response, error) {
 	if len(endpoints) == 0 {
 		return nil, ErrNoEndpoints
 	}
-- 
2.43.0


From 335eb76800116f97b86f4db4021767c22c709d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:40 +0000
Subject: [PATCH 09/48] fix: clock always finds a victim, so sets are tracked
 and evictions progress

---
 pkg/eviction/clock.go | 93 ++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..5633ea2 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -41,33 +41,19 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 		return "", false
 	}
 
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
+	index := c.victim()
+	if index < 0 {
+		return "", false
+	}
 
-		c.items[c.hand] = nil
+	item := c.items[index]
+	evictedKey := item.Key
+	delete(c.keys, evictedKey)
+	c.itemPoolManager.Put(item)
 
-		return evictedKey, true
-	}
+	c.items[index] = nil
 
-	return "", false
+	return evictedKey, true
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,38 +150,55 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // skip empty
-			c.advanceHand()
+	index := c.victim()
+	if index < 0 {
+		return
+	}
 
-			continue
-		}
+	item := c.items[index]
+	delete(c.keys, item.Key)
+	c.itemPoolManager.Put(item)
 
-		if item.AccessCount > 0 { // second chance
-			item.AccessCount--
+	newItem := c.itemPoolManager.Get()
 
-			c.advanceHand()
+	newItem.Key = key
+	newItem.Value = value
+	newItem.AccessCount = 1
+	c.items[index] = newItem
+	c.keys[key] = index
+	c.advanceHand()
+}
 
-			continue
-		}
+// victim sweeps the buffer once from the hand, giving every used item a second
+// chance, and returns the slot of the first item without one. When the sweep
+// finds only used items it settles for the least used of them, so that a
+// non-empty buffer always has a victim. The hand is left on the returned slot;
+// the result is -1 when the buffer is empty.
+func (c *ClockAlgorithm) victim() int {
+	index := -1
 
-		delete(c.keys, item.Key)
-		c.itemPoolManager.Put(item)
+	for range c.capacity {
+		item := c.items[c.hand]
+		if item != nil {
+			if item.AccessCount == 0 {
+				return c.hand
+			}
 
-		c.items[c.hand] = nil
+			item.AccessCount--
 
-		newItem := c.itemPoolManager.Get()
+			if index < 0 || item.AccessCount < c.items[index].AccessCount {
+				index = c.hand
+			}
+		}
 
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
 		c.advanceHand()
+	}
 
-		return
+	if index >= 0 {
+		c.hand = index
 	}
+
+	return index
 }
 
 func (c *ClockAlgorithm) advanceHand() { // small helper
-- 
2.43.0


From 14d3f7c83666ba1689f849c48101c60f678f1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 10/48] fix: ARC stays within capacity and always finds a
 victim

---
 pkg/eviction/arc.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..63385be 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -277,7 +277,7 @@ func (a *ARC) Evict() (string, bool) {
 // replace evicts one resident from T1 or T2 and places its key into B1 or B2.
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
-	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
+	fromT1 := a.t1.len > 0 && (a.t2.len == 0 || (x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
 	if fromT1 {
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
@@ -338,7 +338,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
@@ -360,7 +362,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b2.remove(ghost)
 		delete(a.b2Idx, key)
@@ -408,6 +412,8 @@ func (a *ARC) trimForHistoryLimit() {
 			delete(a.b1Idx, tail.key)
 		}
 
+		a.replace("")
+
 		return
 	}
 
-- 
2.43.0


From 2595f93f339c552f9fc3666299aaaa66d7c6323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 11/48] fix: unread job errors no longer block the worker pool

---
 pool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pool.go b/pool.go
index 9b225f6..856e181 100644
--- a/pool.go
+++ b/pool.go
@@ -131,7 +131,12 @@ func (pool *WorkerPool) worker() {
 
 			err := job()
 			if err != nil {
-				pool.errorChan <- err
+				// nobody has to read the errors: a full buffer must not
+				// keep the worker from finishing this job and the next
+				select {
+				case pool.errorChan <- err:
+				default:
+				}
 			}
 
 			pool.wg.Done()
-- 
2.43.0


From 0409c4967a721c74177d8c9d2ee3c26b24755ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 12/48] fix: resizing a worker pool after its shutdown no
 longer panics

---
 pool.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pool.go b/pool.go
index 856e181..1e9c9c9 100644
--- a/pool.go
+++ b/pool.go
@@ -91,6 +91,15 @@ func (pool *WorkerPool) Resize(newSize int) {
 		return
 	}
 
+	pool.shutdownMu.RLock()
+
+	closed := pool.closed
+	pool.shutdownMu.RUnlock()
+
+	if closed { // no workers left to add or remove
+		return
+	}
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
-- 
2.43.0


From 56b71e2e6f7dae00ce04f3cdc5ee05af378c6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 13/48] fix: the allocation follows the items held through
 overwrites, refusals and repeated removals

---
 hypercache.go           |   8 +++
 hypercache_io.go        | 121 ++++++++++++++++++++++++++++++----------
 pkg/backend/inmemory.go |  18 ++++++
 pkg/cache/v2/cmap.go    |  36 ++++++++++++
 4 files changed, 154 insertions(+), 29 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..9e19b8d 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -88,6 +88,14 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// exchangeBackend is the optional interface of a backend that reports exactly
+// which item an operation displaced, so that the memory allocation can follow
+// the items held even when several callers store and remove the same key.
+type exchangeBackend interface {
+	Swap(ctx context.Context, item *cache.Item) (*cache.Item, error)
+	PopIf(ctx context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool)
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..2a37514 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,21 +31,8 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-
-		return sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return err
 	}
 
@@ -61,6 +48,58 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	return nil
 }
 
+// store inserts a sized item into the backend unless it would exceed the
+// maximum cache size, and keeps the allocation equal to the size of the items
+// held: a refused item leaves it as it was, a replaced one is taken off it.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+	key, size := item.Key, item.Size // the backend may recycle an item it refuses
+
+	exchange, exchanges := hyperCache.backend.(exchangeBackend)
+
+	hyperCache.memoryAllocation.Add(size)
+
+	if hyperCache.maxCacheSize > 0 {
+		excess := hyperCache.memoryAllocation.Load() - hyperCache.maxCacheSize
+
+		if excess > 0 && exchanges {
+			if held, ok := hyperCache.backend.Get(ctx, key); ok {
+				excess -= held.Size
+			}
+		}
+
+		if excess > 0 {
+			hyperCache.memoryAllocation.Add(-size)
+			hyperCache.itemPoolManager.Put(item)
+
+			return sentinel.ErrCacheFull
+		}
+	}
+
+	var (
+		replaced *cache.Item
+		err      error
+	)
+
+	if exchanges {
+		replaced, err = exchange.Swap(ctx, item)
+	} else {
+		err = hyperCache.backend.Set(ctx, item)
+	}
+
+	if err != nil {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.itemPoolManager.Put(item)
+
+		return err
+	}
+
+	if replaced != nil {
+		hyperCache.memoryAllocation.Add(-replaced.Size)
+	}
+
+	return nil
+}
+
 // Get retrieves the item with the given key from the cache returning the value and a boolean indicating if the item was found.
 func (hyperCache *HyperCache[T]) Get(ctx context.Context, key string) (any, bool) {
 	item, ok := hyperCache.backend.Get(ctx, key)
@@ -142,22 +181,8 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
-		return nil, sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return nil, err
 	}
 
@@ -264,6 +289,18 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
+	if exchange, ok := hyperCache.backend.(exchangeBackend); ok {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
+		}
+
+		for _, key := range keys {
+			hyperCache.removeIf(ctx, exchange, key, nil)
+		}
+
+		return nil
+	}
+
 	// Remove the item from the eviction algorithm
 	// and update the memory allocation
 	for _, key := range keys {
@@ -283,6 +320,18 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 	return nil
 }
 
+// removeIf removes the item with the given key if cond (nil: always) holds for
+// it, together with its eviction tracking and its share of the allocation.
+func (hyperCache *HyperCache[T]) removeIf(ctx context.Context, exchange exchangeBackend, key string, cond func(*cache.Item) bool) bool {
+	item, removed := exchange.PopIf(ctx, key, cond)
+	if removed {
+		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.evictionAlgorithm.Delete(key)
+	}
+
+	return removed
+}
+
 // Clear removes all items from the cache.
 func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 	var (
@@ -296,6 +345,20 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 		return err
 	}
 
+	// item by item where possible: a total reset would also forget the size of
+	// an item stored meanwhile
+	if exchange, ok := hyperCache.backend.(exchangeBackend); ok {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
+		}
+
+		for _, item := range items {
+			hyperCache.removeIf(ctx, exchange, item.Key, nil)
+		}
+
+		return nil
+	}
+
 	// clear the cacheBackend
 	err = hyperCache.backend.Clear(ctx)
 	if err != nil {
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..35b8974 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -84,6 +84,24 @@ func (cacheBackend *InMemory) Set(_ context.Context, item *cache.Item) error {
 	return nil
 }
 
+// Swap stores an item like Set and returns the item it replaced, or nil.
+func (cacheBackend *InMemory) Swap(_ context.Context, item *cache.Item) (*cache.Item, error) {
+	err := item.Valid()
+	if err != nil {
+		return nil, err
+	}
+
+	replaced, _ := cacheBackend.items.Swap(item.Key, item)
+
+	return replaced, nil
+}
+
+// PopIf removes the item with the given key and returns it if cond (nil: always)
+// holds for it, deciding and removing in one step.
+func (cacheBackend *InMemory) PopIf(_ context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool) {
+	return cacheBackend.items.PopIf(key, cond)
+}
+
 // List returns a list of all items in the cache filtered and ordered by the given options.
 func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	var err error
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index e7d96a4..1e9e284 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -150,6 +150,42 @@ func (cm *ConcurrentMap) Touch(key string) bool {
 	return true
 }
 
+// Swap stores value under key and returns the item it replaced, if any.
+func (cm *ConcurrentMap) Swap(key string, value *Item) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	replaced, existed := shard.items[key]
+	if !existed {
+		shard.count.Add(1)
+	}
+
+	shard.items[key] = value
+
+	return replaced, existed
+}
+
+// PopIf removes the item under key and returns it if cond holds for it. A nil
+// cond always holds. The decision and the removal are one step.
+func (cm *ConcurrentMap) PopIf(key string, cond func(*Item) bool) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	item, ok := shard.items[key]
+	if !ok || (cond != nil && !cond(item)) {
+		return nil, false
+	}
+
+	delete(shard.items, key)
+	shard.count.Add(-1)
+
+	return item, true
+}
+
 // Has checks if key is present in the map.
 func (cm *ConcurrentMap) Has(key string) bool {
 	// Get shard
-- 
2.43.0


From d90fb5545898cbff1e460378829dbcc55cf137d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 14/48] fix: eviction ranks every held key, counts reads as
 uses and never loses the key just stored

---
 hypercache_eviction.go | 31 +++++++++++++++++++++++++++++--
 hypercache_io.go       | 30 ++++++++++++------------------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..86fda93 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -40,18 +40,22 @@ func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error
 		return err
 	}
 
+	// the algorithm has to know every key the cache may hold, however few of
+	// them a single eviction run may remove
+	algorithmCapacity := max(maxEvictionCount, hc.backend.Capacity())
+
 	algorithmName := hc.evictionAlgorithmName
 	if algorithmName == "" {
 		algorithmName = "lru"
 	}
 
 	if hc.evictionShardCount > 1 {
-		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, maxEvictionCount, hc.evictionShardCount)
+		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, algorithmCapacity, hc.evictionShardCount)
 
 		return err
 	}
 
-	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, maxEvictionCount)
+	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, algorithmCapacity)
 
 	return err
 }
@@ -175,6 +179,29 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
+// track hands a stored key to the eviction algorithm and, when eviction is
+// immediate, evicts down to the capacity. For a new key the room is made first:
+// otherwise a full algorithm would forget an older key that the cache still
+// holds, or choose the new key itself.
+func (hyperCache *HyperCache[T]) track(ctx context.Context, key string, value any, replaced bool) {
+	if !replaced {
+		hyperCache.evictExcess(ctx)
+	}
+
+	hyperCache.evictionAlgorithm.Set(key, value)
+	hyperCache.evictExcess(ctx)
+}
+
+// evictExcess evicts until the cache is within its capacity, if eviction is immediate.
+func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context) {
+	for hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
+		_, ok := hyperCache.evictItem(ctx)
+		if !ok {
+			return
+		}
+	}
+}
+
 // evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
 // If no item can be evicted, it returns a false.
 func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
diff --git a/hypercache_io.go b/hypercache_io.go
index 2a37514..d18e8f4 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,19 +31,14 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	err = hyperCache.store(ctx, item)
+	replaced, err := hyperCache.store(ctx, item)
 	if err != nil {
 		return err
 	}
 
 	// Set the item in the eviction algorithm. The algorithm protects its own
 	// state internally; no outer lock needed.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
-
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
+	hyperCache.track(ctx, key, value, replaced)
 
 	return nil
 }
@@ -51,7 +46,8 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 // store inserts a sized item into the backend unless it would exceed the
 // maximum cache size, and keeps the allocation equal to the size of the items
 // held: a refused item leaves it as it was, a replaced one is taken off it.
-func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+// It reports whether an item was replaced.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) (bool, error) {
 	key, size := item.Key, item.Size // the backend may recycle an item it refuses
 
 	exchange, exchanges := hyperCache.backend.(exchangeBackend)
@@ -71,7 +67,7 @@ func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) er
 			hyperCache.memoryAllocation.Add(-size)
 			hyperCache.itemPoolManager.Put(item)
 
-			return sentinel.ErrCacheFull
+			return false, sentinel.ErrCacheFull
 		}
 	}
 
@@ -90,14 +86,14 @@ func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) er
 		hyperCache.memoryAllocation.Add(-size)
 		hyperCache.itemPoolManager.Put(item)
 
-		return err
+		return false, err
 	}
 
 	if replaced != nil {
 		hyperCache.memoryAllocation.Add(-replaced.Size)
 	}
 
-	return nil
+	return replaced != nil, nil
 }
 
 // Get retrieves the item with the given key from the cache returning the value and a boolean indicating if the item was found.
@@ -181,7 +177,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	err = hyperCache.store(ctx, item)
+	replaced, err := hyperCache.store(ctx, item)
 	if err != nil {
 		return nil, err
 	}
@@ -190,12 +186,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	// goroutine had no panic recovery, no shutdown coordination with Stop(),
 	// and let the caller observe a key whose eviction tracking had not yet
 	// been recorded. The algorithm's own internal mutex provides safety.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
-
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
+	hyperCache.track(ctx, key, value, replaced)
 
 	return value, nil
 }
@@ -242,6 +233,9 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 	}
 
 	item.Touch()
+
+	// a read is a use: without it LRU and LFU would rank keys by writes alone
+	hyperCache.evictionAlgorithm.Get(key)
 }
 
 // List lists the items in the cache that meet the specified criteria.
-- 
2.43.0


From 123de1c5ebfbaaeebad50f9e65a103822324490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 15/48] fix: an expiration trigger racing with a pass no longer
 disables later triggers

---
 hypercache_expiration.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..46c5e89 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -46,19 +46,10 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		// scheduled expiration
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
-		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
+		// manual/coalesced trigger: accept the next one before this pass starts,
+		// so that a trigger is either covered by this pass or queued for another
 		hyperCache.expirationSignalPending.Store(false)
-
-		// drain any queued triggers quickly
-		for draining := true; draining; {
-			select {
-			case <-hyperCache.expirationTriggerCh:
-				// keep draining
-			default:
-				draining = false
-			}
-		}
+		hyperCache.expirationLoop(ctx)
 
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
-- 
2.43.0


From cd70682504d5b55c7d6aa76862160ba1f69300ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 16/48] fix: an item stored or read anew during an expiration
 pass is not purged

---
 hypercache_expiration.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 46c5e89..0b4dbc5 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -132,13 +132,17 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
+			removed, err := hyperCache.removeExpired(ctx, item.Key)
 			if err != nil {
 				return err
 			}
 
+			if !removed { // stored anew or read since the listing
+				continue
+			}
+
+			expiredCount++
+
 			hyperCache.itemPoolManager.Put(item)
 			hyperCache.StatsCollector.Incr("item_expired_count", 1)
 		}
@@ -169,5 +173,16 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 	})
 }
 
+// removeExpired removes the item with the given key if it is still expired.
+// Backends that cannot decide and remove in one step just remove it.
+func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	exchange, ok := hyperCache.backend.(exchangeBackend)
+	if !ok {
+		return true, hyperCache.Remove(ctx, key)
+	}
+
+	return hyperCache.removeIf(ctx, exchange, key, (*cache.Item).Expired), nil
+}
+
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
 func (hyperCache *HyperCache[T]) TriggerExpiration() { hyperCache.execTriggerExpiration() }
-- 
2.43.0


From f6e6e2a448fd14659147a14cdb09f77e11ba9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:19 +0000
Subject: [PATCH 17/48] fix: concurrent get-or-set calls agree on one stored
 value

---
 hypercache.go           |  1 +
 hypercache_io.go        | 75 +++++++++++++++++++++++++----------------
 pkg/backend/inmemory.go | 13 +++++++
 pkg/cache/v2/cmap.go    | 21 ++++++++++++
 4 files changed, 81 insertions(+), 29 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 9e19b8d..d770ae6 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -93,6 +93,7 @@ type touchBackend interface {
 // the items held even when several callers store and remove the same key.
 type exchangeBackend interface {
 	Swap(ctx context.Context, item *cache.Item) (*cache.Item, error)
+	SetIfAbsent(ctx context.Context, item *cache.Item) (*cache.Item, error)
 	PopIf(ctx context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool)
 }
 
diff --git a/hypercache_io.go b/hypercache_io.go
index d18e8f4..b24ba64 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,14 +31,14 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	replaced, err := hyperCache.store(ctx, item)
+	replaced, err := hyperCache.store(ctx, item, false)
 	if err != nil {
 		return err
 	}
 
 	// Set the item in the eviction algorithm. The algorithm protects its own
 	// state internally; no outer lock needed.
-	hyperCache.track(ctx, key, value, replaced)
+	hyperCache.track(ctx, key, value, replaced != nil)
 
 	return nil
 }
@@ -46,8 +46,8 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 // store inserts a sized item into the backend unless it would exceed the
 // maximum cache size, and keeps the allocation equal to the size of the items
 // held: a refused item leaves it as it was, a replaced one is taken off it.
-// It reports whether an item was replaced.
-func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) (bool, error) {
+// It returns the item held before, which with onlyIfAbsent is still held.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item, onlyIfAbsent bool) (*cache.Item, error) {
 	key, size := item.Key, item.Size // the backend may recycle an item it refuses
 
 	exchange, exchanges := hyperCache.backend.(exchangeBackend)
@@ -67,18 +67,21 @@ func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) (b
 			hyperCache.memoryAllocation.Add(-size)
 			hyperCache.itemPoolManager.Put(item)
 
-			return false, sentinel.ErrCacheFull
+			return nil, sentinel.ErrCacheFull
 		}
 	}
 
 	var (
-		replaced *cache.Item
-		err      error
+		held *cache.Item
+		err  error
 	)
 
-	if exchanges {
-		replaced, err = exchange.Swap(ctx, item)
-	} else {
+	switch {
+	case exchanges && onlyIfAbsent:
+		held, err = exchange.SetIfAbsent(ctx, item)
+	case exchanges:
+		held, err = exchange.Swap(ctx, item)
+	default:
 		err = hyperCache.backend.Set(ctx, item)
 	}
 
@@ -86,14 +89,18 @@ func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) (b
 		hyperCache.memoryAllocation.Add(-size)
 		hyperCache.itemPoolManager.Put(item)
 
-		return false, err
+		return nil, err
 	}
 
-	if replaced != nil {
-		hyperCache.memoryAllocation.Add(-replaced.Size)
+	switch {
+	case held == nil:
+	case onlyIfAbsent:
+		hyperCache.memoryAllocation.Add(-size)
+	default:
+		hyperCache.memoryAllocation.Add(-held.Size)
 	}
 
-	return replaced != nil, nil
+	return held, nil
 }
 
 // Get retrieves the item with the given key from the cache returning the value and a boolean indicating if the item was found.
@@ -148,19 +155,7 @@ func (hyperCache *HyperCache[T]) GetWithInfo(ctx context.Context, key string) (*
 func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value any, expiration time.Duration) (any, error) {
 	// if the item is found, return the value
 	if item, ok := hyperCache.backend.Get(ctx, key); ok {
-		// Check if the item has expired
-		if item.Expired() {
-			// Non-blocking trigger of expiration loop; don't pool here to avoid zeroing live refs
-			// Coalesced/debounced trigger
-			hyperCache.execTriggerExpiration()
-
-			return nil, sentinel.ErrKeyExpired
-		}
-
-		// Update the last access time and access count
-		hyperCache.touchItem(ctx, key, item)
-
-		return item.Value, nil
+		return hyperCache.useHeld(ctx, key, item)
 	}
 
 	// if the item is not found, add it to the cache
@@ -177,20 +172,42 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	replaced, err := hyperCache.store(ctx, item)
+	held, err := hyperCache.store(ctx, item, true)
 	if err != nil {
 		return nil, err
 	}
 
+	// somebody else added the key meanwhile: theirs is the value of record
+	if held != nil {
+		return hyperCache.useHeld(ctx, key, held)
+	}
+
 	// Set the item in the eviction algorithm synchronously. The previous bare
 	// goroutine had no panic recovery, no shutdown coordination with Stop(),
 	// and let the caller observe a key whose eviction tracking had not yet
 	// been recorded. The algorithm's own internal mutex provides safety.
-	hyperCache.track(ctx, key, value, replaced)
+	hyperCache.track(ctx, key, value, false)
 
 	return value, nil
 }
 
+// useHeld returns the value of an item GetOrSet found in the cache.
+func (hyperCache *HyperCache[T]) useHeld(ctx context.Context, key string, item *cache.Item) (any, error) {
+	// Check if the item has expired
+	if item.Expired() {
+		// Non-blocking trigger of expiration loop; don't pool here to avoid zeroing live refs
+		// Coalesced/debounced trigger
+		hyperCache.execTriggerExpiration()
+
+		return nil, sentinel.ErrKeyExpired
+	}
+
+	// Update the last access time and access count
+	hyperCache.touchItem(ctx, key, item)
+
+	return item.Value, nil
+}
+
 // GetMultiple retrieves the items with the given keys from the cache.
 func (hyperCache *HyperCache[T]) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
 	result := make(map[string]any, len(keys))   // Preallocate the result map
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index 35b8974..6d615a8 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -96,6 +96,19 @@ func (cacheBackend *InMemory) Swap(_ context.Context, item *cache.Item) (*cache.
 	return replaced, nil
 }
 
+// SetIfAbsent stores an item like Set unless its key is present, in which case
+// it returns a copy of the item held and stores nothing.
+func (cacheBackend *InMemory) SetIfAbsent(_ context.Context, item *cache.Item) (*cache.Item, error) {
+	err := item.Valid()
+	if err != nil {
+		return nil, err
+	}
+
+	held, _ := cacheBackend.items.SetIfAbsent(item.Key, item)
+
+	return held, nil
+}
+
 // PopIf removes the item with the given key and returns it if cond (nil: always)
 // holds for it, deciding and removing in one step.
 func (cacheBackend *InMemory) PopIf(_ context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool) {
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index 1e9e284..7632885 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -167,6 +167,27 @@ func (cm *ConcurrentMap) Swap(key string, value *Item) (*Item, bool) {
 	return replaced, existed
 }
 
+// SetIfAbsent stores value under key unless the key is present, in which case
+// it returns a copy of the item held and false.
+func (cm *ConcurrentMap) SetIfAbsent(key string, value *Item) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	if held, ok := shard.items[key]; ok {
+		cloned := *held
+
+		return &cloned, false
+	}
+
+	shard.count.Add(1)
+
+	shard.items[key] = value
+
+	return nil, true
+}
+
 // PopIf removes the item under key and returns it if cond holds for it. A nil
 // cond always holds. The decision and the removal are one step.
 func (cm *ConcurrentMap) PopIf(key string, cond func(*Item) bool) (*Item, bool) {
-- 
2.43.0


From c0f354d30402f01344959aa99393924493abe2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 18/48] fix: listing can be sorted by size, as the sort fields
 promise

---
 pkg/backend/filters.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/backend/filters.go b/pkg/backend/filters.go
index 269a1a1..ce6261f 100644
--- a/pkg/backend/filters.go
+++ b/pkg/backend/filters.go
@@ -67,6 +67,14 @@ func (f sortByFilter) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item,
 			},
 		}
 
+	case constants.SortBySize.String():
+		sorter = &itemSorter{
+			items: items,
+			less: func(i, j *cache.Item) bool {
+				return i.Size < j.Size
+			},
+		}
+
 	case constants.SortByLastAccess.String():
 		sorter = &itemSorter{
 			items: items,
-- 
2.43.0


From a3fa8c3a3adee22838ae81240bdc89051d3198f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:50 +0000
Subject: [PATCH 19/48] fix: concurrent evictions do not remove more items than
 needed

---
 hypercache.go          |  1 +
 hypercache_eviction.go | 52 ++++++++++++++++++++----------------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index d770ae6..afe90b7 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -64,6 +64,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	expirationInterval         time.Duration       // interval for expiration loop
 	evictionInterval           time.Duration       // interval for eviction loop
 	shouldEvict                atomic.Bool         // proactive eviction enabled
+	evictMu                    sync.Mutex          // serializes evictions, so that none removes more than needed
 	maxEvictionCount           uint                // max items per eviction run
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
 	memoryAllocation           atomic.Int64        // current memory usage (bytes)
diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 86fda93..a22e288 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -110,27 +110,16 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		var evictedCount uint
 
-		for hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-			if hyperCache.maxEvictionCount == evictedCount {
-				break
+		for hyperCache.maxEvictionCount != evictedCount {
+			evicted, err := hyperCache.evictIfOver(ctx)
+			if err != nil {
+				return err
 			}
 
-			// Each eviction algorithm provides its own internal mutex; no
-			// outer lock needed. The Evict() -> Remove() window below is
-			// already non-atomic by design (other workers may insert items
-			// between the two calls); a wider lock would not change that.
-			key, ok := hyperCache.evictionAlgorithm.Evict()
-			if !ok {
-				// no more items to evict
+			if !evicted {
 				break
 			}
 
-			// remove the item from the cache
-			err := hyperCache.Remove(ctx, key)
-			if err != nil {
-				return err
-			}
-
 			evictedCount++
 
 			hyperCache.StatsCollector.Incr("item_evicted_count", 1)
@@ -194,29 +183,38 @@ func (hyperCache *HyperCache[T]) track(ctx context.Context, key string, value an
 
 // evictExcess evicts until the cache is within its capacity, if eviction is immediate.
 func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context) {
-	for hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		_, ok := hyperCache.evictItem(ctx)
-		if !ok {
+	for hyperCache.shouldEvict.Load() {
+		evicted, err := hyperCache.evictIfOver(ctx)
+		if err != nil || !evicted {
 			return
 		}
 	}
 }
 
-// evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
-// If no item can be evicted, it returns a false.
-func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
+// evictIfOver evicts one item if the cache holds more than its capacity. The
+// count is checked again under the lock: two evictions deciding on the same
+// excess would remove one item too many.
+func (hyperCache *HyperCache[T]) evictIfOver(ctx context.Context) (bool, error) {
+	if hyperCache.backend.Count(ctx) <= hyperCache.backend.Capacity() {
+		return false, nil
+	}
+
+	hyperCache.evictMu.Lock()
+	defer hyperCache.evictMu.Unlock()
+
+	if hyperCache.backend.Count(ctx) <= hyperCache.backend.Capacity() {
+		return false, nil
+	}
+
 	key, ok := hyperCache.evictionAlgorithm.Evict()
 	if !ok {
 		// no more items to evict
-		return "", false
+		return false, nil
 	}
 
 	err := hyperCache.Remove(ctx, key)
-	if err != nil {
-		return "", false
-	}
 
-	return key, true
+	return err == nil, err
 }
 
 // SetCapacity sets the capacity of the cache. If the new capacity is smaller than the current number of items in the cache,
-- 
2.43.0


From 09c76427c858a00fdb914e091aa5dcb4d6e2ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 20/48] fix: keep the newer copy when copies and deletes of a
 key arrive in any order

A replica, hint, repair, migration or anti-entropy copy overwrote whatever
the node held, tombstones were neither consulted nor cleared and their map
was unsynchronised, and a promoted or repeated write could be versioned below
an existing copy or delete.
---
 pkg/backend/dist_memory.go | 150 ++++++++++++++++++++++++++++++-------
 1 file changed, 124 insertions(+), 26 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..1ac8a14 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -365,6 +365,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
 type distShard struct {
 	items             cache.ConcurrentMap
+	mu                sync.Mutex                  // guards tombs and makes compare-then-store on items one step
 	tombs             map[string]tombstone        // per-key tombstones
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
@@ -1194,6 +1195,9 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 
 	sh := dm.shardFor(it.Key)
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
 	delete(sh.tombs, it.Key)
 	sh.items.Set(it.Key, it)
 }
@@ -1875,37 +1879,40 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
-			return
-		}
-
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
-
-			nextVer := cur.Version + 1
-
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+		if sh.adoptDelete(key, string(dm.localNode.ID)) {
 			dm.metrics.tombstonesActive.Store(dm.countTombstones())
 		}
 
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
-			return
-		}
+	// The version comparison (against both the local copy and any local
+	// tombstone) happens inside applySet, atomically with the store.
+	if dm.applySet(ctx, it, false) {
+		dm.metrics.merkleKeysPulled.Add(1)
+	}
+}
 
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
-		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+// adoptDelete replaces the local copy of key (if any) with a tombstone one
+// version above it. Reports whether a tombstone was created.
+func (sh *distShard) adoptDelete(key, origin string) bool {
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
+	if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
+		return false
 	}
 
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
-		dm.applySet(ctx, it, false)
-		dm.metrics.merkleKeysPulled.Add(1)
+	cur, ok := sh.items.Get(key)
+	if !ok {
+		return false
 	}
+
+	sh.items.Remove(key)
+
+	sh.tombs[key] = tombstone{version: cur.Version + 1, origin: origin, at: time.Now()}
+
+	return true
 }
 
 // merkleEntries gathers key/version pairs from all shards.
@@ -1921,9 +1928,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
+		shard.mu.Lock()
+
 		for k, ts := range shard.tombs { // include tombstones
 			entries = append(entries, merkleKV{k: k, v: ts.version})
 		}
+
+		shard.mu.Unlock()
 	}
 
 	return entries
@@ -1974,6 +1985,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.mu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1981,6 +1994,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.mu.Unlock()
 	}
 
 	return purged
@@ -1995,7 +2010,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.mu.Lock()
+
 		total += int64(len(sh.tombs))
+
+		sh.mu.Unlock()
 	}
 
 	return total
@@ -3862,7 +3881,7 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 	}
 
 	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
+	item.Version = dm.nextVersion(item.Key)
 	item.Origin = string(dm.localNode.ID)
 	item.LastUpdated = time.Now()
 	dm.applySet(ctx, item, false)
@@ -4496,7 +4515,12 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// A copy older than the one already held — or not newer than a local
+// tombstone — is not stored: copies travel by fan-out, hints, read repair,
+// migration and anti-entropy and may arrive in any order. Reports whether
+// the copy was stored.
+func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) bool {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4517,17 +4541,25 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned := *item
 
 	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
+	stored, clearedTomb := sh.storeNewer(&cloned)
+
+	// Keep the local clock at or above every version seen, so that a later
+	// local write (e.g. after this replica promotes itself) is newer.
+	dm.observeVersion(cloned.Version)
+
+	if clearedTomb {
+		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	}
 
 	if !replicate || dm.ring == nil {
-		return
+		return stored
 	}
 
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
 	if len(owners) <= 1 || transport == nil {
-		return
+		return stored
 	}
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
@@ -4539,6 +4571,64 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
 	}
+
+	return stored
+}
+
+// storeNewer installs item unless the shard holds a newer copy of the key
+// or a tombstone at the item's version or above. A tombstone below the
+// item's version is cleared: the key was written again after the delete.
+func (sh *distShard) storeNewer(item *cache.Item) (stored, clearedTomb bool) {
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
+	if tomb, hasTomb := sh.tombs[item.Key]; hasTomb {
+		if tomb.version >= item.Version {
+			return false, false
+		}
+
+		delete(sh.tombs, item.Key)
+
+		clearedTomb = true
+	}
+
+	if cur, ok := sh.items.Get(item.Key); ok && isHigherVersion(cur, item) {
+		return false, clearedTomb
+	}
+
+	sh.items.Set(item.Key, item)
+
+	return true, clearedTomb
+}
+
+// nextVersion allocates the version of a write coordinated by this node:
+// above every version this node has issued or seen, including the held copy
+// of the key and its tombstone, so the write supersedes both everywhere.
+func (dm *DistMemory) nextVersion(key string) uint64 {
+	sh := dm.shardFor(key)
+
+	sh.mu.Lock()
+
+	seen := sh.tombs[key].version
+	if cur, ok := sh.items.Get(key); ok {
+		seen = max(seen, cur.Version)
+	}
+
+	sh.mu.Unlock()
+
+	dm.observeVersion(seen)
+
+	return dm.versionCounter.Add(1)
+}
+
+// observeVersion raises the local version counter to at least v.
+func (dm *DistMemory) observeVersion(v uint64) {
+	for {
+		cur := dm.versionCounter.Load()
+		if cur >= v || dm.versionCounter.CompareAndSwap(cur, v) {
+			return
+		}
+	}
 }
 
 // replicateSetWithSpan opens a child span around a single replica
@@ -4612,6 +4702,8 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	// capture version from existing item (if any) and increment for tombstone
 	var nextVer uint64
 
+	sh.mu.Lock()
+
 	if it, ok := sh.items.Get(key); ok && it != nil {
 		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
 
@@ -4622,9 +4714,15 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 		nextVer = dm.tombVersionCounter.Add(1)
 	}
 
+	// Deleting again must not weaken an earlier delete of the same key.
+	nextVer = max(nextVer, sh.tombs[key].version)
+
 	sh.items.Remove(key)
 
 	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+
+	sh.mu.Unlock()
+
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
 
 	transport := dm.loadTransport()
-- 
2.43.0


From 90b3d4b06118fcf2767b88a523bc652b450fb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 21/48] fix: version and quorum-check a client write forwarded
 to its primary

The forwarded write was stored with version 0 and no origin, its replication
was fire-and-forget (no hints) and success was reported regardless of acks.
---
 pkg/backend/dist_http_server.go    |  5 ++-
 pkg/backend/dist_http_transport.go |  7 +++++
 pkg/backend/dist_memory.go         | 50 ++++++++++++++++++++++++++----
 pkg/backend/dist_transport.go      |  4 +--
 4 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..93a1ab6 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,10 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	err := dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	if err != nil {
+		return fctx.Status(fiber.StatusServiceUnavailable).JSON(httpSetResponse{Error: err.Error()})
+	}
 
 	return fctx.JSON(httpSetResponse{})
 }
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..ec09341 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -203,6 +203,13 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 			return ewrap.Wrap(rerr, "read error body")
 		}
 
+		var setResp httpSetResponse
+
+		decErr := json.Unmarshal(errBody, &setResp)
+		if decErr == nil && setResp.Error == sentinel.ErrQuorumFailed.Error() {
+			return sentinel.ErrQuorumFailed
+		}
+
 		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
 	}
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 1ac8a14..dab39f0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3690,6 +3690,12 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 		return false, nil
 	}
 
+	// The primary was reached and coordinated the write itself: its verdict
+	// stands, promoting would only write the key a second time.
+	if errors.Is(errFwd, sentinel.ErrQuorumFailed) {
+		return false, errFwd
+	}
+
 	// Primary unreachable for any reason — try to promote to a replica
 	// owner. The local node must be in owners[1:] AND still recognize
 	// itself as an owner (defensive against a stale ring snapshot
@@ -3880,6 +3886,23 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		promoted = true
 	}
 
+	acks, err := dm.coordinateSet(ctx, item, owners, promoted)
+
+	span.SetAttributes(attribute.Int("dist.acks", acks))
+
+	return err
+}
+
+// coordinateSet performs a client write as the coordinator of its key:
+// versions it, stores it locally, replicates it to the other owners and
+// enforces the write consistency level. Returns the number of owners that
+// acknowledged the write.
+func (dm *DistMemory) coordinateSet(
+	ctx context.Context,
+	item *cache.Item,
+	owners []cluster.NodeID,
+	promoted bool,
+) (int, error) {
 	// primary path: assign version & timestamp
 	item.Version = dm.nextVersion(item.Key)
 	item.Origin = string(dm.localNode.ID)
@@ -3901,16 +3924,14 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 	acks := 1 + dm.replicateTo(ctx, item, replicas)
 	dm.metrics.writeAcks.Add(int64(acks))
 
-	span.SetAttributes(attribute.Int("dist.acks", acks))
-
 	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
 	if acks < needed {
 		dm.metrics.writeQuorumFailures.Add(1)
 
-		return sentinel.ErrQuorumFailed
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return nil
+	return acks, nil
 }
 
 // removeImpl is the business logic for Remove. Mirrors setImpl's
@@ -4497,14 +4518,31 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// A client write forwarded by a non-primary node arrives with replicate set
+// and no version yet (versions start at 1): it is coordinated here exactly
+// like a write issued on this node, so it is versioned, hinted on replica
+// failure and subject to the write consistency level, whose verdict is
+// returned to the forwarder.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		return nil
+	}
+
+	if replicate && item.Version == 0 {
+		owners := dm.lookupOwners(item.Key)
+		if len(owners) > 0 {
+			_, err := dm.coordinateSet(ctx, item, owners, owners[0] != dm.localNode.ID)
+
+			return err
+		}
 	}
 
 	dm.applySet(ctx, item, replicate)
+
+	return nil
 }
 
 // applySet stores item locally and optionally replicates to other owners.
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..e6e9df2 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -151,9 +151,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
-- 
2.43.0


From 91d23083fbc22ae2d5ab1e4cc892a350f0adcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 22/48] fix: refute a suspicion at an incarnation above the
 claim's

---
 internal/cluster/membership.go | 9 ++++++++-
 pkg/backend/dist_memory.go     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 8934fb1..b3b0f4a 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -208,6 +208,13 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 // alive but the explicit assignment guards against odd states the
 // local view might be holding.
 func (m *Membership) Refute(id NodeID) bool {
+	return m.RefuteClaim(id, 0)
+}
+
+// RefuteClaim refutes a Suspect/Dead claim made at the given incarnation:
+// like Refute, but the published incarnation is also above the claim's, so
+// that members which adopted the claim adopt the refutation.
+func (m *Membership) RefuteClaim(id NodeID, claimed uint64) bool {
 	m.mu.Lock()
 
 	n, ok := m.nodes[id]
@@ -217,7 +224,7 @@ func (m *Membership) Refute(id NodeID) bool {
 		return false
 	}
 
-	n.Incarnation++
+	n.Incarnation = max(n.Incarnation, claimed) + 1
 
 	ownershipChanged := n.State == NodeDead
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index dab39f0..0b322e6 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3553,7 +3553,7 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
+	dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation)
 
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
-- 
2.43.0


From 6b40b741431c4e9d23ea339e2889aca7602ad727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 23/48] fix: a duplicate key does not truncate a full key
 listing

---
 pkg/backend/dist_keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..f7a26d9 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -108,6 +108,10 @@ func (a *listKeysAccumulator) tryAdd(keys []string) {
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
+		if _, seen := a.dedup[k]; seen { // already listed: nothing left out
+			continue
+		}
+
 		if len(a.dedup) >= a.maxKeys {
 			a.truncated = true
 
-- 
2.43.0


From 32a6482e391f341401efc3d93cf4157c7ca40e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 24/48] fix: keep hint totals in step when a full queue rejects
 a hint

---
 pkg/backend/dist_memory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0b322e6..970c842 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2987,12 +2987,19 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		dropped := queue[0]
 
 		queue = queue[1:]
+		// Publish the shortened queue before the global caps below may
+		// return: totals and queues must agree whether or not the new
+		// hint is accepted.
+		dm.hints[nodeID] = queue
 
 		dm.adjustHintAccounting(-1, -dropped.size)
 	}
 
 	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
+		bytesNow := dm.hintBytes
+
 		dm.hintsMu.Unlock()
+		dm.metrics.hintedBytes.Store(bytesNow)
 		dm.metrics.hintedGlobalDropped.Add(1)
 
 		if source == hintSourceMigration {
-- 
2.43.0


From 3390c9d6f3fa293c4e52bdb0e21576b19c039586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 25/48] fix: anti-entropy pulls missing keys over every
 transport and past the listing cap

---
 pkg/backend/dist_memory.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 970c842..e759f9d 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1751,18 +1751,21 @@ func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, ent
 		return missing
 	}
 
-	httpT, ok := dm.loadTransport().(*DistHTTPTransport)
-	if !ok {
+	// Every transport other than the bare in-process one (whose peers were
+	// enumerated above) is asked over the wire: HTTP, but also any wrapper
+	// around a transport, e.g. the chaos one.
+	transport := dm.loadTransport()
+	if transport == nil {
 		return missing
 	}
 
-	keys, kerr := httpT.ListKeys(ctx, nodeID, "")
-	if kerr != nil || len(keys) == 0 {
+	if _, inProcess := transport.(*InProcessTransport); inProcess {
 		return missing
 	}
 
-	if dm.listKeysMax > 0 && len(keys) > dm.listKeysMax { // cap enforcement
-		keys = keys[:dm.listKeysMax]
+	keys, kerr := transport.ListKeys(ctx, nodeID, "")
+	if kerr != nil || len(keys) == 0 {
+		return missing
 	}
 
 	mset := make(map[string]struct{}, len(keys))
@@ -1774,6 +1777,16 @@ func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, ent
 		delete(mset, e.k)
 	}
 
+	// Cap enforcement, on the keys that are left to pull: capping the listing
+	// itself would keep returning keys already held and never reach the rest.
+	for k := range mset {
+		if dm.listKeysMax <= 0 || len(mset) <= dm.listKeysMax {
+			break
+		}
+
+		delete(mset, k)
+	}
+
 	// track number of remote-only keys discovered via fallback
 	if len(mset) > 0 {
 		dm.metrics.merkleKeysPulled.Add(int64(len(mset)))
@@ -1842,7 +1855,7 @@ func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) m
 		return missing
 	}
 
-	remote, ok := ip.backends[nodeID]
+	remote, ok := ip.lookup(nodeID)
 	if !ok {
 		return missing
 	}
@@ -3474,7 +3487,7 @@ func (dm *DistMemory) runGossipTick() {
 	// transport's Gossip method, which routes via HTTP for the
 	// auto-created DistHTTPTransport.
 	if ip, ok := transport.(*InProcessTransport); ok {
-		if remote, ok2 := ip.backends[string(target.ID)]; ok2 {
+		if remote, ok2 := ip.lookup(string(target.ID)); ok2 {
 			remote.acceptGossip(snapshot)
 		}
 
-- 
2.43.0


From 550f50a28b1fd969ce407c8f2384432345b6e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 26/48] fix: anti-entropy does not infer a delete from a peer
 that does not own the key

---
 pkg/backend/dist_memory.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e759f9d..69f9228 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1892,6 +1892,10 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
+		if dm.knownNonOwner(nodeID, key) { // not expected to hold the key: its absence says nothing
+			return
+		}
+
 		if sh.adoptDelete(key, string(dm.localNode.ID)) {
 			dm.metrics.tombstonesActive.Store(dm.countTombstones())
 		}
@@ -1906,6 +1910,21 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	}
 }
 
+// knownNonOwner reports whether nodeID is a cluster member that, in the local
+// view, does not own key.
+func (dm *DistMemory) knownNonOwner(nodeID, key string) bool {
+	if dm.ring == nil || dm.membership == nil {
+		return false
+	}
+
+	id := cluster.NodeID(nodeID)
+	if slices.Contains(dm.ring.Lookup(key), id) {
+		return false
+	}
+
+	return slices.ContainsFunc(dm.membership.List(), func(n *cluster.Node) bool { return n.ID == id })
+}
+
 // adoptDelete replaces the local copy of key (if any) with a tombstone one
 // version above it. Reports whether a tombstone was created.
 func (sh *distShard) adoptDelete(key, origin string) bool {
-- 
2.43.0


From b5540899a33bc9e6af54cc1a620761f3ca3bcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 27/48] fix: decode the expiration of a forwarded read in the
 unit it is sent in

---
 pkg/backend/dist_http_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index ec09341..ae0779b 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -292,7 +292,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  time.Duration(mirror.Expiration), // cache.Item marshals it in nanoseconds
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-- 
2.43.0


From 4c5ba006f197efa266643fcf967be4ce09ae901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 28/48] fix: migration keeps a copy that was neither delivered
 nor queued

Losing the primary role is now noticed for every owner and every change, and
a replayed migration is fanned out to the replicas of the new primary.
---
 pkg/backend/dist_memory.go | 61 ++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 69f9228..67d7abe 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2186,7 +2186,23 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return false
 	}
 
-	return prevPrimary == dm.localNode.ID && curPrimary != dm.localNode.ID
+	if curPrimary == dm.localNode.ID {
+		// Remember that this node has been the primary, so that losing the
+		// role again — even back to a node that had it before and may have
+		// come back empty — is seen as a change.
+		if prevPrimary != curPrimary {
+			sh.originalPrimaryMu.Lock()
+
+			sh.originalPrimary[it.Key] = curPrimary
+			sh.originalPrimaryMu.Unlock()
+		}
+
+		return false
+	}
+
+	// Any owner offers its copy to a new primary: the previous primary may be
+	// gone and is not necessarily this node.
+	return prevPrimary != curPrimary
 }
 
 // replicateNewReplicas scans for keys where this node is still primary but new replica owners were added since first observation.
@@ -2421,9 +2437,8 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// the replay loop will retry on its configured schedule until the
 	// hint TTL expires. Pre-Phase-B this dropped silently — operators
 	// saw vanished keys after a rebalance tick when the new primary
-	// was briefly unreachable. Note: replay calls ForwardSet with
-	// replicate=false; the new primary's own rebalance/replica-diff
-	// scan re-fans-out to its replicas eventually.
+	// was briefly unreachable. Replay asks the new primary to fan the
+	// item out to its replicas, as the direct migration does.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
 	if migrationErr != nil {
 		dm.logger.Info(
@@ -2433,7 +2448,14 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 			slog.Any("err", migrationErr),
 		)
 
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		if !dm.queueHint(string(owners[0]), item, hintSourceMigration) {
+			// Neither delivered nor queued: this copy may be the last one.
+			// Keep it, and the record of the previous primary, so that the
+			// next tick tries again.
+			dm.restartRemovalGrace(item.Key)
+
+			return
+		}
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
@@ -2473,6 +2495,23 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	}
 }
 
+// restartRemovalGrace postpones the shedding of a key whose migration has not
+// been delivered yet.
+func (dm *DistMemory) restartRemovalGrace(key string) {
+	sh := dm.shardFor(key)
+	if dm.removalGracePeriod <= 0 || sh.removedAt == nil {
+		return
+	}
+
+	sh.removedAtMu.Lock()
+
+	if _, exists := sh.removedAt[key]; exists {
+		sh.removedAt[key] = time.Now()
+	}
+
+	sh.removedAtMu.Unlock()
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
@@ -3000,9 +3039,9 @@ func (dm *DistMemory) getWithConsistencyParallel(
 }
 
 // --- Hinted handoff implementation ---.
-func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) { // reduced complexity
+func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) bool { // reduced complexity
 	if dm.hintTTL <= 0 {
-		return
+		return false
 	}
 
 	size := dm.approxHintSize(item)
@@ -3038,7 +3077,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 			dm.metrics.migrationHintDropped.Add(1)
 		}
 
-		return
+		return false
 	}
 
 	cloned := *item
@@ -3067,6 +3106,8 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
 	}
+
+	return true
 }
 
 // approxHintSize estimates the size of a hinted item for global caps.
@@ -3197,7 +3238,9 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 		return 0
 	}
 
-	err := transport.ForwardSet(ctx, nodeID, entry.item, false)
+	// A migrated item is handed to a new primary, which has to fan it out to
+	// its replicas exactly as if the migration had succeeded at once.
+	err := transport.ForwardSet(ctx, nodeID, entry.item, entry.source == hintSourceMigration)
 	if err == nil {
 		dm.metrics.hintedReplayed.Add(1)
 
-- 
2.43.0


From 0b35eb8cae61d770bc0c443b66a81364ce691584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 29/48] fix: replica-diff retries replicas it did not reach and
 notices returning ones

---
 pkg/backend/dist_memory.go | 62 ++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 67d7abe..2b42d33 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2247,6 +2247,7 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		owners := dm.ring.Lookup(it.Key)
 		if len(owners) == 0 || owners[0] != dm.localNode.ID {
 			dm.maybeRecordRemoval(sh, it.Key)
+			dm.shrinkOwnerBaseline(sh, it.Key, owners)
 
 			continue
 		}
@@ -2257,11 +2258,22 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 
 		newRepls := dm.computeNewReplicas(sh, it.Key, owners)
 		if len(newRepls) == 0 {
+			// Owners that left must not stay in the baseline: should they
+			// come back, they are new replicas again.
+			dm.shrinkOwnerBaseline(sh, it.Key, owners)
+
 			continue
 		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, owners)
+		var pending []cluster.NodeID
+
+		processed, pending = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
+
+		// Replicas that were not served stay out of the baseline so the next
+		// tick sees them as new again.
+		dm.setOwnerBaseline(sh, it.Key, slices.DeleteFunc(slices.Clone(owners), func(o cluster.NodeID) bool {
+			return slices.Contains(pending, o)
+		}))
 	}
 
 	return processed
@@ -2318,18 +2330,23 @@ func (dm *DistMemory) sendReplicaDiff(
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) (int, []cluster.NodeID) {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return processed
+		return processed, repls
 	}
 
-	for _, rid := range repls {
+	var pending []cluster.NodeID
+
+	for i, rid := range repls {
 		if rid == dm.localNode.ID {
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if err != nil && !dm.queueHint(string(rid), it, hintSourceReplication) {
+			pending = append(pending, rid)
+		}
 
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
@@ -2339,11 +2356,35 @@ func (dm *DistMemory) sendReplicaDiff(
 		if limit > 0 && processed >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			return processed, append(pending, repls[i+1:]...)
 		}
 	}
 
-	return processed
+	return processed, pending
+}
+
+// shrinkOwnerBaseline drops from the recorded owner set the nodes that are no
+// longer owners.
+func (*DistMemory) shrinkOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
+	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
+
+	gone := func(o cluster.NodeID) bool { return !slices.Contains(owners, o) }
+
+	if prev := sh.originalOwners[key]; slices.ContainsFunc(prev, gone) {
+		sh.originalOwners[key] = slices.DeleteFunc(slices.Clone(prev), gone)
+	}
+}
+
+// forgetBaselineOwner makes oid count as a new replica of key on the next
+// replica-diff scan.
+func (*DistMemory) forgetBaselineOwner(sh *distShard, key string, oid cluster.NodeID) {
+	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
+
+	if prev := sh.originalOwners[key]; slices.Contains(prev, oid) {
+		sh.originalOwners[key] = slices.DeleteFunc(slices.Clone(prev), func(o cluster.NodeID) bool { return o == oid })
+	}
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
@@ -4689,7 +4730,10 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 			continue
 		}
 
-		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
+		err := dm.replicateSetWithSpan(ctx, transport, oid, item)
+		if err != nil && !dm.queueHint(string(oid), item, hintSourceReplication) {
+			dm.forgetBaselineOwner(sh, stableKey, oid)
+		}
 	}
 
 	return stored
-- 
2.43.0


From 5e2ca9141bf545b51b2eccaab05b50d9f93029b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 30/48] fix: forward a client write to its primary without a
 stale version

---
 pkg/backend/dist_memory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 2b42d33..c1a6464 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3808,7 +3808,14 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
+	// The primary assigns the version; an item read from the cache and set
+	// again must not travel as if it were a copy of the old write.
+	fwd := *item
+
+	fwd.Version = 0
+	fwd.Origin = ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &fwd, true)
 	if errFwd == nil {
 		return false, nil
 	}
-- 
2.43.0


From ef78df01f055b53756d222e8acad965eb932592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 31/48] fix: forget the placement record of a copy that is
 released or deleted

---
 pkg/backend/dist_memory.go | 42 ++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c1a6464..dd88f4e 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1159,6 +1159,7 @@ func (dm *DistMemory) Clear(ctx context.Context) error {
 	go func() {
 		for _, s := range dm.shards {
 			s.items.Clear()
+			s.clearPlacement()
 		}
 
 		close(done)
@@ -2182,15 +2183,11 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 	prevPrimary, hadPrev := sh.originalPrimary[it.Key]
 	sh.originalPrimaryMu.RUnlock()
 
-	if !hadPrev { // no historical record
-		return false
-	}
-
 	if curPrimary == dm.localNode.ID {
 		// Remember that this node has been the primary, so that losing the
 		// role again — even back to a node that had it before and may have
 		// come back empty — is seen as a change.
-		if prevPrimary != curPrimary {
+		if hadPrev && prevPrimary != curPrimary {
 			sh.originalPrimaryMu.Lock()
 
 			sh.originalPrimary[it.Key] = curPrimary
@@ -2202,7 +2199,8 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 
 	// Any owner offers its copy to a new primary: the previous primary may be
 	// gone and is not necessarily this node.
-	return prevPrimary != curPrimary
+	// A copy without a record has not been compared with any owner yet.
+	return !hadPrev || prevPrimary != curPrimary
 }
 
 // replicateNewReplicas scans for keys where this node is still primary but new replica owners were added since first observation.
@@ -2532,10 +2530,40 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 			sh.removedAtMu.Unlock()
 		} else {
 			sh.items.Remove(item.Key)
+			sh.forgetPlacement(item.Key)
 		}
 	}
 }
 
+// forgetPlacement drops what the rebalancer recorded about a copy this shard
+// no longer holds. A later copy of the key starts from the owners of its own
+// time: comparing it against the old record would hide that its current owners
+// never received it.
+func (sh *distShard) forgetPlacement(key string) {
+	if sh.originalPrimary != nil {
+		sh.originalPrimaryMu.Lock()
+		delete(sh.originalPrimary, key)
+		sh.originalPrimaryMu.Unlock()
+	}
+
+	if sh.originalOwners != nil {
+		sh.originalOwnersMu.Lock()
+		delete(sh.originalOwners, key)
+		sh.originalOwnersMu.Unlock()
+	}
+}
+
+// clearPlacement is forgetPlacement for every key of the shard.
+func (sh *distShard) clearPlacement() {
+	sh.originalPrimaryMu.Lock()
+	clear(sh.originalPrimary)
+	sh.originalPrimaryMu.Unlock()
+
+	sh.originalOwnersMu.Lock()
+	clear(sh.originalOwners)
+	sh.originalOwnersMu.Unlock()
+}
+
 // restartRemovalGrace postpones the shedding of a key whose migration has not
 // been delivered yet.
 func (dm *DistMemory) restartRemovalGrace(key string) {
@@ -2591,6 +2619,7 @@ func (dm *DistMemory) shedShard(sh *distShard, now time.Time) {
 	for _, k := range dels {
 		if !dm.ownsKeyInternal(k) {
 			sh.items.Remove(k)
+			sh.forgetPlacement(k)
 		}
 	}
 }
@@ -4889,6 +4918,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	nextVer = max(nextVer, sh.tombs[key].version)
 
 	sh.items.Remove(key)
+	sh.forgetPlacement(key)
 
 	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
 
-- 
2.43.0


From 78bd449fbeb8b9bc0cfcc275161fe1044cea7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:27 +0000
Subject: [PATCH 32/48] fix: rebalancing retries and fans out by the placement
 of copies actually held

---
 pkg/backend/dist_memory.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index dd88f4e..e4d94b0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2489,8 +2489,16 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 
 		if !dm.queueHint(string(owners[0]), item, hintSourceMigration) {
 			// Neither delivered nor queued: this copy may be the last one.
-			// Keep it, and the record of the previous primary, so that the
-			// next tick tries again.
+			// Keep it, and forget the previous primary (which may be the
+			// primary again by then, without the copy), so that the next
+			// tick tries again.
+			sh := dm.shardFor(item.Key)
+			if sh.originalPrimary != nil {
+				sh.originalPrimaryMu.Lock()
+				delete(sh.originalPrimary, item.Key)
+				sh.originalPrimaryMu.Unlock()
+			}
+
 			dm.restartRemovalGrace(item.Key)
 
 			return
@@ -4733,13 +4741,16 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	// reads cloned.Key sees the stable value.
 	stableKey := strings.Clone(item.Key)
 
-	dm.recordOriginalPrimary(sh, stableKey)
-
 	cloned := *item
 
 	cloned.Key = stableKey
 	stored, clearedTomb := sh.storeNewer(&cloned)
 
+	// Only a copy that is held has a placement to compare with later.
+	if stored {
+		dm.recordOriginalPrimary(sh, stableKey)
+	}
+
 	// Keep the local clock at or above every version seen, so that a later
 	// local write (e.g. after this replica promotes itself) is newer.
 	dm.observeVersion(cloned.Version)
@@ -4761,7 +4772,9 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
 
-	for _, oid := range owners[1:] { // skip primary
+	// All the other owners, the primary included: this node need not be the
+	// primary when a migrated copy reaches it after another change.
+	for _, oid := range owners {
 		if oid == dm.localNode.ID {
 			continue
 		}
-- 
2.43.0


From 049d19f2f07bb73c2d8aba0732ce33d0ec7f8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:27 +0000
Subject: [PATCH 33/48] verification hooks for the distributed backend (build
 tag verif)

---
 pkg/backend/dist_verif_hooks.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)
 create mode 100644 pkg/backend/dist_verif_hooks.go

diff --git a/pkg/backend/dist_verif_hooks.go b/pkg/backend/dist_verif_hooks.go
new file mode 100644
index 0000000..3c12f6b
--- /dev/null
+++ b/pkg/backend/dist_verif_hooks.go
@@ -0,0 +1,25 @@
+//go:build verif
+
+package backend
+
+import "context"
+
+// VerifRebalance runs one rebalance tick (verification hook).
+func (dm *DistMemory) VerifRebalance(ctx context.Context) { dm.runRebalanceTick(ctx) }
+
+// VerifHeartbeat runs one heartbeat tick (verification hook).
+func (dm *DistMemory) VerifHeartbeat(ctx context.Context) { dm.runHeartbeatTick(ctx) }
+
+// VerifGossip runs one gossip tick (verification hook).
+func (dm *DistMemory) VerifGossip() { dm.runGossipTick() }
+
+// VerifCompactTombstones purges expired tombstones and reports how many
+// (verification hook).
+func (dm *DistMemory) VerifCompactTombstones() int64 { return dm.compactTombstones() }
+
+// VerifFlushRepairs flushes the read-repair queue (verification hook).
+func (dm *DistMemory) VerifFlushRepairs(ctx context.Context) {
+	if dm.repairQueue != nil {
+		dm.repairQueue.flushAll(ctx)
+	}
+}
-- 
2.43.0


From e7984b1ba0ed6ceeebbc55ad9cfe5052ed1d5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:28 +0000
Subject: [PATCH 34/48] fix: keys taken from HTTP requests do not alias
 recycled request buffers

---
 cmd/hypercache-server/main.go   | 5 ++++-
 pkg/backend/dist_http_server.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..42ec072 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -503,7 +503,10 @@ func runClientAPI(
 	logger *slog.Logger,
 ) (*fiber.App, error) {
 	app := fiber.New(fiber.Config{
-		AppName:      "hypercache-server",
+		AppName: "hypercache-server",
+		// Keys taken from a request outlive it (tombstones, hints, eviction
+		// order), so they must not alias the request's recycled buffer.
+		Immutable:    true,
 		ReadTimeout:  clientAPIReadTimeout,
 		WriteTimeout: clientAPIWriteTimeout,
 		IdleTimeout:  clientAPIIdleTimeout,
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 93a1ab6..b70d65c 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -285,6 +285,9 @@ func newDistHTTPServer(addr string, limits DistHTTPLimits, auth DistHTTPAuth) *d
 	limits = limits.withDefaults()
 
 	app := fiber.New(fiber.Config{
+		// Keys taken from a request outlive it (tombstones, hints), so they
+		// must not alias the request's recycled buffer.
+		Immutable:    true,
 		ReadTimeout:  limits.ReadTimeout,
 		WriteTimeout: limits.WriteTimeout,
 		IdleTimeout:  limits.IdleTimeout,
-- 
2.43.0


From cce37f2cb830b3b211e62ef1b61ede4298cff48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:18 +0000
Subject: [PATCH 35/48] fix: stopping a node right after it started also closes
 its listener

---
 management_http.go              | 11 +++++++++--
 pkg/backend/dist_http_server.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/management_http.go b/management_http.go
index d0bb7b7..f495a85 100644
--- a/management_http.go
+++ b/management_http.go
@@ -3,6 +3,7 @@ package hypercache
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync/atomic"
@@ -252,7 +253,7 @@ func (s *ManagementHTTPServer) Start(ctx context.Context, hc managementCache) er
 		// Suppress fiber's startup banner so tests at -count=N do not drown
 		// real failures under hundreds of "INFO Server started on..." lines.
 		serveErr := s.app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true})
-		if serveErr != nil {
+		if serveErr != nil && !errors.Is(serveErr, net.ErrClosed) {
 			// Stash so operators can read it via LastServeError(); a
 			// listener that crashed silently is the worst kind of
 			// production bug.
@@ -288,7 +289,13 @@ func (s *ManagementHTTPServer) Shutdown(ctx context.Context) error {
 		s.lifeCancel()
 	}
 
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to fiber yet, in
+	// which case Shutdown did not see it.
+	_ = s.ln.Close() //nolint:errcheck // usually closed already
+
+	return err
 }
 
 // mountRoutes.
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index b70d65c..62701f4 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -707,7 +707,7 @@ func (s *distHTTPServer) listen(ctx context.Context) error {
 		// which would otherwise flood test output at -count=N (see hundreds
 		// of "INFO Server started on..." lines drowning real failures).
 		serveErr := s.app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true})
-		if serveErr != nil {
+		if serveErr != nil && !errors.Is(serveErr, net.ErrClosed) {
 			// Stash so operators can read it via LastServeError(); a
 			// listener that crashed silently is the worst kind of
 			// production bug. Also surface to the structured logger when
@@ -738,5 +738,12 @@ func (s *distHTTPServer) stop(ctx context.Context) error {
 	// the previous `go func() { ch <- s.app.Shutdown() }()` pattern which
 	// leaked the shutdown goroutine when our ctx fired before fiber
 	// finished draining.
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to fiber yet, in
+	// which case Shutdown did not see it: a stopped node must not go on to
+	// serve on it.
+	_ = s.ln.Close() //nolint:errcheck // usually closed already
+
+	return err
 }
-- 
2.43.0


From abadb5fa9eac6d7c5b35d94bf389da0c48943ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 36/48] fix: of several gossip claims arriving at once the
 highest incarnation stays

---
 internal/cluster/membership.go | 28 ++++++++++++++++++++++++++++
 pkg/backend/dist_memory.go     | 34 ++++++----------------------------
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index b3b0f4a..0c68d14 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -72,6 +72,34 @@ func (m *Membership) Upsert(n *Node) {
 	notify(observers, id, state, version)
 }
 
+// Adopt records a claim about a node unless the membership already holds it
+// at the same or a higher incarnation. The comparison and the update are one
+// step, so of several claims arriving at once the highest incarnation stays.
+// Returns true if the claim was taken.
+func (m *Membership) Adopt(n *Node) bool {
+	m.mu.Lock()
+
+	if cur, ok := m.nodes[n.ID]; ok && cur != nil && n.Incarnation <= cur.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	n.LastSeen = time.Now()
+	m.nodes[n.ID] = n
+	m.rebuildRingLocked()
+
+	version := m.ver.Next()
+	observers := m.observers
+	id := n.ID
+	state := n.State
+	m.mu.Unlock()
+
+	notify(observers, id, state, version)
+
+	return true
+}
+
 // List returns current nodes snapshot.
 func (m *Membership) List() []*Node {
 	m.mu.RLock()
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e4d94b0..98ad48b 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3656,34 +3656,12 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		existing := false
-		for _, cur := range dm.membership.List() {
-			if cur.ID == node.ID {
-				existing = true
-
-				if node.Incarnation > cur.Incarnation {
-					dm.membership.Upsert(&cluster.Node{
-						ID:          node.ID,
-						Address:     node.Address,
-						State:       node.State,
-						Incarnation: node.Incarnation,
-						LastSeen:    time.Now(),
-					})
-				}
-
-				break
-			}
-		}
-
-		if !existing {
-			dm.membership.Upsert(&cluster.Node{
-				ID:          node.ID,
-				Address:     node.Address,
-				State:       node.State,
-				Incarnation: node.Incarnation,
-				LastSeen:    time.Now(),
-			})
-		}
+		dm.membership.Adopt(&cluster.Node{
+			ID:          node.ID,
+			Address:     node.Address,
+			State:       node.State,
+			Incarnation: node.Incarnation,
+		})
 	}
 }
 
-- 
2.43.0


From e486ba1849a8dfd7f2b985dd31b66296a96956ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:37 +0000
Subject: [PATCH 37/48] fix: listing a peer's keys over HTTP covers nodes with
 more than 1024 shards

---
 pkg/backend/dist_http_transport.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index ae0779b..0aa30de 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -486,7 +486,11 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor string
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
+	// One page per shard: far more than any real shard count, so only a
+	// buggy server reaches it.
+	const safetyLimit = 1 << 20
+
+	shard := 0
 
 	for range safetyLimit {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
@@ -500,19 +504,18 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 			return all, nil
 		}
 
-		// Truncated pages return next_cursor == current cursor.
-		// Without bumping limit, we'd loop forever — but ListKeys
-		// never sets a limit (it asks for the full shard each time),
-		// so server-side truncation cannot occur on this path.
-		// Defensive: break if cursor doesn't advance.
-		if page.NextCursor == cursor {
-			break
+		// ListKeys never sets a limit, so every page must name a later
+		// shard. Stopping early instead would pass an incomplete listing
+		// off as the peer's full key set.
+		next, convErr := strconv.Atoi(page.NextCursor)
+		if convErr != nil || next <= shard {
+			return nil, ewrap.Newf("list keys: cursor %q does not advance past shard %d", page.NextCursor, shard)
 		}
 
-		cursor = page.NextCursor
+		shard, cursor = next, page.NextCursor
 	}
 
-	return all, nil
+	return nil, ewrap.Newf("list keys: no end after %d pages", safetyLimit)
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
-- 
2.43.0


From 9427352d50523947a1f7cc16329c42c70bffae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:14 +0000
Subject: [PATCH 38/48] verif: hook exposing the node's transport

---
 pkg/backend/dist_verif_hooks.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/backend/dist_verif_hooks.go b/pkg/backend/dist_verif_hooks.go
index 3c12f6b..d56f329 100644
--- a/pkg/backend/dist_verif_hooks.go
+++ b/pkg/backend/dist_verif_hooks.go
@@ -23,3 +23,6 @@ func (dm *DistMemory) VerifFlushRepairs(ctx context.Context) {
 		dm.repairQueue.flushAll(ctx)
 	}
 }
+
+// VerifTransport is the transport the node sends with (verification hook).
+func (dm *DistMemory) VerifTransport() DistTransport { return dm.loadTransport() }
-- 
2.43.0


From 5a807797ec58b52d999ccd9f5ebc15126904e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:39 +0000
Subject: [PATCH 39/48] fix: a server with only OIDC configured is not open to
 anonymous clients

---
 cmd/hypercache-server/main.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 42ec072..94436ce 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1582,12 +1582,20 @@ func run() int {
 
 	slog.SetDefault(logger)
 
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	if !attachOIDCVerifier(ctx, &cfg, logger) {
+		return 1
+	}
+
 	// Preserve the pre-v2 zero-config dev posture: when neither
 	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
 	// loader returns the zero Policy, and we explicitly opt into
 	// AllowAnonymous mode here with a loud warning. Without this,
 	// every protected route would 401 — every existing
-	// `docker run hypercache` would break on upgrade.
+	// `docker run hypercache` would break on upgrade. OIDC counts as
+	// client API auth, so this comes after attaching its verifier.
 	if !cfg.AuthPolicy.IsConfigured() {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
@@ -1597,13 +1605,6 @@ func run() int {
 		cfg.AuthPolicy.AllowAnonymous = true
 	}
 
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
-	if !attachOIDCVerifier(ctx, &cfg, logger) {
-		return 1
-	}
-
 	logger.Info(
 		"hypercache-server starting",
 		slog.String("api_addr", cfg.APIAddr),
-- 
2.43.0


From bd2f11d786e8b5fb694290a9a6d4746af0134b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:41 +0000
Subject: [PATCH 40/48] fix: a server whose policy file names no identity is
 not open to anonymous clients

---
 cmd/hypercache-server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 94436ce..6135b81 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1596,7 +1596,8 @@ func run() int {
 	// every protected route would 401 — every existing
 	// `docker run hypercache` would break on upgrade. OIDC counts as
 	// client API auth, so this comes after attaching its verifier.
-	if !cfg.AuthPolicy.IsConfigured() {
+	// A policy file that names no identity is not zero-config either.
+	if !cfg.AuthPolicy.IsConfigured() && os.Getenv(httpauth.EnvAuthConfig) == "" {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
 				httpauth.EnvAuthConfig + " or " + httpauth.EnvAuthToken + " for production",
-- 
2.43.0


From e706c512238ae62b7779ab68a9cb6b89597f043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:44 +0000
Subject: [PATCH 41/48] fix: an expiration pass on a cluster node no longer
 deletes items that have not expired

---
 pkg/backend/dist_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 98ad48b..ceda4df 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -27,6 +27,7 @@ import (
 	"go.opentelemetry.io/otel/trace/noop"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/eventbus"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
@@ -1115,8 +1116,8 @@ func (dm *DistMemory) Set(ctx context.Context, item *cache.Item) error {
 
 // --- Consistency helper methods. ---
 
-// List aggregates items (no ordering, then filters applied per interface contract not yet integrated; kept simple);.
-func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, error) {
+// List aggregates the items held locally and applies the filters in order.
+func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	items := make([]*cache.Item, 0, listPrealloc)
 	for _, s := range dm.shards {
 		for _, it := range s.items.All() {
@@ -1126,6 +1127,15 @@ func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, erro
 		}
 	}
 
+	var err error
+
+	for _, filter := range filters {
+		items, err = filter.ApplyFilter(constants.DistMemoryBackend, items)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	return items, nil
 }
 
-- 
2.43.0


From ed97efcf3af33e39a36836daf3436d1a086114b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:37 +0000
Subject: [PATCH 42/48] fix: items crossing the peer wire keep their remaining
 lifetime

---
 pkg/backend/dist_http_server.go    |  4 ++--
 pkg/backend/dist_http_transport.go | 14 ++++++++++++--
 pkg/backend/dist_http_types.go     | 25 +++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 62701f4..945b1d1 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -387,7 +387,7 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		Version:     req.Version,
 		Origin:      req.Origin,
 		LastUpdated: time.Now(),
-		LastAccess:  time.Now(),
+		LastAccess:  lastAccess(req.Age),
 	}
 
 	// Forwarded arrival from a peer: ownership guard fires if this
@@ -422,7 +422,7 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 	}
 
 	if it, ok := dm.shardFor(key).items.Get(key); ok {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
+		return fctx.JSON(httpGetResponse{Found: true, Item: it, Age: wireAge(it)})
 	}
 
 	return fctx.JSON(httpGetResponse{Found: false})
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 0aa30de..c1e8db7 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -157,7 +157,8 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	reqBody := httpSetRequest{
 		Key:        item.Key,
 		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
+		Expiration: wireExpiration(item.Expiration),
+		Age:        wireAge(item),
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
@@ -276,6 +277,15 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 	}
 
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
+		var age int64
+
+		if ab, ok := raw["age_ms"]; ok {
+			err := json.Unmarshal(ab, &age)
+			if err != nil {
+				return nil, false, ewrap.Wrap(err, "unmarshal age")
+			}
+		}
+
 		var mirror struct {
 			Key        string          `json:"key"`
 			Value      json.RawMessage `json:"value"`
@@ -296,7 +306,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-			LastAccess:  time.Now(),
+			LastAccess:  lastAccess(age),
 		}, true, nil
 	}
 
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 69968c3..e5f32c1 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,6 +1,8 @@
 package backend
 
 import (
+	"time"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -9,6 +11,7 @@ type httpSetRequest struct { // shared with server & transport
 	Key        string `json:"key"`
 	Value      any    `json:"value"`
 	Expiration int64  `json:"expiration_ms"`
+	Age        int64  `json:"age_ms,omitempty"` // how much of the expiration has passed
 	Version    uint64 `json:"version"`
 	Origin     string `json:"origin"`
 	Replicate  bool   `json:"replicate"`
@@ -21,5 +24,27 @@ type httpSetResponse struct {
 type httpGetResponse struct {
 	Found bool        `json:"found"`
 	Item  *cache.Item `json:"item,omitempty"`
+	Age   int64       `json:"age_ms,omitempty"` // how much of the item's expiration has passed
 	Error string      `json:"error,omitempty"`
 }
+
+// wireExpiration rounds up: a lifetime below a millisecond must not become
+// zero, which means no expiration.
+func wireExpiration(expiration time.Duration) int64 {
+	return (expiration + time.Millisecond - 1).Milliseconds()
+}
+
+// wireAge is the part of its lifetime an item has behind it, in milliseconds.
+// Peers exchange the age rather than a point in time: their clocks may differ.
+func wireAge(item *cache.Item) int64 {
+	if item.Expiration <= 0 || item.LastAccess.IsZero() {
+		return 0
+	}
+
+	return max(time.Since(item.LastAccess).Milliseconds(), 0)
+}
+
+// lastAccess is the point in time, on this node's clock, of an age.
+func lastAccess(age int64) time.Time {
+	return time.Now().Add(-time.Duration(max(age, 0)) * time.Millisecond)
+}
-- 
2.43.0


From b38d7d8caa037209ed56396717ed7e9a72439b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:03 +0000
Subject: [PATCH 43/48] fix: an expired copy on one node does not delete a
 newer write elsewhere

---
 hypercache.go              |  6 ++++++
 hypercache_expiration.go   | 10 ++++++++++
 pkg/backend/dist_memory.go | 20 ++++++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/hypercache.go b/hypercache.go
index afe90b7..41f3e71 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -89,6 +89,12 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// localExpiryBackend is the optional interface of a backend whose copies expire
+// one by one, without that being a delete of the key for other nodes.
+type localExpiryBackend interface {
+	DropExpired(key string) (*cache.Item, bool)
+}
+
 // exchangeBackend is the optional interface of a backend that reports exactly
 // which item an operation displaced, so that the memory allocation can follow
 // the items held even when several callers store and remove the same key.
diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 0b4dbc5..c3cf594 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -176,6 +176,16 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 // removeExpired removes the item with the given key if it is still expired.
 // Backends that cannot decide and remove in one step just remove it.
 func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	if local, ok := hyperCache.backend.(localExpiryBackend); ok {
+		item, removed := local.DropExpired(key)
+		if removed {
+			hyperCache.memoryAllocation.Add(-item.Size)
+			hyperCache.evictionAlgorithm.Delete(key)
+		}
+
+		return removed, nil
+	}
+
 	exchange, ok := hyperCache.backend.(exchangeBackend)
 	if !ok {
 		return true, hyperCache.Remove(ctx, key)
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ceda4df..e015203 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1139,6 +1139,26 @@ func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item
 	return items, nil
 }
 
+// DropExpired forgets the local copy of key if it has expired and returns it.
+// Unlike Remove it leaves no tombstone and tells no peer: a write this node
+// has missed may have replaced the expired copy elsewhere.
+func (dm *DistMemory) DropExpired(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
+	it, ok := sh.items.GetCopy(key)
+	if !ok || !it.Expired() {
+		return nil, false
+	}
+
+	sh.items.Remove(key)
+	sh.forgetPlacement(key)
+
+	return it, true
+}
+
 // Remove deletes keys.
 func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 	ctx, span := dm.tracer.Start(
-- 
2.43.0


From 35d276e22a432418083072403cc8a3bc2d17b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:20 +0000
Subject: [PATCH 44/48] fix: reading an item from the cluster reports the
 lifetime it really has left

---
 hypercache_io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hypercache_io.go b/hypercache_io.go
index b24ba64..0112241 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -245,12 +245,12 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 		return
 	}
 
-	if toucher, ok := hyperCache.backend.(touchBackend); ok {
-		toucher.Touch(ctx, key)
+	// An item that was fetched from elsewhere is not prolonged by this access, so
+	// the copy handed out must not claim a longer life either.
+	if toucher, ok := hyperCache.backend.(touchBackend); !ok || toucher.Touch(ctx, key) {
+		item.Touch()
 	}
 
-	item.Touch()
-
 	// a read is a use: without it LRU and LFU would rank keys by writes alone
 	hyperCache.evictionAlgorithm.Get(key)
 }
-- 
2.43.0


From c583ab39157964372866a34e69c286a95c73eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:58 +0000
Subject: [PATCH 45/48] fix: a delete of an absent key no longer makes replicas
 refuse later writes

---
 pkg/backend/dist_http_server.go    |  7 +++++-
 pkg/backend/dist_http_transport.go | 10 +++++++--
 pkg/backend/dist_memory.go         | 34 +++++++++++++++++++++++++++---
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 945b1d1..4fbb1de 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -448,7 +448,12 @@ func (s *distHTTPServer) handleRemove(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid replicate"})
 	}
 
-	dm.applyRemove(s.ctx, key, replicate)
+	version, parseErr := strconv.ParseUint(fctx.Query("version", "0"), 10, 64)
+	if parseErr != nil {
+		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid version"})
+	}
+
+	dm.applyRemove(withRemoveVersion(s.ctx, version), key, replicate)
 
 	return fctx.SendStatus(fiber.StatusOK)
 }
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index c1e8db7..14eba95 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -316,10 +316,16 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 // ForwardRemove propagates a delete operation to a remote node.
 func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error {
 	// prefer canonical endpoint
-	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", url.Values{
+	query := url.Values{
 		"key":       {key},
 		"replicate": {strconv.FormatBool(replicate)},
-	}, nil)
+	}
+
+	if version := removeVersion(ctx); version != 0 {
+		query.Set("version", strconv.FormatUint(version, 10))
+	}
+
+	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", query, nil)
 	if err != nil {
 		return ewrap.Wrap(err, errMsgNewRequest)
 	}
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e015203..b2b15b2 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4917,18 +4917,44 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 	}
 }
 
+// removeVersionKey is the context key of the version of a replicated delete.
+type removeVersionKey struct{}
+
+// withRemoveVersion attaches the version of a delete to the context its
+// replication runs under; transports carry it to the replica.
+func withRemoveVersion(ctx context.Context, version uint64) context.Context {
+	if version == 0 {
+		return ctx
+	}
+
+	return context.WithValue(ctx, removeVersionKey{}, version)
+}
+
+// removeVersion returns the version attached by withRemoveVersion, or 0.
+func removeVersion(ctx context.Context) uint64 {
+	version, _ := ctx.Value(removeVersionKey{}).(uint64)
+
+	return version
+}
+
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
 	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
-	var nextVer uint64
+	// The version the coordinator gave to this delete, if one did. A coordinator
+	// places it above every write it knows of and below its next one, so that the
+	// tombstones of all owners hold off the same writes.
+	nextVer := removeVersion(ctx)
+	if nextVer == 0 && replicate {
+		nextVer = dm.nextVersion(key)
+	}
 
 	sh.mu.Lock()
 
+	// capture version from existing item (if any) and increment for tombstone
 	if it, ok := sh.items.Get(key); ok && it != nil {
 		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
 
-		nextVer = ci.Version + 1
+		nextVer = max(nextVer, ci.Version+1)
 	}
 
 	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
@@ -4959,6 +4985,8 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 
 	dm.metrics.replicaFanoutRemove.Add(int64(len(owners) - 1))
 
+	ctx = withRemoveVersion(ctx, nextVer)
+
 	for _, oid := range owners[1:] {
 		if oid == dm.localNode.ID {
 			continue
-- 
2.43.0


From 581f58adbe68457bcee6462b42f038becde0c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:29 +0000
Subject: [PATCH 46/48] fix: Merkle digests tell a key from several keys that
 read the same

---
 pkg/backend/dist_memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b2b15b2..bbbc723 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -521,6 +521,10 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 		hasher.Reset()
 
 		for _, e := range entries[i:end] {
+			// the length keeps one key from reading like several keys with versions
+			encodeUint64BigEndian(buf, uint64(len(e.k)))
+
+			_, _ = hasher.Write(buf)
 			_, _ = hasher.Write([]byte(e.k))
 			encodeUint64BigEndian(buf, e.v)
 
-- 
2.43.0


From a7e7e7f435cd140a1e66aa4aef5edb6c506f680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:48 +0000
Subject: [PATCH 47/48] fix: keys in client API paths are percent-decoded

---
 cmd/hypercache-server/main.go | 54 ++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 6135b81..17e97a8 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,12 +26,14 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
 	"strings"
 	"syscall"
 	"time"
+	"unicode/utf8"
 
 	"github.com/goccy/go-json"
 	fiber "github.com/gofiber/fiber/v3"
@@ -625,6 +627,26 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 	}
 }
 
+// pathKey returns the cache key the request path names. The path carries it
+// percent-encoded (clients escape spaces, slashes, '?' and so on), while the
+// batch endpoints and every peer know the key itself.
+func pathKey(c fiber.Ctx) (string, error) {
+	key, err := url.PathUnescape(c.Params("key"))
+	if err != nil {
+		return "", ewrap.New("invalid key in path: " + err.Error())
+	}
+
+	if key == "" {
+		return "", ewrap.New("missing key in path")
+	}
+
+	if !utf8.ValidString(key) {
+		return "", ewrap.New("invalid key in path: not UTF-8")
+	}
+
+	return key, nil
+}
+
 // putResponse documents the JSON shape returned on a successful PUT.
 // Owners + Node let the operator immediately see where the value
 // landed in the ring — invaluable when debugging cluster topology
@@ -690,9 +712,9 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	ttl := time.Duration(0)
@@ -711,7 +733,7 @@ func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
 	value := make([]byte, len(body))
 	copy(value, body) // detach from fiber's pooled body buffer
 
-	err := nodeCtx.hc.Set(c.Context(), key, value, ttl)
+	err = nodeCtx.hc.Set(c.Context(), key, value, ttl)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -878,9 +900,9 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	it, ok := nodeCtx.hc.GetWithInfo(c.Context(), key)
@@ -1177,8 +1199,8 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
+	key, err := pathKey(c)
+	if err != nil {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
 
@@ -1288,14 +1310,14 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	owners := nodeCtx.hc.ClusterOwners(key)
 
-	err := nodeCtx.hc.Remove(c.Context(), key)
+	err = nodeCtx.hc.Remove(c.Context(), key)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -1313,9 +1335,9 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	return c.JSON(ownersResponse{
-- 
2.43.0


From 5ff8197c98bc3f3e11bd9ca543fbcd7536f91ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:51 +0000
Subject: [PATCH 48/48] fix: invalid keys and lifetimes are the client's error,
 and lifetimes in a batch cannot overflow

---
 cmd/hypercache-server/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 17e97a8..74c863e 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -620,6 +621,8 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 	switch {
 	case errors.Is(err, sentinel.ErrDraining):
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeDraining, "node is draining; redirect to a peer")
+	case errors.Is(err, sentinel.ErrInvalidKey), errors.Is(err, sentinel.ErrInvalidExpiration):
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeInternal, "no ring owners for key (cluster initializing?)")
 	default:
@@ -1094,6 +1097,10 @@ func applyBatchPutItem(ctx context.Context, nodeCtx *nodeContext, item batchPutI
 		return batchPutResult{Key: item.Key, Stored: false, Error: "missing key", Code: codeBadRequest}
 	}
 
+	if item.TTLMs > math.MaxInt64/int64(time.Millisecond) || item.TTLMs < math.MinInt64/int64(time.Millisecond) {
+		return batchPutResult{Key: item.Key, Stored: false, Error: "invalid ttl_ms: out of range", Code: codeBadRequest}
+	}
+
 	value, decodeErr := decodeBatchPutValue(item)
 	if decodeErr != nil {
 		return batchPutResult{Key: item.Key, Stored: false, Error: decodeErr.Error(), Code: codeBadRequest}
@@ -1184,6 +1191,8 @@ func classifyErrCode(err error) string {
 	switch {
 	case errors.Is(err, sentinel.ErrDraining):
 		return codeDraining
+	case errors.Is(err, sentinel.ErrInvalidKey), errors.Is(err, sentinel.ErrInvalidExpiration):
+		return codeBadRequest
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return codeInternal
 	default:
-- 
2.43.0

