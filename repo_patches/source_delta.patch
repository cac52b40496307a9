From eb91507418195e9bb803a718122a53ee02e9e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 01/43] fix: order colliding ring positions by node so
 ownership is independent of list order

---
 internal/cluster/ring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/cluster/ring.go b/internal/cluster/ring.go
index 96b203b..87c465d 100644
--- a/internal/cluster/ring.go
+++ b/internal/cluster/ring.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"slices"
 	"sort"
+	"strings"
 	"sync"
 
 	"github.com/cespare/xxhash/v2"
@@ -85,7 +86,9 @@ func (r *Ring) Build(nodes []*Node) {
 		case a.hash > b.hash:
 			return 1
 		default:
-			return 0
+			// Colliding positions are ordered by node so that ownership
+			// does not depend on the order nodes were listed in.
+			return strings.Compare(string(a.nid), string(b.nid))
 		}
 	})
 
-- 
2.43.0


From 92275e18923591bf39919ad3548585354bb0def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 02/43] fix: rebuild the ring under the membership lock so
 concurrent changes cannot leave it stale

---
 internal/cluster/membership.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..7de40f5 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -73,9 +73,11 @@ func (m *Membership) Upsert(n *Node) {
 	observers := m.observers
 	id := n.ID
 	state := n.State
+	// Build before releasing the lock: otherwise a concurrent change could
+	// install its newer node list first and have it overwritten by this one.
+	m.ring.Build(nodes)
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
@@ -123,9 +125,10 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	version := m.ver.Next()
 	observers := m.observers
+	// Build before releasing the lock (see Upsert).
+	m.ring.Build(nodes)
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
-- 
2.43.0


From 6c638ca2f8641d56b7a4ba59efa724e16b2c6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 03/43] fix: move a node in or out of the ring when a mark or
 refutation changes whether it is dead

---
 internal/cluster/membership.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 7de40f5..34211df 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -188,9 +188,14 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	ringChanged := (n.State == NodeDead) != (state == NodeDead)
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if ringChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -230,9 +235,14 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	ringChanged := n.State == NodeDead
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if ringChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -243,6 +253,20 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked rebuilds the ring from the non-dead members. A mark that
+// moves a node into or out of the dead state changes ring ownership just as
+// a join or removal does. Caller holds m.mu.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes {
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From c0c50605bb8054679b4237ee0650e41d54b639db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 04/43] fix: publish under the write lock so concurrent
 publishers cannot deliver versions out of order

---
 internal/eventbus/bus.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..ba29c45 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,12 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
+	// Stamp and fan out under the write lock: under a read lock a
+	// later version could reach a subscriber before an earlier one
+	// when publishers run concurrently.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From 9a643948c88a2348beb5b88cc850e00bd9f46743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 05/43] fix: median of two large samples no longer overflows

---
 pkg/stats/histogramcollector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..316261a 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -282,7 +282,8 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	// Halve before adding: the int64 sum of the two middle values can overflow.
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From d2b2fd415a38ba498fd92cdf267f8669a0c234f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 06/43] fix: a NaN percentile no longer panics

---
 pkg/stats/histogramcollector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 316261a..1dbb214 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -295,7 +295,7 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	}
 
 	switch {
-	case percentile <= 0:
+	case percentile <= 0, math.IsNaN(percentile):
 		return float64(sorted[0])
 	case percentile >= 1:
 		return float64(sorted[n-1])
-- 
2.43.0


From f675cc4921c4d7592d331e5959ca0d6c4c6314f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 07/43] fix: count an observation only after its extremes, so
 snapshots never expose sentinels

---
 pkg/stats/histogramcollector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 1dbb214..3d7c4b9 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -240,9 +240,6 @@ const errCorruptStatsMap = "histogramcollector: stats map contains non-*statShar
 func (c *HistogramStatsCollector) record(key string, value int64) {
 	shard := c.shard(key)
 
-	shard.count.Add(1)
-	shard.sum.Add(value)
-
 	for {
 		cur := shard.minV.Load()
 		if value >= cur || shard.minV.CompareAndSwap(cur, value) {
@@ -257,6 +254,11 @@ func (c *HistogramStatsCollector) record(key string, value int64) {
 		}
 	}
 
+	// The count goes last: a snapshot that sees this observation counted also
+	// sees it reflected in the sum and the extremes.
+	shard.sum.Add(value)
+	shard.count.Add(1)
+
 	if !shard.samplesMu.TryLock() {
 		return
 	}
-- 
2.43.0


From fd54ad03a87373abbae1a90e358eedcb240c8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 08/43] fix: compute the window variance around the window's
 own mean

---
 pkg/stats/histogramcollector.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 3d7c4b9..3c04bf4 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -189,7 +189,7 @@ func (c *HistogramStatsCollector) GetStats() Stats {
 			Values:   sorted,
 			Count:    int(count),
 			Sum:      sum,
-			Variance: varianceOf(sorted, mean),
+			Variance: varianceOf(sorted, windowMean(sorted)),
 		}
 
 		return true
@@ -311,6 +311,21 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	return float64(sorted[idx])
 }
 
+// windowMean returns the mean of the values. Empty slice returns 0.
+func windowMean(values []int64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
+	var acc float64
+
+	for _, value := range values {
+		acc += float64(value)
+	}
+
+	return acc / float64(len(values))
+}
+
 // varianceOf returns the population variance of values around mean.
 func varianceOf(values []int64, mean float64) float64 {
 	if len(values) == 0 {
-- 
2.43.0


From 1632c7f2c8f2453cc36bca7d4fec79e4125902f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 09/43] fix: a sub-millisecond batch TTL no longer becomes
 unlimited

---
 pkg/client/batch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..6d3023e 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,9 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// The wire counts milliseconds and reads zero as "no expiry":
+			// a sub-millisecond TTL rounds up rather than becoming unlimited.
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From 7a13dff197dd8d97fafb165091f319c0cc78ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 10/43] fix: a failed batch item always carries an error

---
 pkg/client/batch.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6d3023e..07c80db 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -308,16 +308,12 @@ func (c *Client) BatchDelete(ctx context.Context, keys []string) ([]BatchDeleteR
 // statusErrorFromBatch builds a *StatusError from a per-item batch
 // result's Code/Error fields. Returns nil when the per-item
 // operation succeeded — `success && code == ""` is the all-clear
-// shape. Callers carry the result back to user code unchanged.
+// shape; a failed item always yields an error. Callers carry the result back to user code unchanged.
 func statusErrorFromBatch(success bool, code, message string) *StatusError {
 	if success && code == "" {
 		return nil
 	}
 
-	if code == "" && message == "" {
-		return nil
-	}
-
 	// Map the canonical batch Code values back to HTTP status so the
 	// resulting *StatusError honors errors.Is the same way a top-
 	// level call's StatusError does. The batch wire only carries
-- 
2.43.0


From 4e74eabfb7443c44145aee7ede9913f34fe95a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 11/43] fix: concurrent Close calls no longer close the stop
 channel twice

---
 pkg/client/client.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..42c5add 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,7 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From fc9d1f8a5f1f46bbf344402fbc93757ce1b7a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 12/43] fix: stop failing over once the request's context is
 done

---
 pkg/client/transport.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index b34c7fe..a670e50 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -139,6 +139,12 @@ func (c *Client) do(
 			return nil, err
 		}
 
+		// A cancelled or expired context fails everywhere: the remaining
+		// endpoints would not even be contacted.
+		if ctx.Err() != nil {
+			return nil, err
+		}
+
 		c.logger.Debug(
 			"client failover",
 			slog.String("endpoint", endpoint),
-- 
2.43.0


From 43fbc6f39ee88fe1449c69123e1ce81b52d038cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 13/43] fix: members sharing an address yield one endpoint

---
 pkg/client/topology.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/client/topology.go b/pkg/client/topology.go
index 951273a..fa77de7 100644
--- a/pkg/client/topology.go
+++ b/pkg/client/topology.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"net/http"
 	"net/url"
+	"slices"
 	"strings"
 	"time"
 )
@@ -106,7 +107,7 @@ func (c *Client) RefreshTopology(ctx context.Context) error {
 		}
 
 		endpoint := buildEndpoint(scheme, m.Address)
-		if endpoint != "" {
+		if endpoint != "" && !slices.Contains(updated, endpoint) {
 			updated = append(updated, endpoint)
 		}
 	}
-- 
2.43.0


From abf7037f889e02895b2294554fafc909a7156861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 14/43] fix: auth options keep the caller's HTTP client
 settings and the last one wins

---
 pkg/client/client.go  | 85 +++++++++++++++++++++++++------------------
 pkg/client/options.go | 11 ++----
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 42c5add..29cf83f 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -318,45 +318,66 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // --- internal helpers used by options.go ---
 
-// bearerAuthTransport returns a RoundTripper that injects the
-// given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
+// headerAuthTransport injects a fixed Authorization header value on
+// every request. Used by both bearer and Basic auth — both share the
+// "set one header on every request" shape.
+type headerAuthTransport struct {
+	headerValue string
+	base        http.RoundTripper // nil means http.DefaultTransport
 }
 
-// bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
-// bearer and Basic auth — both share the "set one header on every
-// request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+// RoundTrip implements http.RoundTripper.
+func (t *headerAuthTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.headerValue)
 
-		base := http.DefaultTransport
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
 
-		return resp, nil
-	})
+	return resp, nil
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
-	if base != nil {
-		out.Timeout = base.Timeout
-	}
+// httpClientWithAuth derives an http.Client that sends the given
+// Authorization header on every request. Everything else about the
+// original client (transport, timeout, redirect policy, cookie jar)
+// is preserved.
+func httpClientWithAuth(base *http.Client, headerValue string) *http.Client {
+	out := httpClientWithoutAuth(base)
+
+	out.Transport = &headerAuthTransport{headerValue: headerValue, base: out.Transport}
 
 	return out
 }
 
+// httpClientWithoutAuth returns a copy of base with the transports of
+// earlier auth options peeled off, so that the last auth option wins.
+func httpClientWithoutAuth(base *http.Client) *http.Client {
+	if base == nil {
+		return &http.Client{}
+	}
+
+	out := *base
+
+	for {
+		switch t := out.Transport.(type) {
+		case *headerAuthTransport:
+			out.Transport = t.base
+		case *oauth2.Transport:
+			out.Transport = t.Base
+		default:
+			return &out
+		}
+	}
+}
+
 // contextWithBaseHTTP returns a context carrying base as the
 // oauth2.HTTPClient value. Used so oauth2.NewClient's TokenSource
 // uses our base transport (custom timeout, custom mTLS Transport)
@@ -369,14 +390,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..c3defa7 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.http, "Bearer "+token)
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.http, "Basic "+encoded)
 
 		return nil
 	}
@@ -102,12 +102,7 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// refresh transparently. Pass the existing Transport as
 		// the base so any prior WithHTTPClient (e.g. mTLS) is
 		// preserved.
-		base := c.http
-		if base == nil {
-			base = http.DefaultClient
-		}
-
-		baseCtx := contextWithBaseHTTP(base)
+		baseCtx := contextWithBaseHTTP(httpClientWithoutAuth(c.http))
 
 		// Wrap the underlying TokenSource so rotations log via the
 		// client's slog.Logger. The wrapper holds a pointer to the
-- 
2.43.0


From 220418fb1516a572ba6decbc30efca0f2cd422fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:45 +0000
Subject: [PATCH 15/43] fix: a topology refresh answered with a non-200 status
 is an error

---
 pkg/client/topology.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/client/topology.go b/pkg/client/topology.go
index fa77de7..13aee43 100644
--- a/pkg/client/topology.go
+++ b/pkg/client/topology.go
@@ -80,6 +80,10 @@ func (c *Client) RefreshTopology(ctx context.Context) error {
 	}
 	defer closeBody(resp)
 
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("fetch /cluster/members: %w", classifyResponse(resp))
+	}
+
 	var members clusterMembersResponse
 
 	decodeErr := json.NewDecoder(resp.Body).Decode(&members)
-- 
2.43.0


From a0c3613d7e9b9e83908272e129c8f59b0b809993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 16/43] fix: clock eviction succeeds whenever an item is
 present and a full cache admits a new one

---
 pkg/eviction/clock.go | 92 +++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..7dac2ce 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -41,33 +41,11 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 		return "", false
 	}
 
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
-
-		c.items[c.hand] = nil
-
-		return evictedKey, true
+	if len(c.keys) == 0 { // nothing to evict
+		return "", false
 	}
 
-	return "", false
+	return c.evictAtHand(), true
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,37 +142,59 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // skip empty
-			c.advanceHand()
+	_ = c.evictAtHand()
 
-			continue
-		}
+	newItem := c.itemPoolManager.Get()
 
-		if item.AccessCount > 0 { // second chance
-			item.AccessCount--
+	newItem.Key = key
+	newItem.Value = value
+	newItem.AccessCount = 1
+	c.items[c.hand] = newItem
+	c.keys[key] = c.hand
+	c.advanceHand()
+}
 
-			c.advanceHand()
+// evictAtHand moves the hand to the next item without a chance left, taking
+// one from every item it passes, and evicts that item, leaving its slot free.
+// At least one item must be present.
+func (c *ClockAlgorithm) evictAtHand() string {
+	c.skipFruitlessSweeps()
 
-			continue
-		}
+	for {
+		item := c.items[c.hand]
+		if item != nil && item.AccessCount == 0 {
+			evictedKey := item.Key
+			delete(c.keys, evictedKey)
+			c.itemPoolManager.Put(item)
 
-		delete(c.keys, item.Key)
-		c.itemPoolManager.Put(item)
+			c.items[c.hand] = nil
 
-		c.items[c.hand] = nil
+			return evictedKey
+		}
 
-		newItem := c.itemPoolManager.Get()
+		if item != nil { // second chance
+			item.AccessCount--
+		}
 
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
 		c.advanceHand()
+	}
+}
 
-		return
+// skipFruitlessSweeps takes from every item, in one pass, the chances that
+// full turns of the hand would take before any item runs out of them.
+func (c *ClockAlgorithm) skipFruitlessSweeps() {
+	least := ^uint32(0)
+
+	for _, item := range c.items {
+		if item != nil {
+			least = min(least, item.AccessCount)
+		}
+	}
+
+	for _, item := range c.items {
+		if item != nil {
+			item.AccessCount -= least
+		}
 	}
 }
 
-- 
2.43.0


From aacd96a8f7ba1ff9e16d16e8fc8be36a6f72f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 17/43] fix: arc keeps within capacity, and evicts whenever an
 item is resident

---
 pkg/eviction/arc.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..6fb0414 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -277,7 +277,8 @@ func (a *ARC) Evict() (string, bool) {
 // replace evicts one resident from T1 or T2 and places its key into B1 or B2.
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
-	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
+	fromT1 := a.t1.len > 0 &&
+		(a.t2.len == 0 || (x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || a.t1.len > a.p)
 	if fromT1 {
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
@@ -338,7 +339,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
@@ -360,7 +363,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b2.remove(ghost)
 		delete(a.b2Idx, key)
@@ -408,6 +413,8 @@ func (a *ARC) trimForHistoryLimit() {
 			delete(a.b1Idx, tail.key)
 		}
 
+		a.replace("")
+
 		return
 	}
 
-- 
2.43.0


From 6a176c5992cf621ca5e3d76eb18254676eeeec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 18/43] fix: an in-memory removal or clear that is given up
 takes no effect later

---
 pkg/backend/inmemory.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..f0a8969 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -112,40 +112,26 @@ func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*ca
 }
 
 // Remove removes items with the given key from the cacheBackend. If an item is not found, it does nothing.
+// A canceled context stops the removal: what was not removed by the time it returns stays.
 func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		for _, key := range keys {
-			cacheBackend.items.Remove(key)
+	for _, key := range keys {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
 		}
-	}()
 
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
-		return sentinel.ErrTimeoutOrCanceled
+		cacheBackend.items.Remove(key)
 	}
+
+	return nil
 }
 
 // Clear removes all items from the cacheBackend.
 func (cacheBackend *InMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		// clear the cacheBackend
-		cacheBackend.items.Clear()
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	cacheBackend.items.Clear()
+
+	return nil
 }
-- 
2.43.0


From 6d7dd9adac91d105d36861bbe2e01118fc24fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:29 +0000
Subject: [PATCH 19/43] fix: account for what a set replaces and a removal
 takes out, as one step with it

Overwriting a key never gave back the size of the replaced value, an item the
backend refused was not given back, and removing a key twice took its size off
twice, so that the allocation drifted from what is stored.
---
 hypercache.go           |   8 +++
 hypercache_io.go        | 132 ++++++++++++++++++++++++++++++++--------
 pkg/backend/inmemory.go |  18 ++++++
 pkg/cache/v2/cmap.go    |  37 +++++++++++
 4 files changed, 168 insertions(+), 27 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..459a766 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -88,6 +88,14 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// exactBackend is implemented by backends that report what a write replaced or removed, as one
+// step with the write, so that the memory accounting follows what is stored whatever runs
+// concurrently. Backends without it are accounted for by what a get finds beforehand.
+type exactBackend interface {
+	Swap(ctx context.Context, item *cache.Item) (*cache.Item, error)
+	RemoveIf(ctx context.Context, key string, condition func(*cache.Item) bool) (*cache.Item, bool)
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..e3391c9 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,31 +31,75 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
+	err = hyperCache.store(ctx, item)
+	if err != nil {
+		return err
+	}
+
+	// Set the item in the eviction algorithm. The algorithm protects its own
+	// state internally; no outer lock needed.
+	hyperCache.evictionAlgorithm.Set(key, item.Value)
+
+	// If the cache is at capacity, evict an item when the eviction interval is zero
+	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
+		hyperCache.evictItem(ctx)
+	}
+
+	return nil
+}
+
+// store inserts a sized item into the backend and accounts for its size, net of the item it
+// replaces. An item that is refused, by the size limit or by the backend, is accounted for by nothing.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+	size := item.Size
+	exact, isExact := hyperCache.backend.(exactBackend)
 
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
+	// reserve what the item adds to the allocation
+	reserved := size
+
+	if isExact {
+		if current, ok := hyperCache.backend.Get(ctx, item.Key); ok {
+			reserved = max(size-current.Size, 0)
+		}
+	}
+
+	allocation := hyperCache.memoryAllocation.Add(reserved)
+
+	// check if adding this item exceeds the maxCacheSize
+	if hyperCache.maxCacheSize > 0 && reserved > 0 && allocation > hyperCache.maxCacheSize {
+		hyperCache.memoryAllocation.Add(-reserved)
+		hyperCache.itemPoolManager.Put(item)
 
 		return sentinel.ErrCacheFull
 	}
 
 	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	var (
+		previous *cache.Item
+		err      error
+	)
+
+	if isExact {
+		previous, err = exact.Swap(ctx, item)
+	} else {
+		err = hyperCache.backend.Set(ctx, item)
+	}
+
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-reserved)
 		hyperCache.itemPoolManager.Put(item)
 
 		return err
 	}
 
-	// Set the item in the eviction algorithm. The algorithm protects its own
-	// state internally; no outer lock needed.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
+	// settle the reservation against what was replaced
+	if isExact {
+		settled := size - reserved
+		if previous != nil {
+			settled -= previous.Size
+		}
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
+		hyperCache.memoryAllocation.Add(settled)
 	}
 
 	return nil
@@ -142,22 +186,8 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
-		return nil, sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return nil, err
 	}
 
@@ -264,6 +294,18 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
+	if exact, ok := hyperCache.backend.(exactBackend); ok {
+		for _, key := range keys {
+			if ctx.Err() != nil {
+				return sentinel.ErrTimeoutOrCanceled
+			}
+
+			hyperCache.removeIf(ctx, exact, key, nil)
+		}
+
+		return nil
+	}
+
 	// Remove the item from the eviction algorithm
 	// and update the memory allocation
 	for _, key := range keys {
@@ -283,6 +325,30 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 	return nil
 }
 
+// removeIf removes the item under the key if the condition holds for it, accounts for the size of
+// what it removed and drops the key from the eviction algorithm. It reports whether it removed it.
+func (hyperCache *HyperCache[T]) removeIf(
+	ctx context.Context,
+	exact exactBackend,
+	key string,
+	condition func(*cache.Item) bool,
+) bool {
+	removed, ok := exact.RemoveIf(ctx, key, condition)
+	if !ok {
+		return false
+	}
+
+	hyperCache.memoryAllocation.Add(-removed.Size)
+	hyperCache.evictionAlgorithm.Delete(key)
+
+	// set again in the meantime: what is stored stays known to the eviction algorithm
+	if current, stored := hyperCache.backend.Get(ctx, key); stored {
+		hyperCache.evictionAlgorithm.Set(key, current.Value)
+	}
+
+	return true
+}
+
 // Clear removes all items from the cache.
 func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 	var (
@@ -296,6 +362,18 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 		return err
 	}
 
+	if exact, ok := hyperCache.backend.(exactBackend); ok {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
+		}
+
+		for _, item := range items {
+			hyperCache.removeIf(ctx, exact, item.Key, nil)
+		}
+
+		return nil
+	}
+
 	// clear the cacheBackend
 	err = hyperCache.backend.Clear(ctx)
 	if err != nil {
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index f0a8969..e530088 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -84,6 +84,24 @@ func (cacheBackend *InMemory) Set(_ context.Context, item *cache.Item) error {
 	return nil
 }
 
+// Swap stores an item like Set and returns the one it replaced (nil when there was none), as one step.
+func (cacheBackend *InMemory) Swap(_ context.Context, item *cache.Item) (*cache.Item, error) {
+	err := item.Valid()
+	if err != nil {
+		return nil, err
+	}
+
+	previous, _ := cacheBackend.items.Swap(item.Key, item)
+
+	return previous, nil
+}
+
+// RemoveIf removes the item under the given key if the condition holds for it and returns what it
+// removed, as one step. A nil condition always holds.
+func (cacheBackend *InMemory) RemoveIf(_ context.Context, key string, condition func(*cache.Item) bool) (*cache.Item, bool) {
+	return cacheBackend.items.PopIf(key, condition)
+}
+
 // List returns a list of all items in the cache filtered and ordered by the given options.
 func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	var err error
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index e7d96a4..ef01dea 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -100,6 +100,43 @@ func (cm *ConcurrentMap) Set(key string, value *Item) {
 	shard.Unlock()
 }
 
+// Swap sets the given value under the specified key and returns the one it replaced, if any,
+// as one step.
+func (cm *ConcurrentMap) Swap(key string, value *Item) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	previous, existed := shard.items[key]
+	if !existed {
+		shard.count.Add(1)
+	}
+
+	shard.items[key] = value
+
+	return previous, existed
+}
+
+// PopIf removes an element from the map and returns it if the condition holds for it,
+// as one step. A nil condition always holds.
+func (cm *ConcurrentMap) PopIf(key string, condition func(*Item) bool) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	item, ok := shard.items[key]
+	if !ok || (condition != nil && !condition(item)) {
+		return nil, false
+	}
+
+	delete(shard.items, key)
+	shard.count.Add(-1)
+
+	return item, true
+}
+
 // Get retrieves an element from map under given key.
 func (cm *ConcurrentMap) Get(key string) (*Item, bool) {
 	// Get shard
-- 
2.43.0


From 055ddd945e22796dbdb44c68f732f1efc9339fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:29 +0000
Subject: [PATCH 20/43] fix: evict until a set is within the capacity

A key that a concurrent removal had just taken out could be the one the
algorithm chose, leaving the cache one over its capacity for good.
---
 hypercache_eviction.go | 10 ++++++++++
 hypercache_io.go       |  8 ++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..90aa6ea 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -175,6 +175,16 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
+// evictExcess evicts items until the cache is within its capacity, when the eviction interval is zero.
+// One is enough unless the algorithm chose a key that a concurrent call has just removed.
+func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context) {
+	for hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
+		if _, ok := hyperCache.evictItem(ctx); !ok {
+			return
+		}
+	}
+}
+
 // evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
 // If no item can be evicted, it returns a false.
 func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
diff --git a/hypercache_io.go b/hypercache_io.go
index e3391c9..7a9330c 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -41,9 +41,7 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
 	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
+	hyperCache.evictExcess(ctx)
 
 	return nil
 }
@@ -198,9 +196,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
 	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
+	hyperCache.evictExcess(ctx)
 
 	return value, nil
 }
-- 
2.43.0


From eeaba2411f4362889a873d6f41e51d04854f503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:29 +0000
Subject: [PATCH 21/43] fix: the expiration loop removes only items that are
 still expired

It removed a value set after the listing of the expired items.
---
 hypercache_expiration.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..56b96fd 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -141,13 +141,20 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
-			if err != nil {
-				return err
+			if exact, ok := hyperCache.backend.(exactBackend); ok {
+				// what was set or read since the listing is not removed
+				if !hyperCache.removeIf(ctx, exact, item.Key, (*cache.Item).Expired) {
+					continue
+				}
+			} else {
+				err := hyperCache.Remove(ctx, item.Key)
+				if err != nil {
+					return err
+				}
 			}
 
+			expiredCount++
+
 			hyperCache.itemPoolManager.Put(item)
 			hyperCache.StatsCollector.Incr("item_expired_count", 1)
 		}
-- 
2.43.0


From 8ea87beed84d26db1343118d2e6a56b35dceacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:29 +0000
Subject: [PATCH 22/43] fix: worker pool: no deadlock or panic on shutdown

Errors nobody receives kept workers and Shutdown waiting forever, a pool resized
to nothing never ran its queue, a full queue kept Shutdown from starting, and
Resize raced with itself and sent on the channel Shutdown closed.
---
 pool.go | 62 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/pool.go b/pool.go
index 9b225f6..2b69ec6 100644
--- a/pool.go
+++ b/pool.go
@@ -20,6 +20,13 @@ type WorkerPool struct {
 	shutdownMu sync.RWMutex
 	closed     bool
 
+	// closing is closed first thing in Shutdown: senders that wait for a worker let go of
+	// shutdownMu instead of keeping Shutdown waiting for it.
+	closing     chan struct{}
+	closingOnce sync.Once
+
+	// resizeMu serializes Resize and protects workers.
+	resizeMu  sync.Mutex
 	workers   int
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
@@ -32,6 +39,7 @@ func NewWorkerPool(workers int) *WorkerPool {
 	pool := &WorkerPool{
 		workers: workers,
 		jobs:    make(chan JobFunc, workers),
+		closing: make(chan struct{}),
 		// buffer quit to allow multiple resize signals without blocking immediately
 		quit:      make(chan struct{}, workers),
 		errorChan: make(chan error, workers),
@@ -42,7 +50,8 @@ func NewWorkerPool(workers int) *WorkerPool {
 }
 
 // Enqueue adds a job to the worker pool. If the pool has been shut down,
-// the job is silently dropped (see WorkerPool docstring).
+// the job is silently dropped (see WorkerPool docstring), and so is a job that is
+// still waiting for room when the pool is shut down.
 func (pool *WorkerPool) Enqueue(job JobFunc) {
 	pool.shutdownMu.RLock()
 	defer pool.shutdownMu.RUnlock()
@@ -53,12 +62,17 @@ func (pool *WorkerPool) Enqueue(job JobFunc) {
 
 	pool.wg.Add(1)
 
-	pool.jobs <- job
+	select {
+	case pool.jobs <- job:
+	case <-pool.closing:
+		pool.wg.Done()
+	}
 }
 
 // Shutdown shuts down the worker pool. It waits for all enqueued jobs to
 // finish before returning. Idempotent — repeat calls are no-ops.
 func (pool *WorkerPool) Shutdown() {
+	pool.closingOnce.Do(func() { close(pool.closing) })
 	pool.shutdownMu.Lock()
 
 	if pool.closed {
@@ -72,15 +86,20 @@ func (pool *WorkerPool) Shutdown() {
 	close(pool.jobs)
 	pool.shutdownMu.Unlock()
 
-	// Wait for all enqueued jobs to complete
+	// Run what is still queued here as well: a resize may have left no worker to do it.
+	for job := range pool.jobs {
+		pool.run(job)
+	}
+
+	// Wait for all enqueued jobs to complete; the workers exit on the closed jobs channel
 	pool.wg.Wait()
-	// Now signal any lingering workers to exit select loop
-	close(pool.quit)
 	// It's now safe to close the error channel (no more sends after wg completes)
 	close(pool.errorChan)
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// It holds as many errors as the pool was made with workers; while nobody receives them, further
+// errors are dropped, so that a job's error never keeps a worker or Shutdown waiting.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
@@ -91,6 +110,9 @@ func (pool *WorkerPool) Resize(newSize int) {
 		return
 	}
 
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
@@ -107,7 +129,12 @@ func (pool *WorkerPool) Resize(newSize int) {
 		// Decrease the number of workers
 		// Send only the number of quit signals needed to remove workers
 		for range -diff {
-			pool.quit <- struct{}{}
+			select {
+			case pool.quit <- struct{}{}:
+			case <-pool.closing:
+				// all workers exit
+				return
+			}
 		}
 	}
 }
@@ -129,15 +156,26 @@ func (pool *WorkerPool) worker() {
 				return
 			}
 
-			err := job()
-			if err != nil {
-				pool.errorChan <- err
-			}
-
-			pool.wg.Done()
+			pool.run(job)
 
 		case <-pool.quit:
 			return
 		}
 	}
 }
+
+// run executes one job and reports its error.
+func (pool *WorkerPool) run(job JobFunc) {
+	defer pool.wg.Done()
+
+	err := job()
+	if err == nil {
+		return
+	}
+
+	select {
+	case pool.errorChan <- err:
+	default:
+		// nobody receives the errors and the buffer is full
+	}
+}
-- 
2.43.0


From d4ba3c66aba29dc0998e0d9949e6933cd45ad57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:31 +0000
Subject: [PATCH 23/43] fix: a distributed node keeps the newest write or
 deletion of a key it has seen

---
 pkg/backend/dist_memory.go | 102 ++++++++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 29 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..cd1ab61 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -365,6 +365,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
 type distShard struct {
 	items             cache.ConcurrentMap
+	mu                sync.Mutex                  // guards tombs, and the version checks that precede a change to items
 	tombs             map[string]tombstone        // per-key tombstones
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
@@ -1194,6 +1195,9 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 
 	sh := dm.shardFor(it.Key)
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
 	delete(sh.tombs, it.Key)
 	sh.items.Set(it.Key, it)
 }
@@ -1875,35 +1879,24 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
-			return
-		}
-
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
+		sh.mu.Lock()
 
-			nextVer := cur.Version + 1
+		_, hasTomb := sh.tombs[key]
+		cur, okLocal := sh.items.Get(key)
 
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-			dm.metrics.tombstonesActive.Store(dm.countTombstones())
-		}
-
-		return
-	}
+		if !hasTomb && okLocal { // create tombstone advancing version
+			sh.items.Remove(key)
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
-			return
+			sh.tombs[key] = tombstone{version: cur.Version + 1, origin: string(dm.localNode.ID), at: time.Now()}
 		}
 
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
+		sh.mu.Unlock()
 		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+
+		return
 	}
 
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
-		dm.applySet(ctx, it, false)
+	if dm.applySet(ctx, it, false) { // newer than anything held here, a deletion included
 		dm.metrics.merkleKeysPulled.Add(1)
 	}
 }
@@ -1921,9 +1914,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
+		shard.mu.Lock()
+
 		for k, ts := range shard.tombs { // include tombstones
 			entries = append(entries, merkleKV{k: k, v: ts.version})
 		}
+
+		shard.mu.Unlock()
 	}
 
 	return entries
@@ -1974,6 +1971,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.mu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1981,6 +1980,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.mu.Unlock()
 	}
 
 	return purged
@@ -1995,7 +1996,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.mu.Lock()
+
 		total += int64(len(sh.tombs))
+
+		sh.mu.Unlock()
 	}
 
 	return total
@@ -4488,7 +4493,9 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 	dm.applySet(ctx, item, replicate)
 }
 
-// applySet stores item locally and optionally replicates to other owners.
+// applySet stores item locally unless the node already holds a newer write
+// or deletion of the key, and optionally replicates to other owners. It
+// reports whether the item was stored.
 // replicate indicates whether replication fan-out should occur (false for replica writes).
 //
 // Callers that receive a forwarded write from a peer (transport-side
@@ -4496,7 +4503,7 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) {
+func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) bool {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4517,17 +4524,17 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned := *item
 
 	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
+	stored := dm.storeNewer(sh, &cloned)
 
 	if !replicate || dm.ring == nil {
-		return
+		return stored
 	}
 
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
 	if len(owners) <= 1 || transport == nil {
-		return
+		return stored
 	}
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
@@ -4539,6 +4546,39 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
 	}
+
+	return stored
+}
+
+// storeNewer puts item in the shard unless the shard holds a newer write
+// (higher version, smaller origin on a tie) or a deletion at least as new,
+// and reports whether it did.
+func (dm *DistMemory) storeNewer(sh *distShard, item *cache.Item) bool {
+	sh.mu.Lock()
+
+	tomb, deleted := sh.tombs[item.Key]
+	if deleted && tomb.version >= item.Version {
+		sh.mu.Unlock()
+
+		return false
+	}
+
+	cur, ok := sh.items.Get(item.Key)
+	if ok && isHigherVersion(cur, item) {
+		sh.mu.Unlock()
+
+		return false
+	}
+
+	delete(sh.tombs, item.Key) // the key is written again after its deletion
+	sh.items.Set(item.Key, item)
+	sh.mu.Unlock()
+
+	if deleted {
+		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	}
+
+	return true
 }
 
 // replicateSetWithSpan opens a child span around a single replica
@@ -4609,13 +4649,15 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
 	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
-	var nextVer uint64
+
+	sh.mu.Lock()
+	// capture version from existing item or tombstone (if any) and increment for tombstone
+	nextVer := sh.tombs[key].version
 
 	if it, ok := sh.items.Get(key); ok && it != nil {
 		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
 
-		nextVer = ci.Version + 1
+		nextVer = max(nextVer, ci.Version+1)
 	}
 
 	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
@@ -4625,6 +4667,8 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	sh.items.Remove(key)
 
 	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+
+	sh.mu.Unlock()
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
 
 	transport := dm.loadTransport()
-- 
2.43.0


From f26e349c55bdd4c3cf755a886d7f0dac0143073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 24/43] fix: a primary versions writes and deletions above what
 it holds for the key

---
 pkg/backend/dist_memory.go | 73 ++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index cd1ab61..ba904ff 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -171,9 +171,6 @@ type DistMemory struct {
 	autoSyncBackoffFactor    atomic.Int64 // current multiplier; >=1 when adaptive enabled
 	autoSyncCleanTicks       atomic.Int64 // cumulative clean ticks (whole-cycle, not per-peer)
 
-	// tombstone version source when no prior item exists (monotonic per process)
-	tombVersionCounter atomic.Uint64
-
 	// tombstone retention / compaction
 	tombstoneTTL      time.Duration
 	tombstoneSweepInt time.Duration
@@ -3867,10 +3864,7 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 	}
 
 	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
-	item.Origin = string(dm.localNode.ID)
-	item.LastUpdated = time.Now()
-	dm.applySet(ctx, item, false)
+	dm.applyPrimary(item)
 
 	// When we promoted, the original primary is unreachable but still
 	// a listed owner. Pass the full owners list (not owners[1:]) so
@@ -4550,6 +4544,55 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	return stored
 }
 
+// applyPrimary stores a client's write on the node acting as the key's
+// primary, under a version above everything this node holds for the key.
+func (dm *DistMemory) applyPrimary(item *cache.Item) {
+	sh := dm.shardFor(item.Key)
+	stableKey := strings.Clone(item.Key) // see applySet
+
+	dm.recordOriginalPrimary(sh, stableKey)
+
+	sh.mu.Lock()
+
+	item.Version = dm.nextVersion(sh, stableKey)
+	item.Origin = string(dm.localNode.ID)
+	item.LastUpdated = time.Now()
+
+	cloned := *item
+
+	cloned.Key = stableKey
+	_, deleted := sh.tombs[stableKey]
+
+	delete(sh.tombs, stableKey)
+	sh.items.Set(stableKey, &cloned)
+	sh.mu.Unlock()
+
+	if deleted {
+		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	}
+}
+
+// nextVersion allocates the version of an operation on key for which this
+// node acts as primary: above any this node allocated before, and above the
+// write or deletion of the key it holds, which another node may have
+// versioned. The caller holds sh.mu.
+func (dm *DistMemory) nextVersion(sh *distShard, key string) uint64 {
+	held := sh.tombs[key].version
+
+	if it, ok := sh.items.Get(key); ok && it != nil {
+		held = max(held, it.Version)
+	}
+
+	for {
+		cur := dm.versionCounter.Load()
+		next := max(cur, held) + 1
+
+		if dm.versionCounter.CompareAndSwap(cur, next) {
+			return next
+		}
+	}
+}
+
 // storeNewer puts item in the shard unless the shard holds a newer write
 // (higher version, smaller origin on a tie) or a deletion at least as new,
 // and reports whether it did.
@@ -4651,17 +4694,17 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	sh := dm.shardFor(key)
 
 	sh.mu.Lock()
-	// capture version from existing item or tombstone (if any) and increment for tombstone
-	nextVer := sh.tombs[key].version
 
-	if it, ok := sh.items.Get(key); ok && it != nil {
-		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
+	var nextVer uint64
 
-		nextVer = max(nextVer, ci.Version+1)
-	}
+	if replicate { // acting primary: the deletion is an operation of its own
+		nextVer = dm.nextVersion(sh, key)
+	} else { // replica: supersede whatever is held, without getting ahead of the primary
+		nextVer = sh.tombs[key].version
 
-	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
-		nextVer = dm.tombVersionCounter.Add(1)
+		if it, ok := sh.items.Get(key); ok && it != nil {
+			nextVer = max(nextVer, it.Version+1)
+		}
 	}
 
 	sh.items.Remove(key)
-- 
2.43.0


From 254f4a40a5f13e4bb8c3ae76dfddb5d8a0e4bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:48 +0000
Subject: [PATCH 25/43] fix: a write forwarded to the primary is versioned,
 replicated and quorum-checked there

---
 pkg/backend/dist_http_server.go    |  5 ++-
 pkg/backend/dist_http_transport.go |  4 +++
 pkg/backend/dist_memory.go         | 58 +++++++++++++++++++++++-------
 pkg/backend/dist_transport.go      |  4 +--
 4 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..8de1082 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,10 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	err := dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	if err != nil { // stored here, but not acknowledged by enough owners
+		return fctx.Status(fiber.StatusFailedDependency).JSON(httpSetResponse{Error: err.Error()})
+	}
 
 	return fctx.JSON(httpSetResponse{})
 }
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..bfb4e7d 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -197,6 +197,10 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		return sentinel.ErrBackendNotFound
 	}
 
+	if resp.StatusCode == http.StatusFailedDependency {
+		return sentinel.ErrQuorumFailed
+	}
+
 	if resp.StatusCode >= statusThreshold {
 		errBody, rerr := io.ReadAll(body)
 		if rerr != nil {
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ba904ff..278f248 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3668,11 +3668,21 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
+	// The primary assigns the version: whatever an item read earlier
+	// carries says nothing about this write.
+	fwd := *item
+
+	fwd.Version, fwd.Origin = 0, ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &fwd, true)
 	if errFwd == nil {
 		return false, nil
 	}
 
+	if errors.Is(errFwd, sentinel.ErrQuorumFailed) { // the primary took the write; no other node can do better
+		return false, errFwd
+	}
+
 	// Primary unreachable for any reason — try to promote to a replica
 	// owner. The local node must be in owners[1:] AND still recognize
 	// itself as an owner (defensive against a stale ring snapshot
@@ -3863,9 +3873,6 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		promoted = true
 	}
 
-	// primary path: assign version & timestamp
-	dm.applyPrimary(item)
-
 	// When we promoted, the original primary is unreachable but still
 	// a listed owner. Pass the full owners list (not owners[1:]) so
 	// replicateTo's existing failure-path queues a hint for the dead
@@ -3878,19 +3885,30 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		replicas = owners
 	}
 
-	acks := 1 + dm.replicateTo(ctx, item, replicas)
-	dm.metrics.writeAcks.Add(int64(acks))
+	acks, err := dm.writeAsPrimary(ctx, item, len(owners), replicas)
 
 	span.SetAttributes(attribute.Int("dist.acks", acks))
 
-	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
-	if acks < needed {
+	return err
+}
+
+// writeAsPrimary runs a client's write on the node acting as the key's
+// primary: assign version & timestamp, store, fan out to replicas and check
+// the acknowledgements against the write consistency. Returns the
+// acknowledgement count.
+func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, owners int, replicas []cluster.NodeID) (int, error) {
+	dm.applyPrimary(item)
+
+	acks := 1 + dm.replicateTo(ctx, item, replicas)
+	dm.metrics.writeAcks.Add(int64(acks))
+
+	if acks < dm.requiredAcks(owners, dm.writeConsistency) {
 		dm.metrics.writeQuorumFailures.Add(1)
 
-		return sentinel.ErrQuorumFailed
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return nil
+	return acks, nil
 }
 
 // removeImpl is the business logic for Remove. Mirrors setImpl's
@@ -4477,14 +4495,30 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// An arrival to replicate that carries no version is a client's write
+// forwarded to this node as the key's primary (handleForwardPrimary): it is
+// versioned, replicated and checked against the write consistency exactly
+// like a client's write on this node.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		return nil
+	}
+
+	if replicate && item.Version == 0 {
+		owners := dm.lookupOwners(item.Key)
+		cloned := *item
+
+		_, err := dm.writeAsPrimary(ctx, &cloned, len(owners), owners)
+
+		return err
 	}
 
 	dm.applySet(ctx, item, replicate)
+
+	return nil
 }
 
 // applySet stores item locally unless the node already holds a newer write
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..e6e9df2 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -151,9 +151,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
-- 
2.43.0


From 722357b114e661b9b5c150f180ec7e722c6c2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:43 +0000
Subject: [PATCH 26/43] fix: anti-entropy adopts a deletion, not a peer's lack
 of a key

---
 pkg/backend/dist_http_server.go    |  6 ++---
 pkg/backend/dist_http_transport.go | 18 ++++++---------
 pkg/backend/dist_memory.go         | 35 ++++++++++++++++++++++++++----
 pkg/backend/dist_transport.go      | 10 ++++-----
 4 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 8de1082..cbd7b76 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -418,11 +418,9 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusNotFound).JSON(fiber.Map{constants.ErrorLabel: "not owner"})
 	}
 
-	if it, ok := dm.shardFor(key).items.Get(key); ok {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
-	}
+	it, found := dm.localGet(key)
 
-	return fctx.JSON(httpGetResponse{Found: false})
+	return fctx.JSON(httpGetResponse{Found: found, Item: it})
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bfb4e7d..ef20822 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -244,11 +244,7 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
-	return item, true, nil
+	return item, found, nil
 }
 
 func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
@@ -268,11 +264,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		}
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
-	if ib, ok := raw["item"]; ok && len(ib) > 0 {
+	if ib, ok := raw["item"]; ok && len(ib) > 0 { // on a miss: the record of a deletion
 		var mirror struct {
 			Key        string          `json:"key"`
 			Value      json.RawMessage `json:"value"`
@@ -294,7 +286,11 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
 			LastAccess:  time.Now(),
-		}, true, nil
+		}, found, nil
+	}
+
+	if !found {
+		return nil, false, nil
 	}
 
 	return &cache.Item{}, true, nil
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 278f248..e90533f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1875,16 +1875,23 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 
 	sh := dm.shardFor(key)
 
-	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
+	if !ok {
+		// A miss alone says nothing (the remote may never have had the key);
+		// one that carries a record is a deletion, adopted unless the key was
+		// written again since.
+		if it == nil {
+			return
+		}
+
 		sh.mu.Lock()
 
-		_, hasTomb := sh.tombs[key]
+		tomb, hasTomb := sh.tombs[key]
 		cur, okLocal := sh.items.Get(key)
 
-		if !hasTomb && okLocal { // create tombstone advancing version
+		if okLocal && cur.Version <= it.Version && (!hasTomb || tomb.version < it.Version) {
 			sh.items.Remove(key)
 
-			sh.tombs[key] = tombstone{version: cur.Version + 1, origin: string(dm.localNode.ID), at: time.Now()}
+			sh.tombs[strings.Clone(key)] = tombstone{version: it.Version, origin: it.Origin, at: time.Now()}
 		}
 
 		sh.mu.Unlock()
@@ -4606,6 +4613,26 @@ func (dm *DistMemory) applyPrimary(item *cache.Item) {
 	}
 }
 
+// localGet returns a copy of the item this node holds for key. When the node
+// deleted the key and still keeps the record, the miss comes with an item
+// that carries only the key and the deletion's version and origin.
+func (dm *DistMemory) localGet(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
+	if it, ok := sh.items.GetCopy(key); ok {
+		return it, true
+	}
+
+	if tomb, deleted := sh.tombs[key]; deleted {
+		return &cache.Item{Key: key, Version: tomb.version, Origin: tomb.origin}, false
+	}
+
+	return nil, false
+}
+
 // nextVersion allocates the version of an operation on key for which this
 // node acts as primary: above any this node allocated before, and above the
 // write or deletion of the key it holds, which another node may have
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index e6e9df2..35980e2 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -13,6 +13,9 @@ import (
 // DistTransport defines forwarding operations needed by DistMemory.
 type DistTransport interface {
 	ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error
+	// ForwardGet reads the node's own copy of key. When the node deleted the
+	// key and still knows the deletion, the miss comes with an item carrying
+	// only the key and the deletion's version and origin.
 	ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error)
 	ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error
 	Health(ctx context.Context, nodeID string) error
@@ -161,12 +164,9 @@ func (t *InProcessTransport) ForwardGet(_ context.Context, nodeID, key string) (
 		return nil, false, sentinel.ErrBackendNotFound
 	}
 
-	it, ok2 := b.shardFor(key).items.GetCopy(key)
-	if !ok2 {
-		return nil, false, nil
-	}
+	it, found := b.localGet(key)
 
-	return it, true, nil
+	return it, found, nil
 }
 
 // ForwardRemove forwards a remove operation.
-- 
2.43.0


From b8ce378cc44d071fb7001ec7ed4e4de20ba03da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 27/43] fix: a hint dropped for the per-node limit leaves the
 queue even if the new one is refused

---
 pkg/backend/dist_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e90533f..b4e2cf5 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2977,8 +2977,10 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		dropped := queue[0]
 
 		queue = queue[1:]
+		dm.hints[nodeID] = queue
 
 		dm.adjustHintAccounting(-1, -dropped.size)
+		dm.metrics.hintedBytes.Store(dm.hintBytes)
 	}
 
 	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
-- 
2.43.0


From fd1cac84f70aa7b132594ba2335e2cad6e810df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 28/43] fix: a canceled clear of a distributed node does not
 clear later

---
 pkg/backend/dist_memory.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b4e2cf5..8d02ec1 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1151,22 +1151,15 @@ func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 
 // Clear wipes all shards.
 func (dm *DistMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		for _, s := range dm.shards {
-			s.items.Clear()
-		}
-
-		close(done)
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil { // nothing may be cleared once the caller was told it was not
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	for _, s := range dm.shards {
+		s.items.Clear()
+	}
+
+	return nil
 }
 
 // LocalContains returns true if key exists in local shard (ignores ownership).
-- 
2.43.0


From 3c6a06367edca1496b84c94c4b95aa4df6e2b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 29/43] fix: listing keys is truncated only when a key is left
 out

---
 pkg/backend/dist_keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..3eb6a9a 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -108,6 +108,10 @@ func (a *listKeysAccumulator) tryAdd(keys []string) {
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
+		if _, ok := a.dedup[k]; ok {
+			continue
+		}
+
 		if len(a.dedup) >= a.maxKeys {
 			a.truncated = true
 
-- 
2.43.0


From 3c3db7b9a420f3ba5d18b247a2af21f1d102c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 30/43] fix: anti-entropy reads the in-process peers under
 their lock

---
 pkg/backend/dist_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8d02ec1..a506399 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1832,7 +1832,7 @@ func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) m
 		return missing
 	}
 
-	remote, ok := ip.backends[nodeID]
+	remote, ok := ip.lookup(nodeID)
 	if !ok {
 		return missing
 	}
-- 
2.43.0


From 5309b799fc342893c02ea018f0d7d17f082cede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 31/43] fix: the HTTP transport keeps an item's expiration

---
 pkg/backend/dist_http_transport.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index ef20822..b9331a6 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -157,7 +157,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	reqBody := httpSetRequest{
 		Key:        item.Key,
 		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
+		Expiration: wireMillis(item.Expiration),
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
@@ -213,6 +213,17 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	return nil
 }
 
+// wireMillis converts an expiration to the whole milliseconds of the wire,
+// rounding up: a fraction of a millisecond must not become "never expires".
+func wireMillis(d time.Duration) int64 {
+	ms := d.Milliseconds()
+	if d > 0 && d%time.Millisecond != 0 {
+		ms++
+	}
+
+	return ms
+}
+
 // ForwardGet fetches a single item from a remote node.
 func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error) {
 	// prefer canonical endpoint
@@ -281,7 +292,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  time.Duration(mirror.Expiration), // cache.Item marshals it in nanoseconds
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-- 
2.43.0


From 1f30af41e6e3bffa9886688a7ac4eaa8449e8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 32/43] fix: gossip reads the in-process peers under their lock

---
 pkg/backend/dist_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index a506399..7d6d3fe 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3452,7 +3452,7 @@ func (dm *DistMemory) runGossipTick() {
 	// transport's Gossip method, which routes via HTTP for the
 	// auto-created DistHTTPTransport.
 	if ip, ok := transport.(*InProcessTransport); ok {
-		if remote, ok2 := ip.backends[string(target.ID)]; ok2 {
+		if remote, ok2 := ip.lookup(string(target.ID)); ok2 {
 			remote.acceptGossip(snapshot)
 		}
 
-- 
2.43.0


From 78f88d9b1b6f194083e872f19b8fa612c1fe69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 33/43] fix: of gossiped claims that arrive together the
 highest incarnation stays

---
 internal/cluster/membership.go | 24 +++++++++++++++++++++++
 pkg/backend/dist_memory.go     | 35 +++++++---------------------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 34211df..add3ba0 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -58,7 +58,31 @@ func (m *Membership) OnStateChange(fn StateChangeObserver) {
 // Upsert adds or updates a node and rebuilds ring.
 func (m *Membership) Upsert(n *Node) {
 	m.mu.Lock()
+	m.upsertAndUnlock(n)
+}
+
+// UpsertNewer is Upsert for a claim heard from a peer: it is adopted only if
+// the node is unknown or the claim's incarnation is higher than the one held.
+// Comparison and update are one step, so of claims that arrive together the
+// one with the highest incarnation stays. Returns true if it was adopted.
+func (m *Membership) UpsertNewer(n *Node) bool {
+	m.mu.Lock()
+
+	cur, ok := m.nodes[n.ID]
+	if ok && n.Incarnation <= cur.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	m.upsertAndUnlock(n)
+
+	return true
+}
 
+// upsertAndUnlock does the work of Upsert. Caller holds m.mu, which is
+// released before the observers run.
+func (m *Membership) upsertAndUnlock(n *Node) {
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 7d6d3fe..3cea145 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3481,34 +3481,13 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		existing := false
-		for _, cur := range dm.membership.List() {
-			if cur.ID == node.ID {
-				existing = true
-
-				if node.Incarnation > cur.Incarnation {
-					dm.membership.Upsert(&cluster.Node{
-						ID:          node.ID,
-						Address:     node.Address,
-						State:       node.State,
-						Incarnation: node.Incarnation,
-						LastSeen:    time.Now(),
-					})
-				}
-
-				break
-			}
-		}
-
-		if !existing {
-			dm.membership.Upsert(&cluster.Node{
-				ID:          node.ID,
-				Address:     node.Address,
-				State:       node.State,
-				Incarnation: node.Incarnation,
-				LastSeen:    time.Now(),
-			})
-		}
+		dm.membership.UpsertNewer(&cluster.Node{
+			ID:          node.ID,
+			Address:     node.Address,
+			State:       node.State,
+			Incarnation: node.Incarnation,
+			LastSeen:    time.Now(),
+		})
 	}
 }
 
-- 
2.43.0


From 8e80a30d37dea5830bbc7a5eda68b322e911017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 34/43] fix: a refutation goes above the incarnation of the
 claim it refutes

---
 internal/cluster/membership.go | 33 ++++++++++++++++++++++++++++++---
 pkg/backend/dist_memory.go     |  8 +++-----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index add3ba0..fcda2b6 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -257,7 +257,35 @@ func (m *Membership) Refute(id NodeID) bool {
 		return false
 	}
 
-	n.Incarnation++
+	m.refuteAndUnlock(n, n.Incarnation+1)
+
+	return true
+}
+
+// RefuteClaim is Refute for a claim at a known incarnation. The node moves
+// above the claim's incarnation, not just above its own: an accuser bumps the
+// incarnation it holds when it marks the node, and would not adopt a
+// refutation that only ties with it. A claim below the node's incarnation is
+// stale and changes nothing. Returns true if the claim was refuted.
+func (m *Membership) RefuteClaim(id NodeID, claimed uint64) bool {
+	m.mu.Lock()
+
+	n, ok := m.nodes[id]
+	if !ok || claimed < n.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	m.refuteAndUnlock(n, claimed+1)
+
+	return true
+}
+
+// refuteAndUnlock makes the node alive at the incarnation. Caller holds m.mu,
+// which is released before the observers run.
+func (m *Membership) refuteAndUnlock(n *Node, incarnation uint64) {
+	n.Incarnation = incarnation
 
 	ringChanged := n.State == NodeDead
 	n.State = NodeAlive
@@ -269,12 +297,11 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	version := m.ver.Next()
 	observers := m.observers
+	id := n.ID
 
 	m.mu.Unlock()
 
 	notify(observers, id, NodeAlive, version)
-
-	return true
 }
 
 // rebuildRingLocked rebuilds the ring from the non-dead members. A mark that
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 3cea145..f72b83a 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3492,8 +3492,8 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 }
 
 // refuteIfSuspected handles the SWIM self-refute path: when a peer
-// gossips that THIS node is Suspect or Dead at incarnation N, bump
-// our local incarnation to N+1 and re-upsert ourselves as Alive.
+// gossips that THIS node is Suspect or Dead at incarnation N, move
+// our local incarnation to N+1, as Alive.
 // Higher-incarnation-wins propagation in `acceptGossip` ensures the
 // next gossip tick disseminates the refutation cluster-wide.
 //
@@ -3513,12 +3513,10 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 
 	// Only refute when the peer's claim is at >= our incarnation;
 	// older claims are stale and ignored.
-	if claim.Incarnation < dm.localNode.Incarnation {
+	if !dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
-
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
 		slog.Uint64("claim_incarnation", claim.Incarnation),
-- 
2.43.0


From 18bc416462a0fcb06634b3cd64adbab35d61f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 35/43] fix: a key whose hand-over failed and could not be
 queued stays for the next round

---
 pkg/backend/dist_memory.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index f72b83a..1ee66a0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2367,6 +2367,8 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	dm.metrics.rebalancedKeys.Add(1)
 	dm.metrics.rebalancedPrimary.Add(1)
 
+	sh := dm.shardFor(item.Key)
+
 	// Forward the item to the new primary. On failure, hand the item
 	// to the hint-replay queue keyed by the new primary's node ID:
 	// the replay loop will retry on its configured schedule until the
@@ -2378,18 +2380,25 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
 	if migrationErr != nil {
 		dm.logger.Info(
-			"rebalance migration forward failed; queued for hint replay",
+			"rebalance migration forward failed",
 			slog.String("key", item.Key),
 			slog.String("new_primary", string(owners[0])),
 			slog.Any("err", migrationErr),
 		)
 
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		if !dm.queueHint(string(owners[0]), item, hintSourceMigration) {
+			// Neither delivered nor queued: this copy may be the last
+			// one, so it stays and the next tick tries again.
+			sh.removedAtMu.Lock()
+			delete(sh.removedAt, item.Key)
+			sh.removedAtMu.Unlock()
+
+			return
+		}
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
 	// (the second branch of shouldRebalance) sees the new owner.
-	sh := dm.shardFor(item.Key)
 	if sh.originalPrimary != nil {
 		sh.originalPrimaryMu.Lock()
 
@@ -2951,9 +2960,9 @@ func (dm *DistMemory) getWithConsistencyParallel(
 }
 
 // --- Hinted handoff implementation ---.
-func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) { // reduced complexity
+func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) bool { // reduced complexity
 	if dm.hintTTL <= 0 {
-		return
+		return false
 	}
 
 	size := dm.approxHintSize(item)
@@ -2984,7 +2993,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 			dm.metrics.migrationHintDropped.Add(1)
 		}
 
-		return
+		return false
 	}
 
 	cloned := *item
@@ -3013,6 +3022,8 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
 	}
+
+	return true
 }
 
 // approxHintSize estimates the size of a hinted item for global caps.
-- 
2.43.0


From bb7a3697059374a7a587bd6ae8e6e776d8c92b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 36/43] fix: a node promoted to a key's primary hands it over
 when it is demoted again

---
 pkg/backend/dist_memory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 1ee66a0..ae2805b 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2137,6 +2137,13 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return false
 	}
 
+	if curPrimary == dm.localNode.ID && prevPrimary != curPrimary { // promoted since
+		sh.originalPrimaryMu.Lock()
+
+		sh.originalPrimary[it.Key] = curPrimary
+		sh.originalPrimaryMu.Unlock()
+	}
+
 	return prevPrimary == dm.localNode.ID && curPrimary != dm.localNode.ID
 }
 
-- 
2.43.0


From 3e5ba8cac457f5c9040043cb8d98442dca331c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 37/43] fix: an owner that left and returned counts as new to
 the replica diff

---
 pkg/backend/dist_memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ae2805b..b2eaf5f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2189,6 +2189,7 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		owners := dm.ring.Lookup(it.Key)
 		if len(owners) == 0 || owners[0] != dm.localNode.ID {
 			dm.maybeRecordRemoval(sh, it.Key)
+			dm.setOwnerBaseline(sh, it.Key, owners)
 
 			continue
 		}
@@ -2199,6 +2200,8 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 
 		newRepls := dm.computeNewReplicas(sh, it.Key, owners)
 		if len(newRepls) == 0 {
+			dm.setOwnerBaseline(sh, it.Key, owners) // owners that left are new if they return
+
 			continue
 		}
 
-- 
2.43.0


From c96d08143f8c89224d03a10615fbc59e69207a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 38/43] fix: new replicas that the replica diff did not reach
 are tried again

---
 pkg/backend/dist_memory.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b2eaf5f..cf631cc 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2162,10 +2162,8 @@ func (dm *DistMemory) replicateNewReplicas(ctx context.Context) {
 			continue
 		}
 
+		// Past the limit nothing is sent, but owners that left are noted.
 		processed = dm.replDiffShard(ctx, sh, processed, limit)
-		if limit > 0 && processed >= limit {
-			return
-		}
 	}
 }
 
@@ -2180,10 +2178,6 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 	}
 
 	for i := range snapshot {
-		if limit > 0 && processed >= limit {
-			return processed
-		}
-
 		it := &snapshot[i]
 
 		owners := dm.ring.Lookup(it.Key)
@@ -2205,8 +2199,13 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 			continue
 		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, owners)
+		var pending []cluster.NodeID
+
+		processed, pending = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
+		// Replicas that did not get the item stay new, for a later tick.
+		dm.setOwnerBaseline(sh, it.Key, slices.DeleteFunc(slices.Clone(owners), func(o cluster.NodeID) bool {
+			return slices.Contains(pending, o)
+		}))
 	}
 
 	return processed
@@ -2258,23 +2257,30 @@ func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluste
 	return out
 }
 
+// sendReplicaDiff sends the item to new replicas, as far as the limit allows. It returns the
+// number of operations so far and the replicas the item is neither sent to nor queued for.
 func (dm *DistMemory) sendReplicaDiff(
 	ctx context.Context,
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) (int, []cluster.NodeID) {
 	transport := dm.loadTransport()
-	if transport == nil {
-		return processed
+	if transport == nil || (limit > 0 && processed >= limit) {
+		return processed, repls
 	}
 
-	for _, rid := range repls {
+	var pending []cluster.NodeID
+
+	for i, rid := range repls {
 		if rid == dm.localNode.ID {
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if err != nil && !dm.queueHint(string(rid), it, hintSourceReplication) {
+			pending = append(pending, rid)
+		}
 
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
@@ -2284,11 +2290,11 @@ func (dm *DistMemory) sendReplicaDiff(
 		if limit > 0 && processed >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			return processed, append(pending, repls[i+1:]...)
 		}
 	}
 
-	return processed
+	return processed, pending
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
-- 
2.43.0


From cd34c20f954abd708d39bb70fbea0f2d887eded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 39/43] fix: the grace period of a key counts from when its
 ownership was last lost

---
 pkg/backend/dist_memory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index cf631cc..43da144 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2117,6 +2117,12 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return true
 	}
 
+	if dm.removalGracePeriod > 0 { // an owner again: the grace period starts over if it is lost again
+		sh.removedAtMu.Lock()
+		delete(sh.removedAt, it.Key)
+		sh.removedAtMu.Unlock()
+	}
+
 	if dm.ring == nil || sh.originalPrimary == nil { // nothing else to compare
 		return false
 	}
-- 
2.43.0


From ea76a4b27abb22bf974dd09e787bfc98d00b6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:53 +0000
Subject: [PATCH 40/43] fix: a write that comes while its key is handed over is
 not let go

---
 pkg/backend/dist_memory.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 43da144..0338070 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -360,6 +360,12 @@ func (dm *DistMemory) Ring() *cluster.Ring { return dm.ring }
 // the returned ctx has no effect.
 func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
+// writeID identifies a write of a key.
+type writeID struct {
+	version uint64
+	origin  string
+}
+
 type distShard struct {
 	items             cache.ConcurrentMap
 	mu                sync.Mutex                  // guards tombs, and the version checks that precede a change to items
@@ -369,7 +375,8 @@ type distShard struct {
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
 	originalOwnersMu  sync.RWMutex                // guards originalOwners
 	removedAt         map[string]time.Time        // when we first observed we are no longer an owner (for grace shedding)
-	removedAtMu       sync.Mutex                  // guards removedAt
+	removedAtMu       sync.Mutex                  // guards removedAt and handedOver
+	handedOver        map[string]writeID          // the write of a key in removedAt that its new primary was sent
 }
 
 // DistMemoryOption configures DistMemory backend.
@@ -2448,13 +2455,26 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 				sh.removedAt[item.Key] = time.Now()
 			}
 
+			sh.handedOver[item.Key] = writeID{version: item.Version, origin: item.Origin}
 			sh.removedAtMu.Unlock()
 		} else {
-			sh.items.Remove(item.Key)
+			sh.removeWrite(item.Key, writeID{version: item.Version, origin: item.Origin})
 		}
 	}
 }
 
+// removeWrite removes the local copy of a key if it still is the given write: one that
+// came while that write was handed over stays, and is handed over at the next tick.
+func (sh *distShard) removeWrite(key string, write writeID) {
+	sh.mu.Lock()
+	defer sh.mu.Unlock()
+
+	cur, ok := sh.items.Get(key)
+	if ok && cur.Version == write.version && cur.Origin == write.origin {
+		sh.items.Remove(key)
+	}
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
@@ -2479,20 +2499,21 @@ func (dm *DistMemory) shedShard(sh *distShard, now time.Time) {
 
 	sh.removedAtMu.Lock()
 
-	var dels []string
+	dels := make(map[string]writeID)
 
 	for k, at := range sh.removedAt {
 		if now.Sub(at) >= grace {
-			dels = append(dels, k)
+			dels[k] = sh.handedOver[k]
 			delete(sh.removedAt, k)
+			delete(sh.handedOver, k)
 		}
 	}
 
 	sh.removedAtMu.Unlock()
 
-	for _, k := range dels {
+	for k, write := range dels {
 		if !dm.ownsKeyInternal(k) {
-			sh.items.Remove(k)
+			sh.removeWrite(k, write)
 		}
 	}
 }
@@ -2549,6 +2570,7 @@ func (dm *DistMemory) ensureShardConfig() {
 				originalPrimary: make(map[string]cluster.NodeID),
 				originalOwners:  make(map[string][]cluster.NodeID),
 				removedAt:       make(map[string]time.Time),
+				handedOver:      make(map[string]writeID),
 			})
 	}
 }
-- 
2.43.0


From 29913e91516a1ac1ccef3f45f4ae77138fb513a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:32 +0000
Subject: [PATCH 41/43] fix: tombstones and hints keep their own copy of the
 key

A deletion received over HTTP stored its tombstone under fiber's pooled
query string, which the next request on the connection overwrites; hints
for writes of the REST server had the same problem.
---
 pkg/backend/dist_memory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0338070..b8b75ed 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3041,6 +3041,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	}
 
 	cloned := *item
+	cloned.Key = strings.Clone(item.Key) // see applySet
 
 	now := time.Now()
 
@@ -4797,7 +4798,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 
 	sh.items.Remove(key)
 
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+	sh.tombs[strings.Clone(key)] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()} // see applySet
 
 	sh.mu.Unlock()
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
-- 
2.43.0


From 16a5c0e9a4fad581e3f73ab37479c73262083b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:32 +0000
Subject: [PATCH 42/43] fix: the server detaches the key of a PUT before
 storing it

The eviction policy kept fiber's pooled path string as its key and later
evicted the wrong keys.
---
 cmd/hypercache-server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..8bbc1ad 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -687,7 +687,7 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := strings.Clone(c.Params("key")) // detach from fiber's pooled path buffer: the cache keeps it
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
-- 
2.43.0


From 9d4004bcf73dcfca0d8d27dcade792cc9741c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:06:16 +0000
Subject: [PATCH 43/43] fix: the server unescapes the key in a request's path

---
 cmd/hypercache-server/main.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 8bbc1ad..f1289a2 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -679,6 +680,20 @@ const (
 	listKeysHardMax      = 50000
 )
 
+// pathKey returns the key a request's path names: unescaped, so that it is the
+// key batches and listings use (an invalid escape stands for itself), and
+// detached from fiber's pooled path buffer, since the cache keeps it.
+func pathKey(c fiber.Ctx) string {
+	raw := c.Params("key")
+
+	key, err := url.PathUnescape(raw)
+	if err != nil {
+		key = raw
+	}
+
+	return strings.Clone(key)
+}
+
 // handlePut implements PUT /v1/cache/:key.
 // Body is the raw value (any content type). Optional ?ttl=<dur>
 // applies a relative expiration; empty/absent means no expiration.
@@ -687,7 +702,7 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := strings.Clone(c.Params("key")) // detach from fiber's pooled path buffer: the cache keeps it
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -875,7 +890,7 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1174,7 +1189,7 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
@@ -1285,7 +1300,7 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1310,7 +1325,7 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
-- 
2.43.0

