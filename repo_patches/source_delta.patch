From 4067c29f85c8ce5bad9946a02bda2ca4068279d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 01/46] fix: reject null record attributes when decoding
 instead of panicking

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..b232aa6 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -96,6 +96,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 	if !v.CanSet() {
 		return fmt.Errorf("field not addressable")
 	}
+	if attr == nil {
+		return fmt.Errorf("cannot assign null value to type")
+	}
 	attrV := reflect.ValueOf(attr)
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
-- 
2.43.0


From d322d7af7007d3767df15380cc00721c03d8fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 02/46] fix: return an error when encoding a nil record pointer
 instead of panicking

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..0db6472 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, errors.New("cannot encode nil record")
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From dbfadbb9376620348f0c586415bd4608e4a1a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 03/46] fix: make every registered record type implement Record

---
 records.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/records.go b/records.go
index bba20eb..50cd99e 100644
--- a/records.go
+++ b/records.go
@@ -183,22 +183,57 @@ type ImageRecord struct {
 	BaseRecord
 }
 
+func (r ImageRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ImageRecord",
+	}
+}
+
 type IngressRecord struct {
 	BaseRecord
 }
 
+func (r IngressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "IngressRecord",
+	}
+}
+
 type EgressRecord struct {
 	BaseRecord
 }
 
+func (r EgressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "EgressRecord",
+	}
+}
+
 type CollectorRecord struct {
 	BaseRecord
 }
 
+func (r CollectorRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "CollectorRecord",
+	}
+}
+
 type ProcessGroupRecord struct {
 	BaseRecord
 }
 
+func (r ProcessGroupRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ProcessGroupRecord",
+	}
+}
+
 type HostRecord struct {
 	BaseRecord
 	Provider *string `vflow:"10"`
-- 
2.43.0


From 6741d2125ce58551f0e7008bef71cd48cc0e5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 04/46] fix: do not call OnAdd when accumulating a record fails

---
 store/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..bb8aba1 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -84,13 +84,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
-- 
2.43.0


From 5e9e4141c442d27bb085015e5c3593f182bb9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 05/46] fix: return an error when a partial record cannot be
 merged instead of panicking

---
 store/patcher.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..5cd7bc7 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -47,8 +47,15 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	if !changed {
 		return next, errNoChange
 	}
-	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record of type %T is not a vanflow record", rawOut)
+	}
+	entry.Meta.UpdatedAt = time.Now()
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From b94f6e5b42c4b2a6b4f84702d7c09347bf6e95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 06/46] fix: accumulate under the key of the record's own
 source and type

---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index bb8aba1..e559e78 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Meta:     Metadata{Source: source},
+		TypeMeta: partial.GetTypeMeta(),
+		Record:   partial,
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From 6b1381baf7ee0b4ec3af9405eaccb6895f921ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 07/46] fix: do not panic on selectors with a negative offset

---
 store/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index e559e78..e16bae9 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -132,6 +132,12 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		if err != nil {
 			return result, err
 		}
+		if offset < 0 {
+			return result, fmt.Errorf("invalid continue token: negative offset %d", offset)
+		}
+	}
+	if offset < 0 {
+		offset = 0
 	}
 
 	if offset >= len(result.Entries) {
-- 
2.43.0


From 792e84404ec3ab54a91243f1c5ae47967ae5f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 08/46] fix: never reuse entry versions so that stale ETags
 cannot match a re-created entry

---
 store/internal/cache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..7c97388 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,9 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version last assigned to any item. Never reused, so that an item that
+	// is deleted and re-created cannot be mistaken for its predecessor.
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -57,7 +60,8 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +85,8 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +117,8 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		m.version++
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.version}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From 399fd8d3d64188a23f19b1557b080c763cf24680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 09/46] fix: do not deadlock or panic when a client is closed
 with listeners running or twice

---
 eventsource/client.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..395bd8f 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -17,6 +17,8 @@ const (
 	sourceSuffixHeartbeats = ".heartbeats"
 )
 
+var errClientClosed = errors.New("client closed")
+
 // Client is responsible for interacting with Event Sources
 //
 // Allows the caller to register message handler callbacks to react to received
@@ -26,6 +28,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -39,19 +42,10 @@ type ClientOptions struct {
 }
 
 func NewClient(container session.Container, cfg ClientOptions) *Client {
-	c := &Client{
+	return &Client{
 		container:   container,
 		eventSource: cfg.Source,
 	}
-	c.start()
-	return c
-}
-
-func (c *Client) start() {
-	c.lock.Lock()
-	defer c.lock.Unlock()
-	done := make(chan struct{})
-	c.cleanup = append(c.cleanup, func() { close(done) })
 }
 
 type HeartbeatMessageHandler func(vanflow.HeartbeatMessage)
@@ -83,13 +77,15 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 
 // Listen instructs the Client to listen to an event source using the specified
 // listener configuration until the context is cancelled or client.Close() is
-// called.
+// called. Fails once the client is closed.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
-	listenerCtx, listenerCancel := context.WithCancel(ctx)
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		return errClientClosed
+	}
+	c.wg.Add(1)
+	listenerCtx, listenerCancel := context.WithCancel(ctx)
 	c.cleanup = append(c.cleanup, listenerCancel)
 
 	go func(ctx context.Context) {
@@ -136,13 +132,16 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 	return nil
 }
 
-// Close stops all listeners
+// Close stops all listeners and waits for them to finish. It may be called more
+// than once, but not from a message handler.
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
+	c.closed = true
 	for _, cancel := range c.cleanup {
 		cancel()
 	}
+	c.lock.Unlock()
+	// listeners use the lock to look up their handlers
 	c.wg.Wait()
 }
 
-- 
2.43.0


From 7c7fe962a29541f496fb22011111b6fca01cd339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 10/46] fix: ignore messages without subject and beacons
 without identity in discovery

---
 eventsource/discovery.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..4065700 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,11 +61,20 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
+		if msg.Properties == nil || msg.Properties.Subject == nil {
+			slog.Info("received message without subject from beacon source")
+			continue
+		}
 		if *msg.Properties.Subject != "BEACON" {
 			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
 			continue
 		}
-		d.observe(vanflow.DecodeBeacon(msg))
+		beacon := vanflow.DecodeBeacon(msg)
+		if beacon.Identity == "" {
+			slog.Info("received beacon without identity from beacon source", slog.Any("source", msg.Properties.To))
+			continue
+		}
+		d.observe(beacon)
 	}
 }
 
-- 
2.43.0


From 6794ae1e41a6d0051b4b3e203ba4ff2d6f9ec314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 11/46] fix: deliver discovery notifications in order and
 without blocking under the lock

---
 eventsource/discovery.go | 60 ++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index 4065700..f70f4e4 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,17 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	events        []discoveryEvent
+	notify        chan struct{}
 	beaconAddress string
 }
 
+// discoveryEvent is a change in the known sources that was not handled yet
+type discoveryEvent struct {
+	source    Info
+	forgotten bool
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +46,7 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		notify:        make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -80,21 +85,46 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 
 func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandlers) {
 	for {
+		for ctx.Err() == nil {
+			event, ok := d.nextEvent()
+			if !ok {
+				break
+			}
+			handler := handlers.Discovered
+			if event.forgotten {
+				handler = handlers.Forgotten
+			}
+			if handler != nil {
+				handler(event.source)
+			}
+		}
 		select {
 		case <-ctx.Done():
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
-			}
-		case info := <-d.forgotten:
-			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
-			}
+		case <-d.notify:
 		}
 	}
 }
 
+// enqueue an event for the handlers. Never blocks. The caller holds the lock.
+func (d *Discovery) enqueue(event discoveryEvent) {
+	d.events = append(d.events, event)
+	select {
+	case d.notify <- struct{}{}:
+	default: // already notified
+	}
+}
+
+func (d *Discovery) nextEvent() (event discoveryEvent, ok bool) {
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	if len(d.events) == 0 {
+		return event, false
+	}
+	event, d.events = d.events[0], d.events[1:]
+	return event, true
+}
+
 // Get an EventSource by ID
 func (d *Discovery) Get(id string) (source Info, ok bool) {
 	d.lock.Lock()
@@ -114,7 +144,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.enqueue(discoveryEvent{source: info})
 	return true
 }
 
@@ -129,7 +159,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.enqueue(discoveryEvent{source: state, forgotten: true})
 	}
 	return forget
 }
@@ -289,7 +319,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.enqueue(discoveryEvent{source: state})
 	}
 }
 
-- 
2.43.0


From 68d745a694468bf9459aa5d0b0e8f39d162abcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 12/46] fix: do not treat an error receiving flush messages as
 a flush request

---
 eventsource/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..25dac65 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -316,6 +316,7 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From 808b938511824d4a3b049226fae1f433b5cbdf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 13/46] fix: enforce the delivery timeout of beacons and
 heartbeats

---
 eventsource/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 25dac65..222ec59 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -331,7 +331,7 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
+	err := sender.Send(requestCtx, msg)
 	if err != nil {
 		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
 			return errSendTimeoutExceeded
-- 
2.43.0


From f9fb1504442c5a461f89d37773f6a4e6facc124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 14/46] fix: do not spin on failing sends and listings, and
 stop doing so when the context ends

---
 eventsource/manager.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 222ec59..328b1c1 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -13,6 +13,10 @@ import (
 	"github.com/c-kruse/vanflow/store"
 )
 
+// flushRetryInterval is the time to wait before listing the resources of a
+// store again when that failed
+const flushRetryInterval = 100 * time.Millisecond
+
 type ManagerConfig struct {
 	Source Info
 
@@ -196,11 +200,13 @@ func (m *Manager) serve(ctx context.Context) {
 				stor := flushStoreQ[0]
 				result, err := stor.List(ctx, selector)
 				if err != nil {
-					if errors.Is(err, ctx.Err()) {
+					slog.Error("flush error listing resources", slog.Any("error", err))
+					select {
+					case <-ctx.Done():
 						return
+					case <-time.After(flushRetryInterval):
 					}
-					slog.Error("flush error listing resources", slog.Any("error", err))
-					continue // probably bad.
+					continue
 				}
 				selector.Continue = result.Continue
 				if result.Continue == "" {
@@ -258,20 +264,25 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	heartbeatSender := m.container.NewSender(heartbeatAddr, session.SenderOptions{})
 	defer heartbeatSender.Close(ctx)
 
-	// start with sending beacon
-	for {
-		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
-			slog.Error("error sending initial beacon message", slog.Any("error", err))
-			continue
-		}
-		break
-	}
-
 	messageDeliveryTimeout := heartbeatInterval
 	if messageDeliveryTimeout > beaconInterval {
 		messageDeliveryTimeout = beaconInterval
 	}
 
+	// start with sending beacon
+	for {
+		err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode())
+		if err == nil {
+			break
+		}
+		slog.Error("error sending initial beacon message", slog.Any("error", err))
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(messageDeliveryTimeout):
+		}
+	}
+
 	beaconTimer := time.NewTicker(beaconInterval)
 	heartbeatTimer := time.NewTicker(heartbeatInterval)
 	heartbeatTimeouts := 0
-- 
2.43.0


From 2d2619840026e2087ca6dfe743e3261154f1a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 15/46] fix: grant receivers the credit that was requested

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 2cf2cc08e0f0db024fb981991f7a4473520f2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 16/46] fix: close the connection when no session can be
 created on it

---
 session/container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/container.go b/session/container.go
index 154bb0b..7ec939c 100644
--- a/session/container.go
+++ b/session/container.go
@@ -176,6 +176,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
 				generation++
-- 
2.43.0


From d8c3500fcbc372ebf520a999bb3666dcfdddb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 17/46] fix: do not hold the container's lock while calling
 session error handlers

---
 session/container.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/session/container.go b/session/container.go
index 7ec939c..97081bd 100644
--- a/session/container.go
+++ b/session/container.go
@@ -128,6 +128,17 @@ func (c *container) OnSessionError(handler func(error)) {
 	c.errorHandlers = append(c.errorHandlers, handler)
 }
 
+// handleSessionError calls the error handlers without holding the lock so that
+// they can use the container.
+func (c *container) handleSessionError(err error) {
+	c.mu.Lock()
+	handlers := append([]func(error){}, c.errorHandlers...)
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
+}
+
 func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
 	c.mu.Lock()
 	session, gen, hasNext := c.sess, c.gen, c.hasNext
@@ -209,12 +220,7 @@ func (c *container) Start(ctx context.Context) {
 			},
 			b,
 			func(err error, d time.Duration) {
-				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.handleSessionError(errSessionRestart{Err: err, D: d})
 			},
 		)
 		defer prevSessionTeardown()
@@ -222,12 +228,7 @@ func (c *container) Start(ctx context.Context) {
 			if errors.Is(err, ctx.Err()) {
 				return
 			}
-			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.handleSessionError(fmt.Errorf("error caused contianer to close: %w", err))
 		}
 	}()
 }
-- 
2.43.0


From 0cb6419706af2ee00d3dfaa55042d4e19632a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 18/46] fix: attribute session failures to the session that
 failed and never block reporting them

---
 session/container.go | 105 ++++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/session/container.go b/session/container.go
index 97081bd..85778c8 100644
--- a/session/container.go
+++ b/session/container.go
@@ -99,11 +99,10 @@ func (cfg ContainerConfig) toAmqp() *amqp.ConnOptions {
 // strategy.
 func NewContainer(address string, config ContainerConfig) Container {
 	c := &container{
-		address:       address,
-		config:        config,
-		hasNext:       make(chan struct{}),
-		sessionErrors: make(chan sessionErr, 32),
-		notifyOK:      make(chan int, 32),
+		address:  address,
+		config:   config,
+		hasNext:  make(chan struct{}),
+		notifyOK: make(chan int, 32),
 	}
 	return c
 }
@@ -118,7 +117,8 @@ type container struct {
 	hasNext       chan struct{}
 	errorHandlers []func(error)
 
-	sessionErrors chan sessionErr
+	// sessionErrors holds the first failure reported of the current session
+	sessionErrors chan error
 	notifyOK      chan int
 }
 
@@ -154,13 +154,18 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 	}
 }
 
-type sessionErr struct {
-	Generation int
-	Err        error
-}
-
-func (e sessionErr) Error() string {
-	return e.Err.Error()
+// reportError reports the failure of a session. Only the first failure of the
+// current session matters, so that it never blocks.
+func (c *container) reportError(generation int, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if generation != c.gen {
+		return
+	}
+	select {
+	case c.sessionErrors <- err:
+	default:
+	}
 }
 
 // Start the container. It will run until the context is cancelled or until the
@@ -195,6 +200,8 @@ func (c *container) Start(ctx context.Context) {
 				c.mu.Lock()
 				close(c.hasNext)
 				c.sess, c.gen, c.hasNext = sess, generation, make(chan struct{})
+				sessionErrors := make(chan error, 1)
+				c.sessionErrors = sessionErrors
 				c.mu.Unlock()
 
 				prevSessionTeardown()
@@ -211,10 +218,8 @@ func (c *container) Start(ctx context.Context) {
 						if gen == generation {
 							b.Reset()
 						}
-					case recvErr := <-c.sessionErrors:
-						if recvErr.Generation == generation {
-							return fmt.Errorf("session receiver error: %s", recvErr)
-						}
+					case recvErr := <-sessionErrors:
+						return fmt.Errorf("session receiver error: %s", recvErr)
 					}
 				}
 			},
@@ -258,14 +263,13 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	l := &link{
-		address:       address,
-		container:     c,
-		receiverOpts:  r.get(),
-		senderOpts:    s.get(),
-		sessionErrors: c.sessionErrors,
-		reportOK:      c.notifyOK,
-		curr:          c.sess,
-		currGen:       c.gen,
+		address:      address,
+		container:    c,
+		receiverOpts: r.get(),
+		senderOpts:   s.get(),
+		reportOK:     c.notifyOK,
+		curr:         c.sess,
+		currGen:      c.gen,
 	}
 	return l
 }
@@ -275,8 +279,7 @@ type link struct {
 	receiverOpts amqp.ReceiverOptions
 	senderOpts   amqp.SenderOptions
 
-	sessionErrors chan<- sessionErr
-	reportOK      chan<- int
+	reportOK chan<- int
 
 	container *container
 
@@ -290,7 +293,10 @@ type link struct {
 	snd     *amqp.Sender
 }
 
-var errLinkClosed = errors.New("link closed")
+var (
+	errLinkClosed    = errors.New("link closed")
+	errSessionFailed = errors.New("session failed")
+)
 
 func (r *link) awaitSession(ctx context.Context) error {
 	r.mu.Lock()
@@ -307,53 +313,56 @@ func (r *link) awaitSession(ctx context.Context) error {
 		return err
 	}
 	r.mu.Lock()
-	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
+	defer r.mu.Unlock()
+	if nextGen > r.currGen {
+		r.curr, r.currGen = next, nextGen
+	}
 	return nil
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
 	}
 	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
 	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
 	}
 	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
 	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
-	if errors.Is(err, ctx.Err()) {
+// handleError handles an error using the session of the given generation.
+func (r *link) handleError(ctx context.Context, generation int, err error) error {
+	if ctx.Err() != nil {
+		// the operation was given up, which is not a failure of the session
 		return err
 	}
 	if errors.Is(err, errLinkClosed) {
 		return err
 	}
-	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
-		Err:        err,
-	}
+	r.container.reportError(generation, err)
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	if r.currGen == generation {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
 	return err
 }
 
@@ -363,9 +372,12 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
+	if r.curr == nil {
+		return nil, r.currGen, errSessionFailed
+	}
 	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.rcv, r.rcvGen = rcv, r.currGen
 	return r.rcv, r.rcvGen, nil
@@ -377,9 +389,12 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
+	if r.curr == nil {
+		return nil, r.currGen, errSessionFailed
+	}
 	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.snd, r.sndGen = snd, r.currGen
 	return r.snd, r.sndGen, nil
-- 
2.43.0


From f5dd582fee6d07ed439230996cff351e63142965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 19/46] fix: close links safely: end operations in progress,
 release senders, never fail the session

---
 session/container.go | 147 ++++++++++++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 45 deletions(-)

diff --git a/session/container.go b/session/container.go
index 85778c8..4a22f02 100644
--- a/session/container.go
+++ b/session/container.go
@@ -270,7 +270,9 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 		reportOK:     c.notifyOK,
 		curr:         c.sess,
 		currGen:      c.gen,
+		mu:           make(chan struct{}, 1),
 	}
+	l.ctx, l.cancel = context.WithCancel(context.Background())
 	return l
 }
 
@@ -283,8 +285,12 @@ type link struct {
 
 	container *container
 
-	mu      sync.Mutex
-	closed  bool
+	// ctx ends when the link is closed
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	// mu is held by sending, so that waiting for it can be given up
+	mu      chan struct{}
 	currGen int
 	curr    *amqp.Session
 	rcvGen  int
@@ -298,13 +304,40 @@ var (
 	errSessionFailed = errors.New("session failed")
 )
 
-func (r *link) awaitSession(ctx context.Context) error {
-	r.mu.Lock()
-	curr, currGen, closed := r.curr, r.currGen, r.closed
-	r.mu.Unlock()
-	if closed {
+// begin an operation, which ends with its context or when the link is closed.
+func (r *link) begin(ctx context.Context) (context.Context, func()) {
+	ctx, cancel := context.WithCancel(ctx)
+	stop := context.AfterFunc(r.ctx, cancel)
+	return ctx, func() {
+		stop()
+		cancel()
+	}
+}
+
+// lock the link for an operation, unless it is closed.
+func (r *link) lock(ctx context.Context) error {
+	select {
+	case r.mu <- struct{}{}:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+	if r.ctx.Err() != nil {
+		r.unlock()
 		return errLinkClosed
 	}
+	return nil
+}
+
+func (r *link) unlock() {
+	<-r.mu
+}
+
+func (r *link) awaitSession(ctx context.Context) error {
+	if err := r.lock(ctx); err != nil {
+		return err
+	}
+	curr, currGen := r.curr, r.currGen
+	r.unlock()
 	if curr != nil {
 		return nil
 	}
@@ -312,54 +345,68 @@ func (r *link) awaitSession(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
-	r.mu.Lock()
-	defer r.mu.Unlock()
+	if err := r.lock(ctx); err != nil {
+		return err
+	}
+	defer r.unlock()
 	if nextGen > r.currGen {
 		r.curr, r.currGen = next, nextGen
 	}
 	return nil
 }
 
-func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
+func (r *link) withReceiver(ctx context.Context, fn func(ctx context.Context, receiver *amqp.Receiver, generation int) error) error {
+	ctx, done := r.begin(ctx)
+	defer done()
 	if err := r.awaitSession(ctx); err != nil {
-		return fmt.Errorf("session await error: %w", err)
+		return r.giveUp(fmt.Errorf("session await error: %w", err))
 	}
 	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
-	if err := fn(rcv, currGen); err != nil {
+	if err := fn(ctx, rcv, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
+func (r *link) withSender(ctx context.Context, fn func(ctx context.Context, sender *amqp.Sender, generation int) error) error {
+	ctx, done := r.begin(ctx)
+	defer done()
 	if err := r.awaitSession(ctx); err != nil {
-		return fmt.Errorf("session await error: %w", err)
+		return r.giveUp(fmt.Errorf("session await error: %w", err))
 	}
 	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
-	if err := fn(snd, currGen); err != nil {
+	if err := fn(ctx, snd, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
+// giveUp returns the error of an operation that ended with its context or
+// because the link is closed.
+func (r *link) giveUp(err error) error {
+	if r.ctx.Err() != nil {
+		return errLinkClosed
+	}
+	return err
+}
+
 // handleError handles an error using the session of the given generation.
 func (r *link) handleError(ctx context.Context, generation int, err error) error {
-	if ctx.Err() != nil {
-		// the operation was given up, which is not a failure of the session
-		return err
-	}
-	if errors.Is(err, errLinkClosed) {
-		return err
+	if ctx.Err() != nil || r.ctx.Err() != nil {
+		// which is not a failure of the session
+		return r.giveUp(err)
 	}
 	r.container.reportError(generation, err)
-	r.mu.Lock()
-	defer r.mu.Unlock()
+	if lockErr := r.lock(ctx); lockErr != nil {
+		return r.giveUp(err)
+	}
+	defer r.unlock()
 	if r.currGen == generation {
 		r.curr, r.rcv, r.snd = nil, nil, nil
 	}
@@ -367,8 +414,10 @@ func (r *link) handleError(ctx context.Context, generation int, err error) error
 }
 
 func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
+	if err := r.lock(ctx); err != nil {
+		return nil, 0, err
+	}
+	defer r.unlock()
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
@@ -384,8 +433,10 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 }
 
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
+	if err := r.lock(ctx); err != nil {
+		return nil, 0, err
+	}
+	defer r.unlock()
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
@@ -404,18 +455,19 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 	var (
 		result *amqp.Message
 	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
-		msg, err := rcv.Receive(ctx, nil)
-		if err != nil {
-			return fmt.Errorf("receive error: %w", err)
+	for {
+		err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, _ int) error {
+			msg, err := rcv.Receive(ctx, nil)
+			if err != nil {
+				return fmt.Errorf("receive error: %w", err)
+			}
+			result = msg
+			return nil
+		})
+		if err == nil || ctx.Err() != nil || r.ctx.Err() != nil {
+			return result, err
 		}
-		result = msg
-		return nil
-	})
-	if err != nil && ctx.Err() == nil {
-		return r.Next(ctx)
 	}
-	return result, err
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
@@ -423,7 +475,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		acceptErr  error
 		generation int
 	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, gen int) error {
+	err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, gen int) error {
 		generation = gen
 		acceptErr = rcv.AcceptMessage(ctx, msg)
 		// accepting messages is a stateful operation, so don't report the error back
@@ -444,7 +496,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	var generation int
-	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
+	err := r.withSender(ctx, func(ctx context.Context, snd *amqp.Sender, gen int) error {
 		generation = gen
 		err := snd.Send(ctx, msg, nil)
 		if err != nil {
@@ -462,13 +514,18 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 }
 
 func (r *link) Close(ctx context.Context) error {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.closed = true
-	rcv := r.rcv
+	r.cancel()
+	// operations in progress end and do not begin to use the link any more
+	r.mu <- struct{}{}
+	rcv, snd := r.rcv, r.snd
 	r.curr, r.rcv, r.snd = nil, nil, nil
+	r.unlock()
+	var errs []error
 	if rcv != nil {
-		return rcv.Close(ctx)
+		errs = append(errs, rcv.Close(ctx))
 	}
-	return nil
+	if snd != nil {
+		errs = append(errs, snd.Close(ctx))
+	}
+	return errors.Join(errs...)
 }
-- 
2.43.0


From 0b8931e6fb3ca848fd3cce75fcae479b41511e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 20/46] fix: do not deadlock the mock router on full or closed
 receivers, fail operations on closed receivers

---
 session/mock.go | 64 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..675d47d 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -2,7 +2,7 @@ package session
 
 import (
 	"context"
-	"fmt"
+	"errors"
 	"sync"
 
 	"github.com/Azure/go-amqp"
@@ -64,8 +64,8 @@ func (router *MockRouter) subscribe(address string, r *mockReceiver) {
 	router.get(address).subscribe(r)
 }
 
-func (router *MockRouter) send(ctx context.Context, address string, msg *amqp.Message) error {
-	return router.get(address).send(ctx, msg)
+func (router *MockRouter) send(ctx context.Context, done <-chan struct{}, address string, msg *amqp.Message) error {
+	return router.get(address).send(ctx, done, msg)
 }
 
 func (router *MockRouter) get(address string) *multicast {
@@ -89,21 +89,39 @@ func newMulticast() *multicast {
 	return &multicast{update: make(chan struct{})}
 }
 
-func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
+// send a message to every open receiver, waiting for the first to subscribe and
+// for those without credit left, until the context ends or done is closed.
+func (m *multicast) send(ctx context.Context, done <-chan struct{}, msg *amqp.Message) error {
 	m.mu.Lock()
 	update := m.update
-	var sent bool
-	for _, r := range m.receivers {
-		sent = true
-		r.send(msg)
-	}
+	receivers := m.receivers
 	m.mu.Unlock()
-	if !sent {
+	for _, r := range receivers {
+		if r.closed() {
+			continue
+		}
+		select {
+		case r.channel <- msg:
+			continue
+		default:
+		}
+		select {
+		case r.channel <- msg:
+		case <-r.done:
+		case <-done:
+			return errSenderClosed
+		case <-ctx.Done():
+			return ctx.Err()
+		}
+	}
+	if len(receivers) == 0 {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-done:
+			return errSenderClosed
 		case <-update:
-			return m.send(ctx, msg)
+			return m.send(ctx, done, msg)
 		}
 	}
 	return nil
@@ -123,26 +141,38 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+var (
+	errReceiverClosed = errors.New("receiver closed")
+	errSenderClosed   = errors.New("sender closed")
+)
+
+func (r *mockReceiver) closed() bool {
 	select {
 	case <-r.done:
-		return
+		return true
 	default:
-		r.channel <- msg
+		return false
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
+	if r.closed() {
+		return nil, errReceiverClosed
+	}
 	select {
 	case <-ctx.Done():
 		return nil, ctx.Err()
 	case <-r.done:
-		return nil, fmt.Errorf("closed")
+		return nil, errReceiverClosed
 	case msg := <-r.channel:
 		return msg, nil
 	}
 }
 
 func (r *mockReceiver) Accept(context.Context, *amqp.Message) error {
+	if r.closed() {
+		return errReceiverClosed
+	}
 	return nil
 }
 
@@ -161,11 +191,11 @@ type mockSender struct {
 func (s *mockSender) Send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-s.done:
-		return fmt.Errorf("sender closed")
+		return errSenderClosed
 	case <-ctx.Done():
 		return ctx.Err()
 	default:
-		return s.router.send(ctx, s.address, msg)
+		return s.router.send(ctx, s.done, s.address, msg)
 	}
 }
 
-- 
2.43.0


From 360e84f06a08e5bbdcd01a8f2e266f2710b67fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 21/46] fix: return an error from a capture when the deployment
 has no pods instead of panicking

---
 vancap/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 1d49559..681fdaa 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -196,6 +196,9 @@ func (v Vancap) Run(ctx context.Context) error {
 	if err != nil {
 		return fmt.Errorf("failed to find deployment pod: %s", err)
 	}
+	if len(pods.Items) == 0 {
+		return fmt.Errorf("failed to find deployment pod: no pods found")
+	}
 	first := pods.Items[0].Name
 
 	slog.Info("deployment started. waiting for vanflow state to accumulate.", slog.String("delay", v.Duration.String()))
-- 
2.43.0


From b58c49e8b9e6159d6e4dc98a40384b13ef4c27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 22/46] fix: do not share the error of a capture with its port
 forward

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 681fdaa..1a00b5d 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -232,7 +232,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	forwardErr := make(chan error, 1)
 	go func() {
 		slog.Debug("starting port forward to capture vanflow state")
-		if err = forwarder.ForwardPorts(); err != nil {
+		if err := forwarder.ForwardPorts(); err != nil {
 			forwardErr <- err
 		}
 	}()
-- 
2.43.0


From 8ba20a29c985454ff54db424dac9c5a6bb4e84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 23/46] fix: report a capture that the server refused or that
 could not be stored

---
 vancap/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 1a00b5d..4964dfe 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -256,12 +256,18 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("error requesting vanflow capture: %s", err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("error requesting vanflow capture: unexpected status %s", resp.Status)
+	}
 
 	slog.Debug("writing capture file", slog.String("name", v.Destination))
 	fLen, err := io.Copy(f, resp.Body)
 	if err != nil {
 		return fmt.Errorf("error writing capture file: %s", err)
 	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("error writing capture file: %s", err)
+	}
 	slog.Info("Vanflow capture written.", slog.String("file", v.Destination), slog.Int("bytes", int(fLen)))
 
 	return nil
-- 
2.43.0


From 3020048ac71d7d8480cc736bb7282d2a7f04a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 24/46] fix: keep the name of the cluster's host when
 forwarding the port of a capture

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 4964dfe..d05aa10 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -215,7 +215,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	}
 
 	path := fmt.Sprintf("/api/v1/namespaces/%s/pods/%s/portforward", v.Namespace, first)
-	hostIP := strings.TrimLeft(v.Restcfg.Host, "htps:/")
+	hostIP := strings.TrimPrefix(strings.TrimPrefix(v.Restcfg.Host, "https://"), "http://")
 	serverURL := url.URL{Scheme: "https", Path: path, Host: hostIP}
 
 	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, &serverURL)
-- 
2.43.0


From e331bf1565043d921798a6b3ae2baa3921571788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 25/46] fix: delete the deployment of a capture when the reply
 to its creation was lost

---
 vancap/main.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index d05aa10..83aefb0 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -17,6 +17,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	apiv1 "k8s.io/api/core/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
+	"k8s.io/apimachinery/pkg/util/uuid"
 	"k8s.io/client-go/kubernetes"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/tools/clientcmd"
@@ -85,6 +86,9 @@ A tool to caputre vanflow state.
 
 }
 
+// captureAnnotation marks the deployment of a capture.
+const captureAnnotation = "vanflow.c-kruse.github.com/capture"
+
 type Vancap struct {
 	Destination string
 	Duration    time.Duration
@@ -102,9 +106,11 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("skupper not installed in namespace %q: %s", v.Namespace, err)
 	}
 
+	captureID := string(uuid.NewUUID())
 	deployment := &appsv1.Deployment{
 		ObjectMeta: metav1.ObjectMeta{
-			Name: "vanflow-server",
+			Name:        "vanflow-server",
+			Annotations: map[string]string{captureAnnotation: captureID},
 		},
 		Spec: appsv1.DeploymentSpec{
 			Selector: &metav1.LabelSelector{
@@ -157,14 +163,7 @@ func (v Vancap) Run(ctx context.Context) error {
 		},
 	}
 
-	// Create Deployment
-	slog.Info("creating deployment...")
-	_, err = deploymentsClient.Create(ctx, deployment, metav1.CreateOptions{})
-	if err != nil {
-		return fmt.Errorf("error creating deployment: %s", err)
-	}
-
-	defer func() {
+	cleanup := func() {
 		cleanupCtx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 		defer cancel()
 		if err := deploymentsClient.Delete(cleanupCtx, deployment.Name, metav1.DeleteOptions{}); err != nil {
@@ -172,7 +171,21 @@ func (v Vancap) Run(ctx context.Context) error {
 			return
 		}
 		slog.Info("deployment deleted.", slog.String("name", deployment.Name))
-	}()
+	}
+
+	// Create Deployment
+	slog.Info("creating deployment...")
+	_, err = deploymentsClient.Create(ctx, deployment, metav1.CreateOptions{})
+	if err != nil {
+		// it may have been created even so, when only the reply was lost
+		checkCtx, cancel := context.WithTimeout(context.Background(), time.Second*3)
+		defer cancel()
+		if found, getErr := deploymentsClient.Get(checkCtx, deployment.Name, metav1.GetOptions{}); getErr == nil && found.Annotations[captureAnnotation] == captureID {
+			cleanup()
+		}
+		return fmt.Errorf("error creating deployment: %s", err)
+	}
+	defer cleanup()
 
 	b := backoff.WithContext(backoff.NewExponentialBackOff(), ctx)
 	var dep *appsv1.Deployment
-- 
2.43.0


From b7f97a764612c7abf15092a177424d943881b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 26/46] fix: verify the router against the CA given without a
 client certificate

---
 cmd/vanflow-tool/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index af34975..b3ab3cb 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -100,7 +100,7 @@ func main() {
 		connURL = fmt.Sprintf("%s://%s:%s", cfg.Scheme, cfg.Host, cfg.Port)
 	}
 
-	if TLSCert != "" {
+	if TLSCert != "" || (TLSCACert != "" && tlsCfg == nil) {
 		var err error
 		tlsCfg, err = tlsConfig{
 			CA:     TLSCACert,
@@ -116,7 +116,7 @@ func main() {
 	}
 
 	var sasl session.SASLType
-	if tlsCfg != nil {
+	if tlsCfg != nil && (TLSCert != "" || MessagingConfig != "") {
 		sasl = session.SASLTypeExternal
 	}
 
-- 
2.43.0


From 4469cc64200cac8112b6c892464feae101414890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 27/46] fix: do not ignore a client certificate or key
 configured without a CA or certificate

---
 cmd/vanflow-tool/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index b3ab3cb..b8d3957 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -89,7 +89,7 @@ func main() {
 			flags.Usage()
 			os.Exit(1)
 		}
-		if cfg.Tls.CA != "" {
+		if cfg.Tls.CA != "" || cfg.Tls.Cert != "" || cfg.Tls.Key != "" {
 			tlsCfg, err = cfg.Tls.Parse()
 			if err != nil {
 				fmt.Printf("error: could not parse tls config in messaging-config %s\n", err)
@@ -100,7 +100,7 @@ func main() {
 		connURL = fmt.Sprintf("%s://%s:%s", cfg.Scheme, cfg.Host, cfg.Port)
 	}
 
-	if TLSCert != "" || (TLSCACert != "" && tlsCfg == nil) {
+	if TLSCert != "" || TLSKey != "" || (TLSCACert != "" && tlsCfg == nil) {
 		var err error
 		tlsCfg, err = tlsConfig{
 			CA:     TLSCACert,
-- 
2.43.0


From 78183cac6766e2f13cc4701a14ce7db4037ac996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 28/46] fix: do not share an exponential back-off among the
 containers of a factory

---
 session/factory.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/session/factory.go b/session/factory.go
index 647fb4c..d07918a 100644
--- a/session/factory.go
+++ b/session/factory.go
@@ -4,6 +4,8 @@ import (
 	"crypto/rand"
 	"encoding/hex"
 	"io"
+
+	"github.com/cenkalti/backoff/v4"
 )
 
 // ContainerFactory creates Containers with a given configuration
@@ -11,6 +13,9 @@ type ContainerFactory interface {
 	Create() Container
 }
 
+// NewContainerFactory returns a factory of Containers that connect to the
+// address. An exponential BackOff is copied for each of them; any other kind
+// is shared, and has to be safe for concurrent use.
 func NewContainerFactory(address string, cfg ContainerConfig) ContainerFactory {
 	return factory{
 		Address: address,
@@ -36,7 +41,13 @@ type factory struct {
 }
 
 func (f factory) Create() Container {
-	return NewContainer(f.Address, f.Config)
+	cfg := f.Config
+	if b, ok := cfg.BackOff.(*backoff.ExponentialBackOff); ok && b != nil {
+		// holds the state of one container's retries, and is not safe to share
+		own := *b
+		cfg.BackOff = &own
+	}
+	return NewContainer(f.Address, cfg)
 }
 
 func randomID() string {
-- 
2.43.0


From eaa564abfe7bc0fd1eeac986943ab799b13a758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 29/46] fix: encode times past the year 9999 as JSON

---
 base.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/base.go b/base.go
index 6d1e37d..6e95868 100644
--- a/base.go
+++ b/base.go
@@ -3,6 +3,7 @@ package vanflow
 import (
 	"fmt"
 	"math"
+	"strconv"
 	"time"
 
 	"github.com/c-kruse/vanflow/encoding"
@@ -53,6 +54,24 @@ type Time struct {
 	time.Time
 }
 
+// MarshalJSON encodes the time in RFC 3339 format, or as the number of
+// microseconds since the epoch where that cannot represent the time (past the
+// year 9999).
+func (t Time) MarshalJSON() ([]byte, error) {
+	if out, err := t.Time.MarshalJSON(); err == nil {
+		return out, nil
+	}
+	return strconv.AppendInt(nil, t.Time.UnixMicro(), 10), nil
+}
+
+func (t *Time) UnmarshalJSON(data []byte) error {
+	if ts, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		t.Time = time.UnixMicro(ts)
+		return nil
+	}
+	return t.Time.UnmarshalJSON(data)
+}
+
 func (t Time) EncodeRecordAttribute() (any, error) {
 	if t.Time.IsZero() {
 		return nil, encoding.ErrAttributeNotSet
-- 
2.43.0


From 8b0a9d6bfd2040b22f13e07cfdf6b87005f25686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 30/46] fix: impersonate an event source with its own version

---
 cmd/vanflow-tool/fixture.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..a3fd36e 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -11,6 +11,7 @@ import (
 	"net/http"
 	"os"
 	"reflect"
+	"strconv"
 	"sync"
 	"time"
 
@@ -103,6 +104,10 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					version, err := strconv.ParseUint(src.APIVersion, 10, 32)
+					if err != nil {
+						version = 1
+					}
 					container := f.factory.Create()
 					container.Start(ctx)
 					container.OnSessionError(func(err error) {
@@ -116,7 +121,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 					managers[src.Name] = eventsource.NewManager(container, eventsource.ManagerConfig{
 						Source: eventsource.Info{
 							ID:      src.Name,
-							Version: 1,
+							Version: int(version),
 							Type:    src.Type,
 							Address: "mc/sfe." + src.Name,
 							Direct:  "sfe." + src.Name,
-- 
2.43.0


From ee35522895e9473b835049d671a2a70286d58df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 31/46] fix: do not share a variable among the error handlers
 of a fixture

---
 cmd/vanflow-tool/fixture.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index a3fd36e..6af5ef4 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -104,6 +104,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					src := src
 					version, err := strconv.ParseUint(src.APIVersion, 10, 32)
 					if err != nil {
 						version = 1
-- 
2.43.0


From 06a51e107ea331bb4c6cd7add9ce79b75275a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 32/46] fix: close the connections of a replaced fixture

---
 cmd/vanflow-tool/fixture.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 6af5ef4..5341b2e 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -110,7 +110,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 						version = 1
 					}
 					container := f.factory.Create()
-					container.Start(ctx)
+					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
 						if _, ok := err.(session.RetryableError); !ok {
 							slog.Error("manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
-- 
2.43.0


From 13e0177a329c9d8ec8917304bf22a034afd75f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 33/46] fix: impersonate a source that changed its version once

---
 cmd/vanflow-tool/fixture.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 5341b2e..7cde3ad 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -372,8 +372,15 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 	}
 
 	entries := map[store.SourceRef][]store.Entry{}
+	// records of a source that changed its version are kept under more than one
+	// reference, but there is only one source to impersonate
+	refs := map[string]store.SourceRef{}
 	for _, partial := range request.Data {
 		src := partial.Meta.Source
+		if ref, ok := refs[src.Name]; ok {
+			src = ref
+		}
+		refs[src.Name] = src
 		rtype, ok := recordTypeMap[partial.TypeMeta]
 		if !ok {
 			slog.Warn("ignoring record type not configured", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
-- 
2.43.0


From 93c9e11ce52ec6560beb642cfc1ca651345d2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:48 +0000
Subject: [PATCH 34/46] fix: do not replay a flow without its counterflow

---
 cmd/vanflow-tool/fixture.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 7cde3ad..074e9b0 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -219,6 +219,9 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	var flowPairs []flowPair
 	for serverID, clientID := range flowPairsIDs {
+		if _, ok := flowEntries[clientID]; !ok {
+			continue // the counterflow is not in the fixture
+		}
 		flowPairs = append(flowPairs, flowPair{
 			Server: flowEntries[serverID],
 			Client: flowEntries[clientID],
-- 
2.43.0


From a13efb529b5be308b2a88d2d072bee9ea1f36255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:48 +0000
Subject: [PATCH 35/46] fix: refuse to replay a negative number of flows

---
 cmd/vanflow-tool/fixture.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 074e9b0..2b38233 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -233,7 +233,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			Duration int `json:"duration"`
 		}
 		defer r.Body.Close()
-		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
+		err := json.NewDecoder(r.Body).Decode(&request)
+		if err == nil && request.Flows < 0 {
+			err = fmt.Errorf("negative number of flows")
+		}
+		if err != nil {
 			rw.WriteHeader(http.StatusBadRequest)
 			fmt.Fprintf(rw, "Bad request: %s\n", err)
 			fmt.Fprintln(rw, "")
-- 
2.43.0


From 6939a0508156e00ab828cbb7fe2dfc927d40d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 36/46] fix: use the new session for the first operation after
 a failure elsewhere

---
 session/container.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index 4a22f02..bddb425 100644
--- a/session/container.go
+++ b/session/container.go
@@ -139,6 +139,13 @@ func (c *container) handleSessionError(err error) {
 	}
 }
 
+// generation of the current session.
+func (c *container) generation() int {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.gen
+}
+
 func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
 	c.mu.Lock()
 	session, gen, hasNext := c.sess, c.gen, c.hasNext
@@ -338,7 +345,7 @@ func (r *link) awaitSession(ctx context.Context) error {
 	}
 	curr, currGen := r.curr, r.currGen
 	r.unlock()
-	if curr != nil {
+	if curr != nil && currGen == r.container.generation() {
 		return nil
 	}
 	next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
-- 
2.43.0


From 50a6ef366d30fbe58194c0fc6254fda76c9434b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 37/46] fix: do not count the time without failures when a
 back-off policy limits retrying

---
 session/container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/container.go b/session/container.go
index bddb425..d7cce93 100644
--- a/session/container.go
+++ b/session/container.go
@@ -217,15 +217,21 @@ func (c *container) Start(ctx context.Context) {
 					conn.Close()
 				}
 
+				used := false
 				for {
 					select {
 					case <-ctx.Done():
 						return ctx.Err()
 					case gen := <-c.notifyOK:
 						if gen == generation {
+							used = true
 							b.Reset()
 						}
 					case recvErr := <-sessionErrors:
+						if used {
+							// the time without a failure does not count
+							b.Reset()
+						}
 						return fmt.Errorf("session receiver error: %s", recvErr)
 					}
 				}
-- 
2.43.0


From eb7d1ad087fe48fc17a1c2f9d37ee7023bca1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:08 +0000
Subject: [PATCH 38/46] fix: do not share the cancel function of the shutdown
 with session error handlers

The handler of container errors captured the variable cancel, which was
assigned anew when the shutdown began: a data race with a container that
gives up at that moment, which then cancelled the shutdown's context.
---
 cmd/vanflow-tool/fixture.go | 4 ++--
 cmd/vanflow-tool/serve.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 2b38233..81d908b 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -63,8 +63,8 @@ func serveFixture(ctx context.Context, factory session.ContainerFactory) {
 	})
 	<-ctx.Done()
 	slog.Info("shutting down")
-	shutdownCtx, cancel := context.WithTimeout(context.Background(), time.Second)
-	defer cancel()
+	shutdownCtx, shutdownCancel := context.WithTimeout(context.Background(), time.Second)
+	defer shutdownCancel()
 	srv.Shutdown(shutdownCtx)
 	wg.Wait()
 }
diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 55db735..9741955 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -196,8 +196,8 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 	}()
 	<-ctx.Done()
 	slog.Info("shutting down")
-	shutdownCtx, cancel := context.WithTimeout(context.Background(), time.Second)
-	defer cancel()
+	shutdownCtx, shutdownCancel := context.WithTimeout(context.Background(), time.Second)
+	defer shutdownCancel()
 	srv.Shutdown(shutdownCtx)
 	wg.Wait()
 }
-- 
2.43.0


From 688fe2833fbc8d14222d75d73be7263cfc562c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:31 +0000
Subject: [PATCH 39/46] fix: count a session that lasted as a success although
 no message passed

A container with a policy that limits the time of retrying gave up at the
first failure when it had been connected for longer than that without a
message.
---
 session/container.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index d7cce93..02cf87e 100644
--- a/session/container.go
+++ b/session/container.go
@@ -175,6 +175,10 @@ func (c *container) reportError(generation int, err error) {
 	}
 }
 
+// settledSession is how long a session lasts at least to count as a success
+// although no message was sent or received.
+const settledSession = 5 * time.Second
+
 // Start the container. It will run until the context is cancelled or until the
 // backoff strategy chosen finishes.
 func (c *container) Start(ctx context.Context) {
@@ -218,6 +222,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 
 				used := false
+				began := time.Now()
 				for {
 					select {
 					case <-ctx.Done():
@@ -228,7 +233,7 @@ func (c *container) Start(ctx context.Context) {
 							b.Reset()
 						}
 					case recvErr := <-sessionErrors:
-						if used {
+						if used || time.Since(began) >= settledSession {
 							// the time without a failure does not count
 							b.Reset()
 						}
-- 
2.43.0


From 63b55b6e60b3b2aa8bae17e1439aad1402fd2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 40/46] fix: compare attributes encoded as lists, maps or bytes
 without panicking

---
 eventsource/manager.go | 3 ++-
 store/patcher.go       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 328b1c1..1c7a625 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log/slog"
+	"reflect"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -125,7 +126,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 			delta[k] = next[k]
 			continue
 		}
-		if next[k] != pv {
+		if !reflect.DeepEqual(next[k], pv) {
 			isDiff = true
 			delta[k] = next[k]
 		}
diff --git a/store/patcher.go b/store/patcher.go
index 5cd7bc7..9b2eaab 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -2,6 +2,7 @@ package store
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/c-kruse/vanflow"
@@ -39,7 +40,7 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-		if !ok || cV != nV {
+		if !ok || !reflect.DeepEqual(cV, nV) {
 			changed = true
 			currAttrs[nK] = nV
 		}
-- 
2.43.0


From db704ce00f1adc395051018aed32f26d5bfe27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 41/46] fix: send updates of records with more required
 attributes than their identity

---
 eventsource/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 1c7a625..4de6623 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -139,6 +139,10 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 		return nil, false
 	}
 	deltaRecord, err := encoding.Decode(delta)
+	if err != nil {
+		// without the unchanged attributes that the record type requires
+		deltaRecord, err = encoding.Decode(next)
+	}
 	if err != nil {
 		slog.Error("record update diff error decoding delta", slog.Any("error", err))
 		return nil, false
-- 
2.43.0


From 2bbd21d123499748f9c8749f6c7ddd045e6bc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 42/46] fix: send the records that can be encoded although
 others of their message cannot

---
 eventsource/manager.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 4de6623..684067f 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -92,8 +92,15 @@ func (m *Manager) sendRecords(ctx context.Context) {
 		case record := <-m.sendQueue:
 			msg, err := record.Encode()
 			if err != nil {
-				slog.Error("skipping record message after encoding error:", slog.Any("error", err))
-				continue
+				slog.Error("skipping records after encoding error:", slog.Any("error", err))
+				record.Records = encodable(record.Records)
+				if len(record.Records) == 0 {
+					continue
+				}
+				if msg, err = record.Encode(); err != nil {
+					slog.Error("skipping record message after encoding error:", slog.Any("error", err))
+					continue
+				}
 			}
 			if err := sender.Send(ctx, msg); err != nil {
 				slog.Error("error sending event source record", slog.Any("error", err))
@@ -103,6 +110,17 @@ func (m *Manager) sendRecords(ctx context.Context) {
 	}
 }
 
+// encodable returns the records that can be encoded.
+func encodable(records []vanflow.Record) []vanflow.Record {
+	var result []vanflow.Record
+	for _, record := range records {
+		if _, err := encoding.Encode(record); err == nil {
+			result = append(result, record)
+		}
+	}
+	return result
+}
+
 func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	if d.Prev == nil {
 		return d.Curr, true
@@ -110,7 +128,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	prev, err := encoding.Encode(d.Prev)
 	if err != nil {
 		slog.Error("record update diff error encoding prev", slog.Any("error", err))
-		return nil, false
+		return d.Curr, true // as prev was never sent
 	}
 	next, err := encoding.Encode(d.Curr)
 	if err != nil {
-- 
2.43.0


From 4398b682820721e5989f7194c68a966ee76d6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:11 +0000
Subject: [PATCH 43/46] fix: stop the container of a source that was forgotten

serve and log start a container for each source they discover. It was only
stopped with the command, so that a connection to the router was left behind
each time a source was forgotten.
---
 cmd/vanflow-tool/log.go   | 9 +++++++++
 cmd/vanflow-tool/serve.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 9df3dbe..43976d2 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -53,9 +53,14 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 	})
 
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// stops the container of each source. Only used by the discovery handlers,
+	// which are not called concurrently.
+	stops := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", "source", source)
+			ctx, stop := context.WithCancel(ctx)
+			stops[source.ID] = stop
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
@@ -106,6 +111,10 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", "source", source)
+			if stop, ok := stops[source.ID]; ok {
+				stop()
+			}
+			delete(stops, source.ID)
 		},
 	})
 	enc := json.NewEncoder(os.Stdout)
diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 9741955..6037907 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -119,9 +119,14 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		slog.Error("container session error", slog.Any("error", err))
 	})
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// stops the container of each source. Only used by the discovery handlers,
+	// which are not called concurrently.
+	stops := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", slog.Any("source", source))
+			ctx, stop := context.WithCancel(ctx)
+			stops[source.ID] = stop
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			ctr.OnSessionError(func(err error) {
@@ -178,6 +183,10 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", slog.Any("source", source))
 			sources.Delete(source.ID)
+			if stop, ok := stops[source.ID]; ok {
+				stop()
+			}
+			delete(stops, source.ID)
 		},
 	})
 	loggingHandler := handlers.LoggingHandler(os.Stdout, http.DefaultServeMux)
-- 
2.43.0


From 2465b81f13f4c943e34f7cfaa9fd5cf6d195f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:31 +0000
Subject: [PATCH 44/46] fix: refuse attributes with the codepoint of the record
 type

Encoding overwrote the attribute with the record's codepoint, and decoding
took the codepoint for the attribute.
---
 encoding/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 24ee817..e13b42f 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -122,6 +122,9 @@ func parseFieldOpts(f reflect.StructField) (field, bool) {
 		panic(fmt.Sprintf("vflow struct tag parse error for field %s: %s", f.Name, err))
 	}
 	opts.Codepoint = uint32(code)
+	if opts.Codepoint == typeOfRecord {
+		panic(fmt.Sprintf("vflow struct tag error for field %s: %d is reserved for the record type", f.Name, code))
+	}
 	switch suffix := sOpt; suffix {
 	case "required":
 		opts.Identity = true
-- 
2.43.0


From 4a4f27e5eac3b79c0703b5e2394d7093d29c6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:34 +0000
Subject: [PATCH 45/46] fix: attributes may use the codec to encode and decode
 themselves

The lock of the registry was held meanwhile, so that nested use of the codec
deadlocked with a registration.
---
 encoding/decoder.go |  3 ++-
 encoding/encoder.go | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b232aa6..31918d8 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -33,9 +33,10 @@ func Decode(recordset RecordAttributeSet) (interface{}, error) {
 		return nil, fmt.Errorf("decode error: unexpected type for record type attribute \"%T\"", recordTypeCode)
 	}
 
+	// not held while decoding: attributes may use this package to decode themselves
 	mu.RLock()
-	defer mu.RUnlock()
 	encoding, ok := decodings[codepoint]
+	mu.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("decode error: unknown record type for %d", recordTypeCode)
 	}
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 0db6472..9cfe6e6 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -34,14 +34,12 @@ type RecordAttributeEncoder interface {
 // vanflow protocol. Only records types that have been registered with
 // MustRegisterRecord can be encoded.
 func Encode(record any) (RecordAttributeSet, error) {
-	mu.RLock()
-	defer mu.RUnlock()
 	if record == nil {
 		return nil, errors.New("cannot encode nil record")
 	}
 	recordV := reflect.ValueOf(record)
 	recordT := recordV.Type()
-	encoding, ok := encodings[recordT]
+	encoding, ok := encodingForType(recordT)
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
 			if recordV.IsNil() {
@@ -49,7 +47,7 @@ func Encode(record any) (RecordAttributeSet, error) {
 			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
-			encoding, ok = encodings[recordT]
+			encoding, ok = encodingForType(recordT)
 		}
 		if !ok {
 			return nil, fmt.Errorf("encode error: unregistered record type %T", record)
@@ -62,6 +60,15 @@ func Encode(record any) (RecordAttributeSet, error) {
 	return result, err
 }
 
+// encodingForType looks up a registered type. The lock is not held while
+// encoding: attributes may use this package to encode themselves.
+func encodingForType(t reflect.Type) (*typeEncoding, bool) {
+	mu.RLock()
+	defer mu.RUnlock()
+	encoding, ok := encodings[t]
+	return encoding, ok
+}
+
 type fieldEncoder interface {
 	encode(v reflect.Value) (interface{}, error)
 }
-- 
2.43.0


From 2108d8e2feb295e00dc5680691e9c6830e416fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:18 +0000
Subject: [PATCH 46/46] fix: capture from the pod of the deployment that was
 created

A pod of an earlier capture that was still terminating could be taken for it.
---
 vancap/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 83aefb0..d6069b7 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -86,7 +86,7 @@ A tool to caputre vanflow state.
 
 }
 
-// captureAnnotation marks the deployment of a capture.
+// captureAnnotation marks the deployment of a capture, and as a label its pod.
 const captureAnnotation = "vanflow.c-kruse.github.com/capture"
 
 type Vancap struct {
@@ -107,6 +107,12 @@ func (v Vancap) Run(ctx context.Context) error {
 	}
 
 	captureID := string(uuid.NewUUID())
+	// tells the pod of this deployment from one of an earlier capture that is
+	// still terminating
+	podLabels := map[string]string{
+		"app":             "vanflow-server",
+		captureAnnotation: captureID,
+	}
 	deployment := &appsv1.Deployment{
 		ObjectMeta: metav1.ObjectMeta{
 			Name:        "vanflow-server",
@@ -114,15 +120,11 @@ func (v Vancap) Run(ctx context.Context) error {
 		},
 		Spec: appsv1.DeploymentSpec{
 			Selector: &metav1.LabelSelector{
-				MatchLabels: map[string]string{
-					"app": "vanflow-server",
-				},
+				MatchLabels: podLabels,
 			},
 			Template: apiv1.PodTemplateSpec{
 				ObjectMeta: metav1.ObjectMeta{
-					Labels: map[string]string{
-						"app": "vanflow-server",
-					},
+					Labels: podLabels,
 				},
 				Spec: apiv1.PodSpec{
 					Containers: []apiv1.Container{
@@ -204,7 +206,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	slog.Debug("deployment ready.", slog.String("name", deployment.Name))
 
 	pods, err := podsClient.List(ctx, metav1.ListOptions{
-		LabelSelector: "app=vanflow-server",
+		LabelSelector: captureAnnotation + "=" + captureID,
 	})
 	if err != nil {
 		return fmt.Errorf("failed to find deployment pod: %s", err)
-- 
2.43.0

