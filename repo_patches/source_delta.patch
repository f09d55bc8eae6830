From b7899a458406d45989f80ecf6e1edb70e4e0f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 01/25] fix: config deliveries no longer block the distributor,
 its readers, Unsubscribe and Close

A subscriber that did not receive (or had just been cancelled) made the
monitoring goroutine, Subscribe, Unsubscribe, Close and Get wait for each
other forever; Subscribe could succeed on a closed distributor.
---
 pkg/server/config_distributor.go | 109 +++++++++++++++++++++++++++++--
 1 file changed, 103 insertions(+), 6 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..73280ee 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -44,6 +44,9 @@ type ConfigDistributor struct {
 
 	// Subscriptions to Config updates
 	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+
+	// Pending deliveries of the subscriptions
+	deliveries map[chan<- *Config]*configDelivery
 }
 
 var (
@@ -98,9 +101,14 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
+	// Distributor might have been closed while we were waiting for the lock
+	if p.closed.HasFired() {
+		return ErrConfigDistributorClosed
+	}
+
 	// Send current config immediately even before we registered a new subscription
 	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+		p.deliverLocked(ch, p.lastConfig)
 	}
 
 	// Register subscription
@@ -128,9 +136,7 @@ func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
 func (p *ConfigDistributor) Close() {
-	if !p.closed.Fire() {
-		return
-	}
+	p.closed.Fire()
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -143,6 +149,25 @@ func (p *ConfigDistributor) Close() {
 // unsubscribeLocked unsubscribes the channel without locking the mutex.
 func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
 	delete(p.subscriptions, ch)
+
+	// Nothing must be delivered to the channel from now on
+	if delivery := p.deliveries[ch]; delivery != nil {
+		delivery.cancel()
+		delete(p.deliveries, ch)
+	}
+}
+
+// deliverLocked sends config to the subscribed channel without waiting for its receiver.
+func (p *ConfigDistributor) deliverLocked(ch chan<- *Config, config *Config) {
+	if p.deliveries == nil {
+		p.deliveries = make(map[chan<- *Config]*configDelivery)
+	}
+
+	if p.deliveries[ch] == nil {
+		p.deliveries[ch] = &configDelivery{ch: ch, cancelled: NewEvent()}
+	}
+
+	p.deliveries[ch].send(config)
 }
 
 // waitForNextConfig waits for the next received Config update from the source and then returns it.
@@ -181,7 +206,9 @@ func (p *ConfigDistributor) monitorConfig() {
 		case newConfig, ok := <-p.source:
 			if !ok {
 				log.Debug("config_distributor: source channel is closed, closing the distributor")
-				p.Close()
+
+				// Not Close(): what we have received so far still has to be delivered
+				p.closed.Fire()
 
 				return
 			}
@@ -207,7 +234,7 @@ func (p *ConfigDistributor) monitorConfig() {
 func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
 	for ch, checks := range p.subscriptions {
 		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+			p.deliverLocked(ch, newConfig)
 		}
 	}
 }
@@ -228,3 +255,73 @@ func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckF
 
 	return false
 }
+
+// configDelivery delivers configs to one subscribed channel in the order they were sent.
+type configDelivery struct {
+	// Subscribed channel
+	ch chan<- *Config
+
+	// Guards pending
+	mu sync.Mutex
+
+	// Configs waiting for the receiver; flush is running unless it is empty
+	pending []*Config
+
+	// Fired when subscription is cancelled
+	cancelled *Event
+
+	// Tracks flush goroutine
+	wg sync.WaitGroup
+}
+
+// send delivers given config to the channel; it never blocks.
+// It must not be called concurrently with itself or with cancel.
+func (d *configDelivery) send(config *Config) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
+	if len(d.pending) == 0 {
+		select {
+		case d.ch <- config:
+			return
+
+		default:
+			d.wg.Add(1)
+
+			go d.flush()
+		}
+	}
+
+	d.pending = append(d.pending, config)
+}
+
+// flush delivers pending configs until there is nothing left or the subscription is cancelled.
+func (d *configDelivery) flush() {
+	defer d.wg.Done()
+
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
+	for len(d.pending) > 0 {
+		config := d.pending[0]
+
+		d.mu.Unlock()
+
+		select {
+		case d.ch <- config:
+			d.mu.Lock()
+
+		case <-d.cancelled.Done():
+			d.mu.Lock()
+			return
+		}
+
+		d.pending = d.pending[1:]
+	}
+}
+
+// cancel stops deliveries to the channel. Nothing is delivered after it returns.
+func (d *configDelivery) cancel() {
+	d.cancelled.Fire()
+	d.wg.Wait()
+}
-- 
2.43.0


From 343606a7e2e2929c82af69a5a2b6e0cb523acf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 02/25] fix: ConfigDistributor.Get never returns a config older
 than the last one received

Get could return the previous config after the new one had already been
received from the source (TestConfigDistributorGet).
---
 pkg/server/config_distributor.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 73280ee..e071eac 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -39,6 +39,9 @@ type ConfigDistributor struct {
 	// Channel with Config updates
 	source <-chan *Config
 
+	// Readable while monitoring goroutine has nothing left to take over
+	idle chan struct{}
+
 	// Last received Config
 	lastConfig *Config
 
@@ -60,6 +63,7 @@ var _ ConfigStore = &ConfigDistributor{}
 func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 	return &ConfigDistributor{
 		source:  configChan,
+		idle:    make(chan struct{}),
 		started: NewEvent(),
 		closed:  NewEvent(),
 	}
@@ -72,6 +76,15 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 		return nil, ErrConfigDistributorClosed
 	}
 
+	// Config that has already been received from the source must not be missed
+	if p.started.HasFired() {
+		select {
+		case <-p.idle:
+		case <-p.closed.Done():
+			return nil, ErrConfigDistributorClosed
+		}
+	}
+
 	// Take lastConfig snapshot
 	var lastConfigSnapshot *Config
 
@@ -223,6 +236,9 @@ func (p *ConfigDistributor) monitorConfig() {
 			}
 			p.mu.Unlock()
 
+		// Let Get know that lastConfig is up to date
+		case p.idle <- struct{}{}:
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
-- 
2.43.0


From b5722f32ad46cf7de476c7e1a1c1b8fb3e83e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 03/25] fix: ReadBuffer rejects negative and overflowing sizes
 and returns values that cannot grow into each other

---
 pkg/pg/read_buffer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..db25649 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,11 +32,12 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
-	bytesRead := (*b)[:n]
+	// NB: capacity is limited so that appending to the result cannot overwrite bytes that follow
+	bytesRead := (*b)[:n:n]
 
 	// Advance the slice: n = 3, b = { 1, 2, 3, 4, 5 } -> b = { 4, 5 }
 	*b = (*b)[n:]
@@ -104,6 +105,10 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,10 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 7877481beaff7c5aaed85c314029b3538da86f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 04/25] fix: decoders reject negative and impossible element
 counts

---
 pkg/pg/data_row_message.go                   | 5 +++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/row_description_message.go            | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..06ca8aa 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,11 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	// Every value takes at least 4 bytes
+	if valuesCount < 0 || int(valuesCount) > messageData.Len()/4 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..1652c60 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least one byte
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..ddaea3a 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,11 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	// Every field takes at least 19 bytes
+	if fieldsCount < 0 || int(fieldsCount) > messageData.Len()/19 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From eca953b94cf7d05567396ae36ded5ec4238d82d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 05/25] fix: frames whose declared length is smaller than the
 length field are rejected

---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e014ce 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..c7ac836 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From 57a11662900d8076f76f1693097ba98847664f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 06/25] fix: incomplete raw frames and frames of another type
 are rejected instead of crashing or being taken for startup messages

---
 pkg/pg/standard_frame.go  | 10 +++++++++-
 pkg/pg/startup_frame.go   |  4 ++++
 pkg/pg/startup_message.go |  5 +++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 7e014ce..9a20b8f 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -13,13 +13,21 @@ type StandardFrame []byte
 // Compile time check to make sure that StandardFrame implements the Frame interface.
 var _ Frame = StandardFrame{}
 
-// MessageType returns type of the message.
+// MessageType returns type of the message, or 0x00 if the frame is too short to have one.
 func (f StandardFrame) MessageType() byte {
+	if len(f) < 1 {
+		return 0x00
+	}
+
 	return f[0]
 }
 
 // MessageBody returns bytes of the message.
 func (f StandardFrame) MessageBody() []byte {
+	if len(f) < 5 {
+		return nil
+	}
+
 	return f[5:]
 }
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index c7ac836..fba196d 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -20,6 +20,10 @@ func (f StartupFrame) MessageType() byte {
 
 // MessageBody returns bytes of a message containing within this frame.
 func (f StartupFrame) MessageBody() []byte {
+	if len(f) < 4 {
+		return nil
+	}
+
 	return f[4:]
 }
 
diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..308b95a 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -25,6 +25,11 @@ var _ Message = &StartupMessage{}
 
 // ParseStartupMessage parses StartupMessage from a network frame.
 func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
+	// Assert that frame doesn't have a message type
+	if frame.MessageType() != 0x00 {
+		return nil, ErrMalformedMessage
+	}
+
 	messageData := ReadBuffer(frame.MessageBody())
 
 	// Start decoding the message
-- 
2.43.0


From f7985033512bbb62bbab2255794324dc311ba4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 07/25] fix: a startup message without parameters is still
 terminated

---
 pkg/pg/startup_message.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 308b95a..085632c 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -79,17 +79,14 @@ func (m *StartupMessage) Frame() Frame {
 
 	messageBuffer.WriteInt32(m.ProtocolVersion)
 
-	hasParams := false
-
 	// Dictionary is encoded as string key-value pair + ending /0x00
 	for _, param := range m.Parameters {
 		messageBuffer.WriteString(param.Name)
 		messageBuffer.WriteString(param.Value)
-
-		hasParams = true
 	}
 
-	if hasParams {
+	// NB: special requests (such as SSLRequest) use major version 1234 and don't carry parameters
+	if len(m.Parameters) > 0 || m.ProtocolVersion>>16 != 1234 {
 		messageBuffer.WriteByte(0)
 	}
 
-- 
2.43.0


From 749aa6d015b7e574cd2b1fb68fba786a2a05624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 08/25] fix: received messages that cannot be decoded without
 loss are passed on unmodified

---
 pkg/pg/conn.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..9d54b79 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,7 @@
 package pg
 
 import (
+	"bytes"
 	"net"
 )
 
@@ -33,12 +34,25 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return nil, err
 	}
 
+	message, err := parseMessage(frame)
+
+	// The same type byte means different things in the two directions, and a message may carry something that
+	// we don't know. What cannot be decoded without a loss is not touched.
+	if err != nil || !bytes.Equal(message.Frame().Bytes(), frame.Bytes()) {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, nil
+}
+
+// parseMessage parses PostgreSQL message of any known type from a network frame.
+func parseMessage(frame StandardFrame) (Message, error) {
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From 046958dd3ec8b5821e143278cfebae1ccd7ca4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 09/25] fix: database URLs: empty user, names with slashes,
 database named after the user, malformed query

---
 pkg/pg/dsn.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..969c53c 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -24,11 +24,19 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		return nil, fmt.Errorf("invalid PostgreSQL database URI %s", url)
 	}
 
+	query, err := parseQuery(url)
+
+	if err != nil {
+		return nil, err
+	}
+
 	settings := defaultConnectionSettings()
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
 		if password, present := url.User.Password(); present {
 			settings["password"] = password
@@ -45,21 +53,30 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		settings["port"] = port
 	}
 
-	// Database name
-	if database := strings.TrimLeft(url.Path, "/"); database != "" {
-		settings["database"] = database
+	// Default database name is the same as database user
+	if username := query.Get("user"); username != "" {
+		settings["database"] = username
 	} else {
-		// Default is the same as database user
 		settings["database"] = settings["user"]
 	}
 
-	for k, v := range url.Query() {
+	// Database name
+	if database := strings.TrimPrefix(url.Path, "/"); database != "" {
+		settings["database"] = database
+	}
+
+	for k, v := range query {
 		settings[k] = v[0]
 	}
 
 	return settings, nil
 }
 
+// parseQuery returns query parameters of the given URL, or an error if any of them is malformed.
+func parseQuery(u *url.URL) (url.Values, error) {
+	return url.ParseQuery(u.RawQuery)
+}
+
 // defaultConnectionSettings returns PostgreSQL implicit default connection settings.
 func defaultConnectionSettings() ConnectionParams {
 	settings := ConnectionParams{
-- 
2.43.0


From e68b1ad737d3aeb1d5bb94379d91b0458972a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 10/25] fix: SSL requests are answered in a loop instead of
 recursively

---
 pkg/server/session.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..63306a0 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -158,8 +158,8 @@ func (s *Session) negotiateSessionParams() error {
 		return err
 	}
 
-	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	// Check if startup message is a SSL request; the real startup message comes after it
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -168,8 +168,11 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 47d8d547393c964c5defa40d204340d3d092618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 11/25] fix: a repeated database parameter must not get a
 client into another database

---
 pkg/server/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 63306a0..d8c1fd1 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -191,6 +191,13 @@ func (s *Session) negotiateSessionParams() error {
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
+	// NB: PostgreSQL uses the last one of repeated parameters, so all of them have to be checked
+	for _, param := range startupMessage.Parameters {
+		if param.Name == "database" && param.Value != allowedDB {
+			return fmt.Errorf("session: database mismatch: %v != %v", param.Value, allowedDB)
+		}
+	}
+
 	// Establish DB connection on behalf of the client
 	return s.establishDBConnection(startupMessage)
 }
-- 
2.43.0


From 53b5a3107838ee34b681f4b3f322a0d690538ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 12/25] fix: sessions end, flushed, when a side hangs up, never
 deadlock or crash on Close, and relay directions independently

---
 pkg/server/session.go | 130 +++++++++++++++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 34 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index d8c1fd1..f76be3d 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -17,6 +17,9 @@ type Session struct {
 	// Guards dbConnectionParams
 	mu sync.Mutex
 
+	// Guards dbConn while the session is being established
+	dbConnMu sync.Mutex
+
 	// Global configuration
 	cfg ConfigStore
 
@@ -96,7 +99,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -129,19 +133,20 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
 	if s.dbConn != nil {
-		err = s.dbConn.Close()
+		dbErr := s.dbConn.Close()
 
-		log.Debugf("session: db connection is closed; err = %v", err)
-	}
+		log.Debugf("session: db connection is closed; err = %v", dbErr)
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
+		if err == nil {
+			err = dbErr
+		}
+	}
 
-	log.Debug("session: channels closed")
+	// NB: message channels are closed by the goroutines that send to them
 
 	return
 }
@@ -218,14 +223,19 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	}
 
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	dialer := net.Dialer{Cancel: s.closed.Done()}
+	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
 	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	err = s.setDBConn(pg.NewConn(conn))
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -237,8 +247,37 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the database connection unless the session has been closed in the meantime.
+func (s *Session) setDBConn(conn *pg.Conn) error {
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
+	if s.closed.HasFired() {
+		_ = conn.Close()
+		return ErrSessionClosed
+	}
+
+	s.dbConn = conn
+
+	return nil
+}
+
+// send sends the message to the given channel; it returns an error if session has been closed in the meantime.
+func (s *Session) send(ch chan<- pg.Message, message pg.Message) error {
+	select {
+	case ch <- message:
+		return nil
+
+	case <-s.closed.Done():
+		return ErrSessionClosed
+	}
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
+	// Client hung up — pass on what we have got so far
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvMessage()
 
@@ -246,7 +285,11 @@ func (s *Session) startClientInPump() error {
 			return err
 		}
 
-		s.clientIn <- message
+		err = s.send(s.clientIn, message)
+
+		if err != nil {
+			return err
+		}
 	}
 }
 
@@ -256,9 +299,9 @@ func (s *Session) startClientOutPump() error {
 		// Get next message in queue
 		message, ok := <-s.clientOut
 
-		// Channel is closed — exit
+		// Channel is closed and everything is sent — the session is over
 		if !ok {
-			return nil
+			return s.Close()
 		}
 
 		// Send the message over the network
@@ -272,6 +315,9 @@ func (s *Session) startClientOutPump() error {
 
 // startClientOutPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
+	// Database hung up — pass on what we have got so far
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -279,7 +325,11 @@ func (s *Session) startDBInPump() error {
 			return err
 		}
 
-		s.dbIn <- message
+		err = s.send(s.dbIn, message)
+
+		if err != nil {
+			return err
+		}
 	}
 }
 
@@ -289,9 +339,9 @@ func (s *Session) startDBOutPump() error {
 		// Get next message in queue
 		message, ok := <-s.dbOut
 
-		// Channel is closed — exit
+		// Channel is closed and everything is sent — the session is over
 		if !ok {
-			return nil
+			return s.Close()
 		}
 
 		// Send the message over the network
@@ -303,30 +353,42 @@ func (s *Session) startDBOutPump() error {
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
+// startClientProcessing dispatches messages from the client to the database.
+func (s *Session) startClientProcessing() error {
+	defer close(s.dbOut)
+
 	// FIXME: temporary just proxy everything from the client to the database and vice versa
-	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+	for clientMsg := range s.clientIn {
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
+
+		err := s.send(s.dbOut, clientMsg)
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
 
-			s.dbOut <- clientMsg
+// startDBProcessing dispatches messages from the database to the client.
+//
+// NB: the directions are independent; the client that is not reading must not prevent the database from
+// getting its messages, and the other way around.
+func (s *Session) startDBProcessing() error {
+	defer close(s.clientOut)
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+	for dbMsg := range s.dbIn {
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+		err := s.send(s.clientOut, dbMsg)
 
-			s.clientOut <- dbMsg
+		if err != nil {
+			return err
 		}
 	}
+
+	return nil
 }
 
 // getDBConnnectionParam returns connection parameter with given name from the config.
-- 
2.43.0


From 791f5621b6d1fb2f01441fba7004419a18aa68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 13/25] fix: closing a session that waits for the configuration
 ends it

---
 pkg/server/session.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index f76be3d..65e322f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -399,7 +399,7 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
 		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		config, err := s.getConfig()
 
 		if err != nil {
 			return "", err
@@ -415,3 +415,26 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	return s.dbConnectionParams[name], nil
 }
+
+// getConfig returns current configuration; it stops waiting for it when the session is closed.
+func (s *Session) getConfig() (*Config, error) {
+	var (
+		config *Config
+		err    error
+	)
+
+	received := make(chan struct{})
+
+	go func() {
+		defer close(received)
+		config, err = s.cfg.Get()
+	}()
+
+	select {
+	case <-received:
+		return config, err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
-- 
2.43.0


From d27e4068c62c2f82ae0e685f6b987cda0dbc0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 14/25] fix: Start cancels its subscription before it closes
 the channel

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..0d464ac 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -94,6 +94,9 @@ func (srv *Server) Start() error {
 		return err
 	}
 
+	// Nothing may be sent to the channel when we close it
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
-- 
2.43.0


From cb2c83ad9419dc2cb824f2143f8c57c948076e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 15/25] fix: listeners are changed in the order of the
 configurations

---
 pkg/server/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 0d464ac..d0a20c0 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -114,8 +114,16 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// NB: we have to change the listener before we handle the next config; otherwise they might be
+			// changed in the wrong order
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				return err
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			srv.do(func() { _ = srv.acceptLoop(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -138,6 +146,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptLoop(ln)
+}
+
+// acceptLoop calls ServeConn for every client connection accepted by the given listener.
+func (srv *Server) acceptLoop(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 4cbb423182b20e35a00ebbd1bd13f1c2bac415aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 16/25] fix: nothing slips through Close: late listeners,
 connections and calls are closed and waited for

---
 pkg/server/server.go | 70 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d0a20c0..c09507a 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -82,6 +82,13 @@ func (srv *Server) Start() error {
 		return ErrServerAlreadyStarted
 	}
 
+	// Close() has to wait for us
+	if !srv.enter() {
+		return ErrServerClosed
+	}
+
+	defer srv.wg.Done()
+
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
 	defer close(serverConfigurationUpdates)
@@ -123,7 +130,7 @@ func (srv *Server) Start() error {
 			}
 
 			// Serve the new listener
-			srv.do(func() { _ = srv.acceptLoop(ln) })
+			_ = srv.do(func() { _ = srv.acceptLoop(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -138,6 +145,14 @@ func (srv *Server) Start() error {
 // Serve blocks until the listener returns a non-nil error. The caller typically
 // invokes Serve in a go statement.
 func (srv *Server) Serve(ln net.Listener) error {
+	// Close() has to wait for us
+	if !srv.enter() {
+		_ = ln.Close()
+		return ErrServerClosed
+	}
+
+	defer srv.wg.Done()
+
 	// Update connection; the err could be ErrServerClosed
 	err := srv.changeListener(ln)
 
@@ -182,7 +197,13 @@ func (srv *Server) acceptLoop(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		err = srv.do(func() { _ = srv.ServeConn(conn) })
+
+		// Server has been closed in the meantime
+		if err != nil {
+			_ = conn.Close()
+			return err
+		}
 	}
 }
 
@@ -191,11 +212,14 @@ func (srv *Server) acceptLoop(ln net.Listener) error {
 // ServeConn blocks, serving the connection until the client or the database hangs up.
 // The caller typically invokes ServeConn in a go statement.
 func (srv *Server) ServeConn(conn net.Conn) error {
-	// Return error if server is closed
-	if srv.shutdown.HasFired() {
+	// Return error if server is closed; Close() has to wait for us otherwise
+	if !srv.enter() {
+		_ = conn.Close()
 		return ErrServerClosed
 	}
 
+	defer srv.wg.Done()
+
 	// For debugging purposes
 	defer log.Debugf("serve: ServeConn() for %s exited", conn.RemoteAddr().String())
 
@@ -208,6 +232,7 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 
@@ -280,14 +305,15 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
+		_ = ln.Close()
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -303,27 +329,47 @@ func (srv *Server) changeListener(ln net.Listener) error {
 	return nil
 }
 
+// enter makes Close() wait for the caller, who must call wg.Done in the end.
+// It returns false if server is closed.
+func (srv *Server) enter() bool {
+	// NB: the lock makes sure that nothing is added after Close() has started to wait
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	if srv.shutdown.HasFired() {
+		return false
+	}
+
+	srv.wg.Add(1)
+
+	return true
+}
+
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
 // before the server is shutdown.
-func (srv *Server) do(f func()) {
-	srv.wg.Add(1)
+func (srv *Server) do(f func()) error {
+	if !srv.enter() {
+		return ErrServerClosed
+	}
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return nil
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From 679fc01715749b0890207050bad229cffeb2fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 17/25] fix: clients that ask for another database get an error
 response

---
 pkg/server/session.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 65e322f..b0a6a01 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -193,13 +193,13 @@ func (s *Session) negotiateSessionParams() error {
 	}
 
 	if dbName := startupMessage.GetParameter("database"); dbName != allowedDB {
-		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
+		return s.refuseDatabase(dbName, allowedDB)
 	}
 
 	// NB: PostgreSQL uses the last one of repeated parameters, so all of them have to be checked
 	for _, param := range startupMessage.Parameters {
 		if param.Name == "database" && param.Value != allowedDB {
-			return fmt.Errorf("session: database mismatch: %v != %v", param.Value, allowedDB)
+			return s.refuseDatabase(param.Value, allowedDB)
 		}
 	}
 
@@ -207,6 +207,24 @@ func (s *Session) negotiateSessionParams() error {
 	return s.establishDBConnection(startupMessage)
 }
 
+// refuseDatabase tells the client that the database it asked for is not proxied and returns the error to stop with.
+func (s *Session) refuseDatabase(dbName, allowedDB string) error {
+	err := s.clientConn.SendMessage(&pg.ErrorResponseMessage{
+		Fields: []*pg.MessageField{
+			{Type: pg.MessageFieldSeverityLocalized, Value: "FATAL"},
+			{Type: pg.MessageFieldSeverity, Value: "FATAL"},
+			{Type: pg.MessageFieldCode, Value: "3D000"}, // invalid_catalog_name
+			{Type: pg.MessageFieldMessage, Value: fmt.Sprintf("database %q is not available through this proxy", dbName)},
+		},
+	})
+
+	if err != nil {
+		log.Debugf("session: refusal is not sent to the client; err = %v", err)
+	}
+
+	return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
+}
+
 // establishDBConnection connects to the database using connection parameters from the config.
 func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	// Get database connection params from the config
-- 
2.43.0


From a5c46f14325559e4a092714533e51df473e3bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 18/25] fix: everything that only prints help or the version
 ends there, with status 0

---
 pkg/cli/cli.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 83f3478..14f2b8c 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -54,8 +54,8 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 
 	app := kingpin.New(appName, "")
 
-	// Do not call os.Exit
-	app.Terminate(nil)
+	// Do not call os.Exit. Kingpin terminates when it has printed what the user asked for
+	app.Terminate(func(int) { parsedArgs.isHelp = true })
 
 	// Write output to stderr
 	app.Writer(c.stderr)
@@ -77,7 +77,7 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 
 	// Expose --help and --version flags to our struct
 	app.HelpFlag.BoolVar(&parsedArgs.isHelp)
-	app.VersionFlag.BoolVar(&parsedArgs.isHelp)
+	app.VersionFlag.BoolVar(&parsedArgs.isVersion)
 
 	_, err := app.Parse(args)
 
-- 
2.43.0


From 7a3aa6aedda143819e6b6d833720c0860b9ce6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 19/25] fix: the default configuration file is gevulot.toml in
 the current directory, as documented

---
 pkg/cli/cli.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 14f2b8c..3504e84 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -3,8 +3,6 @@ package cli
 import (
 	"fmt"
 	"io"
-	"os"
-	"path/filepath"
 
 	log "github.com/sirupsen/logrus"
 	"gopkg.in/alecthomas/kingpin.v2"
@@ -67,7 +65,7 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 	app.Flag("config", "Set the configuration file path").
 		Short('c').
 		PlaceHolder("PATH").
-		Default(filepath.Join(filepath.Dir(os.Args[0]), "gevulot.toml")).
+		Default("gevulot.toml").
 		StringVar(&parsedArgs.configPath)
 
 	// Add --verbose flag to enable debug output
-- 
2.43.0


From 1124eea080e16f556ea9fb06429d62a9d9e28ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:48 +0000
Subject: [PATCH 20/25] fix: the file watcher reports failures to watch
 reliably, without leaking, and survives errors

---
 pkg/cli/file_watcher.go | 159 +++++++++++++++++-----------------------
 1 file changed, 67 insertions(+), 92 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..e0646b5 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -1,8 +1,6 @@
 package cli
 
 import (
-	"sync"
-
 	"github.com/fsnotify/fsnotify"
 	log "github.com/sirupsen/logrus"
 )
@@ -31,105 +29,82 @@ func newFileWatcher(path string) *fileWatcher {
 }
 
 // Watch starts watching for the file changes on the disk.
-// nolint:gocognit
 func (w *fileWatcher) Watch() error {
-	// We have 2 nested goroutines in this function.
-	// We use watcherError variable to pull any errors from them into the calling gorouting.
-	var watcherError error = nil
-
-	// Initialization sync group. We have to wait until the watcher starts the watching to
-	// return any possible errors.
-	initWG := sync.WaitGroup{}
-	initWG.Add(1)
-
-	// This goroutine starts and closes fsnotify watcher
-	go func() {
-		watcher, err := fsnotify.NewWatcher()
-
-		if err != nil {
-			watcherError = err
-			initWG.Done()
-			return
-		}
+	watcher, err := fsnotify.NewWatcher()
 
-		defer watcher.Close()
-
-		// Event loop sync group
-		eventsWG := sync.WaitGroup{}
-		eventsWG.Add(1)
-
-		// Channel to notify handler to stop
-		w.watchDone = make(chan bool)
-
-		// FS events handler
-		go func() {
-			// Continue execution of the parent goroutine
-			defer eventsWG.Done()
-
-			for {
-				select {
-				// fsnotify watcher event
-				case event, ok := <-watcher.Events:
-					// 'Events' channel is closed
-					if !ok {
-						return
-					}
-
-					// Run the callback
-					switch {
-					case event.Op&fsnotify.Create != 0:
-						if w.OnCreate != nil {
-							w.OnCreate()
-						}
-
-					case event.Op&fsnotify.Write != 0:
-						if w.OnWrite != nil {
-							w.OnWrite()
-						}
-
-					case event.Op&fsnotify.Remove != 0:
-						if w.OnRemove != nil {
-							w.OnRemove()
-						}
-					}
-
-				// fsnotify watcher error
-				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
-					}
-
-					return
-
-				// StopWatch has been called
-				case <-w.watchDone:
-					return
-				}
+	if err != nil {
+		return err
+	}
+
+	// Start the watcher
+	err = watcher.Add(w.Path)
+
+	if err != nil {
+		_ = watcher.Close()
+		return err
+	}
+
+	// Channel to notify handler to stop
+	w.watchDone = make(chan bool)
+
+	// FS events handler
+	go w.handleEvents(watcher)
+
+	return nil
+}
+
+// handleEvents runs the callbacks until StopWatch is called.
+func (w *fileWatcher) handleEvents(watcher *fsnotify.Watcher) {
+	defer watcher.Close()
+
+	for {
+		select {
+		// fsnotify watcher event
+		case event, ok := <-watcher.Events:
+			// 'Events' channel is closed
+			if !ok {
+				return
 			}
-		}()
 
-		// Start the watcher
-		watcherError = watcher.Add(w.Path)
+			// Run the callback
+			switch {
+			case event.Op&fsnotify.Create != 0:
+				if w.OnCreate != nil {
+					w.OnCreate()
+				}
 
-		// Exit from Watch
-		initWG.Done()
+			case event.Op&fsnotify.Write != 0:
+				if w.OnWrite != nil {
+					w.OnWrite()
+				}
 
-		// Event loop
-		eventsWG.Wait()
+			case event.Op&fsnotify.Remove != 0:
+				if w.OnRemove != nil {
+					w.OnRemove()
+				}
+			}
 
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
-	}()
+		// fsnotify watcher error
+		case err, ok := <-watcher.Errors:
+			// 'Errors' channel is closed
+			if !ok {
+				return
+			}
+
+			// We are not in the context of calling goroutine anymore so we cannot just return error
+			// and have to print the error by ourselves.
+			log.Errorf("file watcher error: %v", err)
 
-	// Wait for watcher to initialize
-	initWG.Wait()
+			// The watcher is still working, but an event may have been lost
+			if w.OnWrite != nil {
+				w.OnWrite()
+			}
 
-	// Return initialization error if any
-	return watcherError
+		// StopWatch has been called
+		case <-w.watchDone:
+			return
+		}
+	}
 }
 
 // StopWatch stops the file watcher.
-- 
2.43.0


From a95fada9305188f4ec49d07d83f1a0e3940c76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 21/25] fix: configurations that lack a mandatory field are
 rejected, at startup and while running

---
 pkg/cli/cli.go                | 23 ++++++++++++++++++-----
 pkg/cli/read_server_config.go | 25 +++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 3504e84..bcf87bf 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -97,21 +97,34 @@ func (c *cli) configureLogger(verbose bool) {
 }
 
 func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error) {
-	config, err := readServerConfig(configPath)
+	config, err := readValidServerConfig(configPath)
 
 	if err != nil {
 		return nil, err
 	}
 
-	configChan := make(chan *server.Config, 1)
-	configChan <- config
-
-	err = watchServerConfig(configPath, configChan)
+	updates := make(chan *server.Config, 1)
+	err = watchServerConfig(configPath, updates)
 
 	if err != nil {
 		return nil, err
 	}
 
+	configChan := make(chan *server.Config, 1)
+	configChan <- config
+
+	go func() {
+		for updatedConfig := range updates {
+			// Never let the running server have a half-written config
+			if err := validateServerConfig(updatedConfig); err != nil {
+				log.Errorf("error loading config file %s: %v", configPath, err)
+				continue
+			}
+
+			configChan <- updatedConfig
+		}
+	}()
+
 	return configChan, nil
 }
 
diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..8a7db86 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -27,3 +28,27 @@ func readServerConfig(path string) (*server.Config, error) {
 
 	return config, nil
 }
+
+// validateServerConfig checks that all mandatory fields are present in the config.
+func validateServerConfig(config *server.Config) error {
+	if config.Listen == "" {
+		return errors.New("mandatory field is missing: listen")
+	}
+
+	if config.DatabaseURL == "" {
+		return errors.New("mandatory field is missing: database-url")
+	}
+
+	return nil
+}
+
+// readValidServerConfig reads server config at the given file path and checks that it is complete.
+func readValidServerConfig(path string) (*server.Config, error) {
+	config, err := readServerConfig(path)
+
+	if err != nil {
+		return nil, err
+	}
+
+	return config, validateServerConfig(config)
+}
-- 
2.43.0


From 2f6c1970405efeb6f79448d7f3a0d0d594a8bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 22/25] fix: a change of the configuration file made while the
 watch is being set up is not missed

---
 pkg/cli/cli.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index bcf87bf..ba8f9f0 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -110,6 +110,15 @@ func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error
 		return nil, err
 	}
 
+	// The file might have been changed before we started to watch it
+	latestConfig, err := readValidServerConfig(configPath)
+
+	if err != nil {
+		log.Errorf("error loading config file %s: %v", configPath, err)
+	} else {
+		config = latestConfig
+	}
+
 	configChan := make(chan *server.Config, 1)
 	configChan <- config
 
-- 
2.43.0


From 64d1e9af37d9fc90e4e200b494004be56ae0cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 23/25] fix: tables in schemas whose name merely starts with pg
 are listed

---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..63f72b2 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,7 +60,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
+         AND n.nspname !~ '^pg_'
 		 AND c.relkind IN ('r', 'm', 'v');`,
 	)
 
-- 
2.43.0


From b796655b2ca03535557474733b700147eb3e6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:20 +0000
Subject: [PATCH 24/25] fix: an incomplete table mapping is an error

---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 63f72b2..fcbe1bf 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// The result might have been cut short
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From fc6d603ba2ebe99c0959ba7730566fd48d10ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:54 +0000
Subject: [PATCH 25/25] fix: listen on an address that was unusable at first
 once it is configured again

The updates were filtered by comparing with the previous configuration, so a configuration that names the same
address again (or changes another setting) was never tried again after the address could not be bound.
---
 pkg/server/server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c09507a..636037e 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -93,9 +93,7 @@ func (srv *Server) Start() error {
 	serverConfigurationUpdates := make(chan *Config, 1)
 	defer close(serverConfigurationUpdates)
 
-	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
-		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-	})
+	err := srv.config.Subscribe(serverConfigurationUpdates)
 
 	if err != nil {
 		return err
@@ -107,10 +105,18 @@ func (srv *Server) Start() error {
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
+	// Config of the current listener
+	var listenerConfig *Config
+
 	for {
 		select {
 		// Wait for the new config
 		case config := <-serverConfigurationUpdates:
+			// NB: it might differ from the previous config if that had an address that we couldn't listen on
+			if listenerConfig != nil && listenerConfig.Listen == config.Listen {
+				continue
+			}
+
 			log.Infof("server: serving on %s", config.Listen)
 
 			// Initialize a new listener
@@ -129,6 +135,8 @@ func (srv *Server) Start() error {
 				return err
 			}
 
+			listenerConfig = config
+
 			// Serve the new listener
 			_ = srv.do(func() { _ = srv.acceptLoop(ln) })
 
-- 
2.43.0

