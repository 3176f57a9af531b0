From b0cdca4d48357f0f2d937c9cf8c98d2d43ee6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 01/83] fix: SASL authentication on reconnect must not take the
 broker lock again

---
 broker.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..5c89044 100644
--- a/broker.go
+++ b/broker.go
@@ -164,7 +164,8 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
+	// the broker lock is held by the caller already when a closed broker is reopened
+	resp, err := broker.exchange(saslHandShakeRequest)
 	if err != nil {
 		return err
 	}
@@ -174,7 +175,7 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	resp, err = broker.exchange(saslAuthenticateRequest)
 	if err != nil {
 		return err
 	}
@@ -250,16 +251,20 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		}
 	}()
 
-	rp, err := broker.Request(r)
+	resp, err = broker.exchange(r)
 	if err != nil {
 		return nil, err
 	}
+	return resp, resp.Error()
+}
 
-	resp, err = rp.ReadAndParse()
+// exchange sends a request and reads its response. the caller must hold the broker lock, or own the broker exclusively
+func (broker *Broker) exchange(r Request) (Response, error) {
+	rp, err := broker.Request(r)
 	if err != nil {
 		return nil, err
 	}
-	return resp, resp.Error()
+	return rp.ReadAndParse()
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-- 
2.43.0


From e64d0ab6617eb7ca778df8ec7b430c58b06a427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 02/83] fix: reopen the connection of a streaming fetch under
 the broker lock

---
 broker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/broker.go b/broker.go
index 5c89044..ae0de56 100644
--- a/broker.go
+++ b/broker.go
@@ -373,13 +373,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
-- 
2.43.0


From 555be71f51f5d68a4196345eb66774ede0b480ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 03/83] fix: an unset per-API timeout must not disable the read
 deadline of fetch

---
 broker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index ae0de56..445b0d9 100644
--- a/broker.go
+++ b/broker.go
@@ -386,7 +386,7 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 	payload := fetchRequest.Encode(broker.getHighestAvailableAPIVersion(API_FetchRequest))
 
 	timeout := broker.config.Net.TimeoutMS
-	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
+	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) && broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
 		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
 	}
 
-- 
2.43.0


From a98d95c3007805d92148c05e793f15f8bbc2d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 04/83] fix: never reuse a connection after a failed exchange

---
 broker.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/broker.go b/broker.go
index 445b0d9..915713a 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -245,14 +244,10 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
-
 	resp, err = broker.exchange(r)
 	if err != nil {
+		// whatever went wrong, bytes of this exchange may be left on the connection
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From 251761ff3ed2273e80e938e1252ce77afa0bd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 05/83] fix: drop the connection when its set-up fails

---
 broker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 915713a..92de5b4 100644
--- a/broker.go
+++ b/broker.go
@@ -75,10 +75,15 @@ func (broker *Broker) createConn() error {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
-- 
2.43.0


From fa0d5ae15d0c8099bc448d3f00ca782b7e0c5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 06/83] fix: a failed write of a fetch request is an error

---
 broker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 92de5b4..2d4daf7 100644
--- a/broker.go
+++ b/broker.go
@@ -298,7 +298,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-- 
2.43.0


From 36acc4c1083d595ac15f4c5d11f40624a5aa691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 07/83] fix: read the whole length prefix of a fetch response

---
 broker.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/broker.go b/broker.go
index 2d4daf7..16922f4 100644
--- a/broker.go
+++ b/broker.go
@@ -306,13 +306,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	if timeout > 0 {
 		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
-- 
2.43.0


From 81f41d775b35ac1498ca0601441253108d3d32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 08/83] fix: a failed leave group request must not panic

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 16922f4..c75d3c1 100644
--- a/broker.go
+++ b/broker.go
@@ -441,5 +441,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 9533a0d490aae718cf372ae6ac7396375ac1a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 09/83] fix: drain a fetch response before reporting its error,
 and drop the connection if that fails

---
 fetch_response.go  | 15 +++++++--------
 simple_consumer.go |  7 +++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..f7dce1f 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -515,21 +515,18 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 		return err
 	}
 	defer func() {
-		// 将 LimitedReader 中的剩余数据读取完毕
-		streamDecoder.readAll()
-
 		logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
 	}()
 
-	if streamDecoder.responsesCount == 0 {
-		return nil
-	}
-
 	logger.V(5).Info("decode fetch response", "correlationID", streamDecoder.correlationID, "responsesCount", streamDecoder.responsesCount)
 
 	for i := 0; i < streamDecoder.responsesCount; i++ {
 		err := streamDecoder.decodeResponses(streamDecoder.version)
 		if err != nil {
+			// the consumer may use the connection as soon as it gets the error
+			if _, err := streamDecoder.readAll(); err != nil {
+				return err
+			}
 			msg := &FullMessage{
 				TopicName:   "",
 				PartitionID: -1,
@@ -547,5 +544,7 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 		}
 	}
 
-	return nil
+	// 将 LimitedReader 中的剩余数据读取完毕
+	_, err := streamDecoder.readAll()
+	return err
 }
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..efbbb85 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -412,7 +412,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
 		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
 
-		reader, responseLength, err := c.leaderBroker.requestFetchStreamingly(r)
+		leaderBroker := c.leaderBroker
+		reader, responseLength, err := leaderBroker.requestFetchStreamingly(r)
 		if err != nil {
 			if err == context.Canceled {
 				return
@@ -428,7 +429,7 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			buffers:     reader,
 			messages:    innerMessages,
 			totalLength: int(responseLength),
-			version:     c.leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
+			version:     leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
@@ -438,6 +439,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 					return
 				}
 				logger.Error(err, "failed to decode fetch response")
+				// the rest of the response may be left on the connection
+				leaderBroker.Close()
 			}
 			close(innerMessages)
 		}()
-- 
2.43.0


From fe97208916b33bfe355c313c8553668dc456a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/83] fix: set the stop flag before cancelling the consume
 loop

---
 simple_consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index efbbb85..6306611 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -276,9 +276,9 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
-	c.cancel()
-
+	// set stop before cancel, or the consume loop may fetch again
 	c.stop = true
+	c.cancel()
 
 	c.consumeLoopWg.Wait()
 
-- 
2.43.0


From 94e1ad625825f5b9ef7be956a97dd0771ccabcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 11/83] fix: Stop must wait for a consume loop that has just
 been started

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 6306611..9e4ed59 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -392,13 +392,13 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}()
 	}
 
+	c.consumeLoopWg.Add(1)
 	go c.consumeLoop(messages)
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
 	defer c.consumeLoopWg.Done()
 
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
-- 
2.43.0


From 7562c1bab5fb3e8ca0858d7cf6ce078bfabe3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 12/83] fix: a failed offset lookup must not change the
 consumer position

---
 simple_consumer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 9e4ed59..84e905e 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -193,10 +193,12 @@ func (c *SimpleConsumer) initOffset() {
 	}
 
 	for !c.stop {
-		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
+		var offset int64
+		if offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 		} else {
+			c.offset = offset
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
 		}
@@ -477,9 +479,11 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
-				if err != nil {
+				var offset int64
+				if offset, err = c.getOffset(c.fromBeginning); err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+				} else {
+					c.offset = offset
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) {
 				c.leaderBroker.Close()
-- 
2.43.0


From d4d111357eb7d02c42b66de71be89943738274ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 13/83] fix: an offsets response without the partition is an
 error

---
 simple_consumer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 84e905e..c5eedd5 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -220,7 +220,11 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	offsets := offsetsResponse.TopicPartitionOffsets[c.topic]
+	if len(offsets) == 0 {
+		return -1, fmt.Errorf("no offset of %s-%d in the response", c.topic, c.partitionID)
+	}
+	return int64(offsets[0].GetOffset()), nil
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
-- 
2.43.0


From bc9de359220c9f59df0c5bbb13509cb410afd09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 14/83] fix: stopping a consumer ends the committed offset
 lookup

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index c5eedd5..e77af18 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -251,7 +251,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		coordinator = c.coordinator
 	}
 
-	for {
+	for !c.stop {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
-- 
2.43.0


From 2b5e2ea77d975e30ec43c5d49aaec39cc1bd144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 15/83] fix: no nil dereference when the leader is not a known
 broker

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index e77af18..e0fa02d 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -168,7 +168,7 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
-- 
2.43.0


From 0d8b650ea30f6e8b06c3cc4f9d5b4c18463bad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 16/83] fix: remember exactly the offset that was committed

---
 simple_consumer.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index e0fa02d..7278ba2 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -300,7 +300,7 @@ func (c *SimpleConsumer) Stop() {
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -312,14 +312,14 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 	return false
 }
 
@@ -327,17 +327,17 @@ func (c *SimpleConsumer) commitOffset() bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
-	if c.offset == c.offsetCommited {
-		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+	offset := c.offset
+	if offset == c.offsetCommited {
+		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
 	}
-	offset := c.offset
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
-- 
2.43.0


From 4fcd56d8ffbcfb89c6c2987f1fef5b5d58407bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 17/83] fix: never commit an offset that is not a position

---
 simple_consumer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index 7278ba2..0e9b8e6 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -328,6 +328,9 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
 	offset := c.offset
+	if offset < 0 {
+		return // no position yet
+	}
 	if offset == c.offsetCommited {
 		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
-- 
2.43.0


From 6c5708d6df0007f61d815c64480d184f177fe0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 18/83] fix: a metadata response without topics or partitions
 is an error, not a panic

---
 brokers.go  | 6 ++++++
 producer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/brokers.go b/brokers.go
index 94e993f..6cab158 100644
--- a/brokers.go
+++ b/brokers.go
@@ -254,6 +254,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("topic[%s] not found in metadata", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
@@ -301,6 +304,9 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return -1, fmt.Errorf("topic %s not found in metadata", topic)
+	}
 	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
 	for _, partitionMetadata := range partitionMetadatas {
 		if partitionMetadata.PartitionID == partitionID {
diff --git a/producer.go b/producer.go
index a8cf18c..bae820a 100644
--- a/producer.go
+++ b/producer.go
@@ -87,6 +87,9 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("topic %s not found in metadata", p.topic)
+	}
 	p.topicMeta = metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
@@ -95,6 +98,9 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition of %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
-- 
2.43.0


From 5390406692f5fbb92dee53f2a4416511b94611da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 19/83] fix: a partition without leader is an error when
 creating a producer

---
 simple_producer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..f3ff623 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -46,7 +46,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = errNoLeader
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
-- 
2.43.0


From 8688b6e72defa1caee55655350c4dc1763d152f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 20/83] fix: adding a message to a closed producer is an error

---
 producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/producer.go b/producer.go
index bae820a..887aaa1 100644
--- a/producer.go
+++ b/producer.go
@@ -187,7 +187,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
-- 
2.43.0


From cbe35ce171044e0da3be2229fe0e968a52a0570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 21/83] fix: report a failed flush to the caller that triggered
 it

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index f3ff623..1aa6249 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -155,7 +155,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From e10e6bfc0ace68ad5e46efc35e81dff81f293235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 22/83] fix: a flush racing with Close must not send the last
 batch twice

---
 simple_producer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 1aa6249..a73501e 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -235,7 +235,9 @@ func (p *SimpleProducer) Close() {
 
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
-			p.flush(p.records)
+			records := p.records
+			p.records = nil
+			p.flush(records)
 		}
 
 		if p.parent == nil {
-- 
2.43.0


From 20c285ef0ac02feb89fc456c6de682a636d58d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 23/83] fix: copy the key of a buffered message

---
 simple_producer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index a73501e..9d9e551 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -139,6 +139,11 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
+	var keyCopy []byte
+	if key != nil {
+		keyCopy = make([]byte, len(key))
+		copy(keyCopy, key)
+	}
 	valueCopy := make([]byte, len(value))
 	copy(valueCopy, value)
 
@@ -147,7 +152,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		timestampDelta: 0,
 		offsetDelta:    0,
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
-- 
2.43.0


From fa009d7102f1008ee58be664ab7bb04bdd495391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 24/83] fix: number the records of a batch

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 9d9e551..0e20395 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -150,7 +150,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
 		key:   keyCopy,
 		value: valueCopy,
-- 
2.43.0


From e5678dc67f9791b9e7cc090fa94dc8b53cf478fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 25/83] fix: guard the producer's maps and metadata with its
 lock

---
 producer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index 887aaa1..1fb8ec5 100644
--- a/producer.go
+++ b/producer.go
@@ -90,10 +90,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if len(metadataResponse.TopicMetadatas) == 0 {
 		return fmt.Errorf("topic %s not found in metadata", p.topic)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
@@ -109,6 +109,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -137,9 +138,9 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -192,6 +193,8 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
-- 
2.43.0


From 258c242859b10cc7e8be62ee697e2d736a449ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 26/83] fix: do not start consuming after the group consumer
 was closed

---
 group_consumer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..301ca14 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -519,6 +519,9 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 		return c.messages, nil
 	case <-joinedChan:
 	}
+	if c.closed {
+		return c.messages, nil
+	}
 
 	c.joined = true
 
-- 
2.43.0


From 362bebb4c8cf6cb9d728325d3d6af331926258e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 27/83] fix: closing a consumer ends its coordinator lookup

---
 consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..7899796 100644
--- a/consumer.go
+++ b/consumer.go
@@ -107,7 +107,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
 
-			for {
+			for !c.closed {
 				err := simpleConsumer.getCoordinator()
 				if err != nil {
 					logger.Error(err, "get coordinator failed")
-- 
2.43.0


From 17e8a66a6ce17b2736823ad2e70465879447b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:45 +0000
Subject: [PATCH 28/83] fix: a field of a fetch response may arrive in several
 pieces

---
 fetch_response.go | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index f7dce1f..34fc2d2 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -92,6 +92,13 @@ func (streamDecoder *fetchResponseStreamDecoder) read(n int) (rst []byte, length
 	return rst, length, err
 }
 
+// readFull fills p. the bytes of one field may arrive in several pieces
+func (streamDecoder *fetchResponseStreamDecoder) readFull(p []byte) (n int, err error) {
+	n, err = io.ReadFull(streamDecoder.buffers, p)
+	streamDecoder.offset += n
+	return n, err
+}
+
 // uncompress read all remaining bytes and uncompress them
 func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err error) {
 	switch CompressType(compress) {
@@ -143,16 +150,15 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 
 			// 12 is the size of offset(int64) & message_size(int32) in header17
 			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
+			n, e := streamDecoder.readFull(value[17:])
 			offset += n
+			// remaining bytes is incomplete
+			if e == io.ErrUnexpectedEOF {
+				return offset, nil
+			}
 			if e != nil {
 				return offset, e
 			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
 			copy(value, header17)
 		} else {
 			buf, n, err := streamDecoder.read(12)
@@ -165,14 +171,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 			}
 			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
 			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
+			n, err = streamDecoder.readFull(value[12:])
 			offset += n
-			if err != nil {
-				return offset, err
-			}
-
 			// remaining bytes is incomplete
-			if n < len(value)-17 {
+			if err == io.ErrUnexpectedEOF {
+				return offset, nil
+			}
+			if err != nil {
 				return offset, err
 			}
 			copy(value, buf)
@@ -375,12 +380,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -388,24 +393,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -415,12 +420,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -428,7 +433,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From d18646c49cd8a1d01c19216c99d5d346a3cb5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 29/83] fix: a request's header version follows its API version

---
 request.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/request.go b/request.go
index 7a94b44..5d15274 100644
--- a/request.go
+++ b/request.go
@@ -60,7 +60,6 @@ var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
 
 // RequestHeader is the request header, which is used in all requests. It contains apiKey, apiVersion, correlationID, clientID
 type RequestHeader struct {
-	hv            *uint16 // header version
 	APIKey        uint16
 	APIVersion    uint16
 	CorrelationID uint32
@@ -216,13 +215,6 @@ func (h *RequestHeader) IsFlexible() bool {
 // The new serialization types start with compact.
 // For example COMPACT_STRING is a more efficient form of STRING.
 func (h *RequestHeader) headerVersion() (r uint16) {
-	if h.hv != nil {
-		return *h.hv
-	}
-	defer func() {
-		h.hv = &r
-	}()
-
 	_version := h.APIVersion
 	switch h.APIKey {
 	case 0: // Produce
-- 
2.43.0


From 1df06f595893d405752e374f2aea22d8aeb663a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:24 +0000
Subject: [PATCH 30/83] fix: a produce request carries its transactional id
 from version 3 on only

---
 produce_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
-- 
2.43.0


From f1d300646528e75dcd1d9ad25e1cbc8e01ddf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:30 +0000
Subject: [PATCH 31/83] fix: the null key of a record is one byte long

---
 record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record.go b/record.go
index 3dfdb3d..0c091c9 100644
--- a/record.go
+++ b/record.go
@@ -65,7 +65,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
-- 
2.43.0


From 44e37a24b3f9c4702510a49b42a7742a6aaf05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 32/83] fix: a produce request that cannot be encoded is an
 error, not a panic

---
 broker.go          |  3 +++
 produce_request.go | 10 ++++++++--
 record.go          |  6 ++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index c75d3c1..0619200 100644
--- a/broker.go
+++ b/broker.go
@@ -268,6 +268,9 @@ func (broker *Broker) exchange(r Request) (Response, error) {
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
+	if len(payload) == 0 {
+		return defaultReadParser{}, errors.New("the request could not be encoded")
+	}
 	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
diff --git a/produce_request.go b/produce_request.go
index 65aa5c6..586c735 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -112,6 +112,9 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 	// update length
 	binary.Write(buf, binary.BigEndian, uint32(0))
 	defer func() {
+		if payload == nil {
+			return
+		}
 		binary.BigEndian.PutUint32(payload, uint32(buf.Len()-4))
 	}()
 
@@ -126,7 +129,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 			_, err = writeNullableString(buf, r.transactionalID)
 		}
 		if err != nil {
-			return
+			return nil
 		}
 	}
 
@@ -140,7 +143,10 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	for _, t := range r.TopicBlocks {
-		t.encode(buf, version, isFlexible)
+		if err = t.encode(buf, version, isFlexible); err != nil {
+			logger.Error(err, "failed to encode produce request", "topic", t.TopicName)
+			return nil
+		}
 	}
 
 	if isFlexible {
diff --git a/record.go b/record.go
index 0c091c9..2e5f38f 100644
--- a/record.go
+++ b/record.go
@@ -211,6 +211,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 
 	// BatchLength is variable, so reserve space for it.
 	defer func() {
+		if err != nil {
+			return
+		}
 		binary.BigEndian.PutUint32(payload[8:], uint32(buf.Len()-12)) // 12 is baseoffset + batchlength
 	}()
 
@@ -231,6 +234,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 	crcOffset := buf.Len()
 	binary.Write(buf, binary.BigEndian, r.CRC)
 	defer func() {
+		if err != nil {
+			return
+		}
 		crc := crc32.Checksum(payload[crcOffset+4:], castagnoliTable)
 		binary.BigEndian.PutUint32(payload[crcOffset:], crc)
 	}()
-- 
2.43.0


From 0394a4fe99f245eb516fd9c61f374d8cffd23f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:42 +0000
Subject: [PATCH 33/83] fix: ACL requests have tagged fields in flexible
 versions only

---
 create_acls_request.go   | 20 ++++++++++++++------
 describe_acls_request.go |  4 +++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 10b20be6c3ea1e854836e2e7c82cc41c67334e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:48 +0000
Subject: [PATCH 34/83] fix: the filters of a list groups request are never
 null

---
 list_groups_request.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/list_groups_request.go b/list_groups_request.go
index 84a4481..9047443 100644
--- a/list_groups_request.go
+++ b/list_groups_request.go
@@ -80,11 +80,7 @@ func (r *ListGroupsRequest) Encode(version uint16) (payload []byte) {
 	offset += r.RequestHeader.EncodeTo(payload[offset:])
 
 	if r.APIVersion >= tags["StatesFilter"] {
-		if r.StatesFilter == nil {
-			compactArrayCount = -1
-		} else {
-			compactArrayCount = len(r.StatesFilter)
-		}
+		compactArrayCount = len(r.StatesFilter)
 		if r.IsFlexible() {
 			offset += copy(payload[offset:], encodeCompactArrayLength(compactArrayCount))
 		} else {
@@ -102,11 +98,7 @@ func (r *ListGroupsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	if r.APIVersion >= tags["TypesFilter"] {
-		if r.TypesFilter == nil {
-			compactArrayCount = -1
-		} else {
-			compactArrayCount = len(r.TypesFilter)
-		}
+		compactArrayCount = len(r.TypesFilter)
 		if r.IsFlexible() {
 			offset += copy(payload[offset:], encodeCompactArrayLength(compactArrayCount))
 		} else {
-- 
2.43.0


From f6008c1de516b573ee718c5e6faae265dcbae777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 35/83] fix: no assignments are null in a create partitions
 request of version 0

---
 create_partitions_request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..fcfd120 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"encoding/binary"
+	"math"
 )
 
 // CreatePartitionsRequest holds the parameters of a create-partitions request.
@@ -84,7 +85,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], math.MaxUint32)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
-- 
2.43.0


From ce39933293c50f56f618bc283ed4be6fe3c76130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:16 +0000
Subject: [PATCH 36/83] fix: a fetch request has room for all partitions of a
 topic

---
 fetch_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fetch_request.go b/fetch_request.go
index 3855996..a3ee3e8 100644
--- a/fetch_request.go
+++ b/fetch_request.go
@@ -67,8 +67,8 @@ func (fetchRequest *FetchRequest) addPartition(topic string, partitionID int32,
 func (fetchRequest *FetchRequest) length(version uint16) int {
 	length := 4 + fetchRequest.RequestHeader.length()
 	length += 25 + 4 + 4
-	for topicname := range fetchRequest.Topics {
-		length += 2 + len(topicname) + 28
+	for topicname, partitionBlocks := range fetchRequest.Topics {
+		length += 2 + len(topicname) + 4 + len(partitionBlocks)*28
 	}
 	for topicname, partitionIDs := range fetchRequest.ForgottenTopicsDatas {
 		length += 2 + len(topicname) + 4 + len(partitionIDs)*4
-- 
2.43.0


From 4d5a4008e295f1e3d5097214785c0e26cb299989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:22 +0000
Subject: [PATCH 37/83] fix: request buffers have room for strings of any
 length

---
 create_partitions_request.go | 1 +
 list_groups_request.go       | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index fcfd120..817704c 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -109,6 +109,7 @@ func (r *CreatePartitionsRequest) length(version uint16) (length int) {
 	for _, topic := range r.Topics {
 		length += 2 + len(topic.Name)                  // name
 		length += 4                                    // count
+		length++                                       // TAG_BUFFER
 		length += 4                                    // assignments length
 		for _, assignment := range topic.Assignments { // assignments
 			length += 4
diff --git a/list_groups_request.go b/list_groups_request.go
index 9047443..e842f38 100644
--- a/list_groups_request.go
+++ b/list_groups_request.go
@@ -41,12 +41,12 @@ func (r *ListGroupsRequest) length() (n int) {
 
 	n += 4
 	for _, v := range r.StatesFilter {
-		n += 2 + len(v)
+		n += binary.MaxVarintLen16 + len(v)
 	}
 
 	n += 4
 	for _, v := range r.TypesFilter {
-		n += 2 + len(v)
+		n += binary.MaxVarintLen16 + len(v)
 	}
 
 	n += r.TaggedFields.length()
-- 
2.43.0


From 4b229eca8493eceaf457011efc9b1c2eba28d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:50 +0000
Subject: [PATCH 38/83] fix: decode null error messages and several resources
 of an alter configs response

---
 alter_config_response.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..b5464f5 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,10 +32,12 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
 	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
+	}
 
 	r.ResourceType = payload[offset]
 	offset++
@@ -44,7 +46,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
-- 
2.43.0


From 9ab7c913e946a281fe5a425f0e2a7258a75c70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:56 +0000
Subject: [PATCH 39/83] fix: decode several resources of an incremental alter
 configs response

---
 incremental_alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From 050cbf7d5cc90e9902d415e3c0605b108b9fc038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:03 +0000
Subject: [PATCH 40/83] fix: read the throttle time of a create acls response

---
 create_acls_response.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..9b61edd 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -85,6 +89,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 
 func (r *CreateAclsResponse) length() (n int) {
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -109,6 +114,10 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
+
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
-- 
2.43.0


From fdc8e003b26949181bb8c6b338ce5dc93ab9fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 41/83] fix: decode the tag buffers of a create partitions
 response

---
 create_partitions_response.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..b7490fa 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -44,9 +44,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,11 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
-- 
2.43.0


From b1414a6f8d232ee39ee563b5c08ef76d81bd3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:15 +0000
Subject: [PATCH 42/83] fix: only flexible delete acls responses have tagged
 fields

---
 delete_acls_response.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..46fbceb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 8eda58995b5fc242a41bf9506b56a455adedd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:21 +0000
Subject: [PATCH 43/83] fix: the header of a describe acls response has tagged
 fields from version 2 on

---
 desscribe_acls_response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..76acf7e 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +181,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From d81e9de63d51cacb0774be990241f7d346047a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:28 +0000
Subject: [PATCH 44/83] fix: decode the error message of a describe configs
 resource whatever its error code

---
 describe_configs_response.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..4adb49d 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
-- 
2.43.0


From 94887fd41122ec14c1857d2b2cd1fd685ac878c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:34 +0000
Subject: [PATCH 45/83] fix: keep the member metadata of a describe groups
 response

---
 describe_groups_response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..d062b7d 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
-- 
2.43.0


From 30447ad1d53e1c024c600fe6c1000cf25ce2ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:09 +0000
Subject: [PATCH 46/83] fix: decode the header and the tag buffers of a list
 partition reassignments response

---
 list_partition_reassignments_response.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..daa8bf5 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 	return
 }
@@ -108,15 +108,15 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
+	_, o := DecodeTaggedFields(payload[offset:]) // TAG_BUFFER of the header
+	offset += o
+
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +132,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 
 	return r, err
-- 
2.43.0


From c44ec012a24b3186fe4126a580e798edf1d1646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 47/83] fix: decode the cluster id of a metadata response

---
 metadata_response.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..8d1c6b6 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,12 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
+		offset += 2
+		if l > 0 {
+			r.ClusterID = string(payload[offset : offset+l])
+			offset += l
+		}
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 0fe524554331a2aed8a88f4d439596e93f38ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:21 +0000
Subject: [PATCH 48/83] fix: decode null metadata in an offset fetch response

---
 offset_fetch_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..20eef97 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,12 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
+			l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
 			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			if l > 0 {
+				p.Metadata = string(payload[offset : offset+l])
+				offset += l
+			}
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From 61cb17f3e5f5f311a26aa73aa6b0a56e9453a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 49/83] fix: decode the error code of a sasl handshake response

---
 sasl_handshake_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From cb19699fd7902f55c1918323ff29e63208775c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:32 +0000
Subject: [PATCH 50/83] fix: decode every field of a produce response

---
 produce_response.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..cf52d8e 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -139,7 +148,7 @@ type ProduceResponse struct {
 	ResponseHeader
 	ProduceResponses []produceResponseT
 
-	ThrottleTimeMs int32        `healer:"minVersion:3"`
+	ThrottleTimeMs int32        `healer:"minVersion:1"`
 	TaggedField    TaggedFields `json:"tagged_fields"`
 }
 
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,14 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= 1 {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+	if isFlexible {
+		r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return r, err
 }
-- 
2.43.0


From 57bff2e5f91973adca8cd4e3279c247c88904c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:39 +0000
Subject: [PATCH 51/83] fix: write the length of the user data of a member
 assignment

---
 group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group.go b/group.go
index 87debf1..502b760 100644
--- a/group.go
+++ b/group.go
@@ -49,6 +49,8 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 			offset += 4
 		}
 	}
+	binary.BigEndian.PutUint32(payload[offset:], uint32(len(memberAssignment.UserData)))
+	offset += 4
 	copy(payload[offset:], memberAssignment.UserData)
 
 	return payload
-- 
2.43.0


From f91fd7a837ec0fc3ff295434c874208c97e31abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:07 +0000
Subject: [PATCH 52/83] fix: register INVALID_REGISTRATION under its own error
 code

---
 errorcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errorcode.go b/errorcode.go
index d17df81..ebb4c4b 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -758,7 +758,7 @@ func init() {
 		Retriable: false,
 		ErrorDesc: "Client sent a push telemetry request larger than the maximum size the broker will accept.",
 	}
-	AllError[118] = &Error{
+	AllError[119] = &Error{
 		ErrorMsg:  "INVALID_REGISTRATION",
 		ErrorCode: 119,
 		Retriable: false,
-- 
2.43.0


From 3c01ca0754b664c637b06a5a0af67f041603545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 53/83] fix: keep the error code of errors the client does not
 know

---
 errorcode.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/errorcode.go b/errorcode.go
index ebb4c4b..7b066e1 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -35,11 +35,7 @@ func getErrorFromErrorCode(errorcode int16) error {
 		return nil
 	}
 
-	if _, ok := AllError[errorcode]; ok {
-		return KafkaError(errorcode)
-	}
-
-	return fmt.Errorf("unknown error code:%d", errorcode)
+	return KafkaError(errorcode)
 }
 
 func init() {
-- 
2.43.0


From 67309724970c4c3aa3cfea13d0dca9edb2f19e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:06 +0000
Subject: [PATCH 54/83] fix: decompress the value of a compressed message

---
 message.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index 5d1c319..788a179 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0b111, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
-- 
2.43.0


From 7cac7f14babc560bbe062505042c0ce2e8792adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:39 +0000
Subject: [PATCH 55/83] fix: report an unknown compression code as an error

---
 fetch_response.go | 4 +++-
 record.go         | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 34fc2d2..fd36f5b 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -130,6 +130,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -228,7 +230,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
+	compress := attributes & 0b111
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
diff --git a/record.go b/record.go
index 2e5f38f..a2ea8a5 100644
--- a/record.go
+++ b/record.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"hash/crc32"
 )
 
@@ -269,7 +270,7 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		return nil, err
 	}
 
-	compress := CompressType(r.Attributes & 0b11)
+	compress := CompressType(r.Attributes & 0b111)
 
 	if compress == CompressionNone {
 		for _, record := range r.Records {
@@ -283,6 +284,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		}
 	} else {
 		compressor := NewCompressor(compress.String())
+		if compressor == nil {
+			return nil, fmt.Errorf("unknown compression type %d", compress)
+		}
 		b := new(bytes.Buffer)
 		for _, record := range r.Records {
 			recordBytes, err := record.Encode(version)
-- 
2.43.0


From 39f1a5a735dad5c36dc5e8e2a0ba3b2454f70eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 56/83] fix: turn the relative offsets of compressed magic 1
 messages into absolute ones

---
 message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message.go b/message.go
index 788a179..041bce0 100644
--- a/message.go
+++ b/message.go
@@ -170,6 +170,13 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				// offsets in a compressed message set of magic 1 are relative, and the outer offset is that of the last message
+				baseOffset := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += baseOffset
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From b533cd4157f272fdaf104a2479a9eb83502d78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 57/83] fix: parse UNKNOWN acl operations and permissions as
 unknown

---
 acl_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
-- 
2.43.0


From 916252b1dfbcb86f2f5b8dd623a03d192555345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:23 +0000
Subject: [PATCH 58/83] fix: report errors that come without a message

---
 alter_partition_reassignments_response.go | 4 ++--
 create_partitions_response.go             | 2 +-
 delete_acls_response.go                   | 5 ++---
 errorcode.go                              | 8 ++++++++
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..4cdb446 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return kafkaErrorWithMessage(r.ErrorCode, r.ErrorMsg)
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return kafkaErrorWithMessage(p.ErrorCode, p.ErrorMsg)
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index b7490fa..ed60683 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %w", result.ErrorCode, kafkaErrorWithMessage(result.ErrorCode, result.ErrorMessage))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 46fbceb..4de9f0b 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,11 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return kafkaErrorWithMessage(r.FilterResults[i].ErrorCode, r.FilterResults[i].ErrorMessage)
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+				return kafkaErrorWithMessage(r.FilterResults[i].MatchingAcls[j].ErrorCode, r.FilterResults[i].MatchingAcls[j].ErrorMessage)
 			}
 		}
 	}
diff --git a/errorcode.go b/errorcode.go
index 7b066e1..4fb4f42 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -38,6 +38,14 @@ func getErrorFromErrorCode(errorcode int16) error {
 	return KafkaError(errorcode)
 }
 
+// kafkaErrorWithMessage adds the message of the broker, which may be null, to the error of the code
+func kafkaErrorWithMessage(errorcode int16, msg *string) error {
+	if msg == nil {
+		return KafkaError(errorcode)
+	}
+	return fmt.Errorf("%w: %s", KafkaError(errorcode), *msg)
+}
+
 func init() {
 	AllError[-1] = &Error{
 		ErrorCode: -1,
-- 
2.43.0


From c83d13f9447891ac12846feff0aa1bd3636b15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:44 +0000
Subject: [PATCH 59/83] fix: keep the Kafka error in the errors of
 DeleteGroups, DeleteTopics and DescribeConfigs responses

---
 delete_groups_response.go    | 2 +-
 delete_topics_response.go    | 5 +++--
 describe_configs_response.go | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/delete_groups_response.go b/delete_groups_response.go
index df9b6d6..1987eb0 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -19,7 +19,7 @@ type DeleteGroupsResponse struct {
 func (r DeleteGroupsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("delete group[%s] failed: %s", result.GroupID, KafkaError(result.ErrorCode))
+			return fmt.Errorf("delete group[%s] failed: %w", result.GroupID, KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_topics_response.go b/delete_topics_response.go
index b73a2d3..cab41c3 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 )
 
@@ -20,12 +21,12 @@ func (r DeleteTopicsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
 			allErrors = append(allErrors,
-				fmt.Errorf("delete topic[%s] failed: %s",
+				fmt.Errorf("delete topic[%s] failed: %w",
 					result.TopicName, KafkaError(result.ErrorCode)))
 		}
 	}
 	if (len(allErrors)) > 0 {
-		return fmt.Errorf("delete topics failed: %v", allErrors)
+		return fmt.Errorf("delete topics failed: %w", errors.Join(allErrors...))
 	}
 	return nil
 }
diff --git a/describe_configs_response.go b/describe_configs_response.go
index 4adb49d..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
-- 
2.43.0


From c3c37c2cc7c9127de09a79d2ab2917c5bf7d4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 60/83] fix: report the error code of a ListGroups response

---
 list_groups_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
-- 
2.43.0


From b8a731db90b68008d498a47a9dabbbf76f029df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 61/83] fix: keep the first error found in a DescribeGroups
 response

---
 describe_groups_response.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index d062b7d..d95d6cf 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -117,7 +117,11 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			assignment, e := NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			if e != nil && err == nil {
+				err = e
+			}
+			group.Members[i].MemberAssignment = assignment
 			offset += l
 		}
 
-- 
2.43.0


From 2845a6dac9418b33b56abffcc7df43837572752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:48 +0000
Subject: [PATCH 62/83] fix: do not use the missing response of a failed
 DeleteTopics request

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3619d2d..c7bf169 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if err != nil {
+		return r, err
+	}
+	return resp.(DeleteTopicsResponse), nil
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From 54d4aea2cdf02186db513ed5753cb20e20567ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:04 +0000
Subject: [PATCH 63/83] fix: REST topic config handlers stop when the
 controller is unavailable

---
 command/healer/cmd/apicontrollers/topic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0


From 3bb9516d3c5de909c14abbefd1f1fea1cf1c7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 64/83] fix: REST group handlers stop after answering with an
 error

---
 command/healer/cmd/apicontrollers/group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..5bd3766 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -52,16 +52,19 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -70,6 +73,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -164,12 +168,15 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
 		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
-- 
2.43.0


From d73154199a14183a0dc0888fa372f9ee33e3327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 65/83] fix: report an invalid --config of the consumer and
 producer commands

---
 command/healer/cmd/console-consumer.go | 6 +++++-
 command/healer/cmd/console-producer.go | 6 +++++-
 command/healer/cmd/group-consumer.go   | 6 +++++-
 command/healer/cmd/simple-consumer.go  | 6 +++++-
 command/healer/cmd/simple-producer.go  | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..3389d99 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -51,7 +51,11 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		var (
 			consumer *healer.Consumer
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..42f301b 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -40,7 +40,11 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..53460ce 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,11 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..eaa5b53 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,11 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..40c6546 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -45,7 +45,11 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
-- 
2.43.0


From cf7e0545ee21c1dd64422d6ab5fc9f53dfad994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:44 +0000
Subject: [PATCH 66/83] fix: report invalid arguments of the acls commands

---
 command/healer/cmd/create-acls.go   | 20 +++++++++++++++-----
 command/healer/cmd/delete-acls.go   | 20 +++++++++++++++-----
 command/healer/cmd/describe-acls.go | 20 +++++++++++++++-----
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..d6a8500 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,23 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err := json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			if err := json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName); err != nil {
+				return err
+			}
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+			if err := json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType); err != nil {
+				return err
+			}
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +59,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err := json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err := json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..269324d 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,23 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err := json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			if err := json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName); err != nil {
+				return err
+			}
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+			if err := json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +72,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err := json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err := json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..0ffa4db 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,23 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err := json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			if err := json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName); err != nil {
+				return err
+			}
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+			if err := json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +72,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err := json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err := json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
-- 
2.43.0


From e514a745af8eb83a7f558989cedae068154f8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 67/83] fix: add the replica assignments of create-topic in
 order and report failures

---
 command/healer/cmd/create-topic.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..e219b7b 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -103,11 +103,15 @@ var createTopicCmd = &cobra.Command{
 		}
 
 		// First add the topic
-		r.AddTopic(topic, partitions, replicationFactor)
+		if err := r.AddTopic(topic, partitions, replicationFactor); err != nil {
+			return err
+		}
 
-		// Then add replica assignments
-		for pid, nodes := range replicas {
-			r.AddReplicaAssignment(topic, pid, nodes)
+		// Then add replica assignments, in the order of the partitions
+		for pid := int32(0); pid < int32(len(replicas)); pid++ {
+			if err := r.AddReplicaAssignment(topic, pid, replicas[pid]); err != nil {
+				return err
+			}
 		}
 
 		if resp, err := controller.RequestAndGet(r); err != nil {
-- 
2.43.0


From 9c059377a6f87ecb83b76704834421475028d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:51 +0000
Subject: [PATCH 68/83] fix: delete-groups ends with an error if a group was
 not deleted

---
 command/healer/cmd/delete-groups.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/command/healer/cmd/delete-groups.go b/command/healer/cmd/delete-groups.go
index 1d5bc77..79e2967 100644
--- a/command/healer/cmd/delete-groups.go
+++ b/command/healer/cmd/delete-groups.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/childe/healer"
 	"github.com/spf13/cobra"
-	"k8s.io/klog/v2"
 )
 
 var deleteGroupsCmd = &cobra.Command{
@@ -40,11 +39,6 @@ var deleteGroupsCmd = &cobra.Command{
 			return fmt.Errorf("failed to delete groups: %w", err)
 		}
 
-		// Check for errors in response
-		if respErr := resp.Error(); respErr != nil {
-			klog.Warningf("Some groups may not have been deleted successfully: %v", respErr)
-		}
-
 		// Print response in JSON format
 		s, err := json.MarshalIndent(resp, "", "  ")
 		if err != nil {
@@ -52,6 +46,11 @@ var deleteGroupsCmd = &cobra.Command{
 		}
 		fmt.Println(string(s))
 
+		// Check for errors in response
+		if respErr := resp.Error(); respErr != nil {
+			return fmt.Errorf("some groups may not have been deleted successfully: %w", respErr)
+		}
+
 		return nil
 	},
 }
-- 
2.43.0


From 5f3b46bfa3d076079316e3e85d0307d6b8d3d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 69/83] fix: get-metadata reports a failed request

---
 command/healer/cmd/get-metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..e5bb6af 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/childe/healer"
@@ -30,6 +31,10 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		var kafkaErr healer.KafkaError
+		if err != nil && !errors.As(err, &kafkaErr) {
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 
 		switch format {
 		case "json":
@@ -42,7 +47,8 @@ var getMetadataCmd = &cobra.Command{
 			catResponse(&metadataResponse)
 		}
 
-		return nil
+		// the response may carry error codes of single topics
+		return err
 	},
 }
 
-- 
2.43.0


From 91aacfa0cc2b19a7d9bfeea229fc36dc82c70ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:59 +0000
Subject: [PATCH 70/83] fix: reset-offset looks up the flag it registers

---
 command/healer/cmd/reset-offset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..f28edfa 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -18,7 +18,7 @@ var resetOffsetCmd = &cobra.Command{
 		topic, err := cmd.Flags().GetString("topic")
 		partitions, err := cmd.Flags().GetInt32Slice("partitions")
 		group, err := cmd.Flags().GetString("group")
-		offsetsStorage, err := cmd.Flags().GetString("offset.storage")
+		offsetsStorage, err := cmd.Flags().GetString("offsets.storage")
 		timestamp, err := cmd.Flags().GetInt64("timestamp")
 
 		userCustomPartitions := make(map[int32]struct{})
-- 
2.43.0


From 52537c0c4b6a68d4c7f5822d68192eb3e5d299da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:02 +0000
Subject: [PATCH 71/83] fix: the consumer commands end with an error if
 consuming failed

---
 command/healer/cmd/console-consumer.go | 3 +++
 command/healer/cmd/group-consumer.go   | 3 +++
 command/healer/cmd/simple-consumer.go  | 3 +--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 3389d99..602a651 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -82,6 +82,9 @@ var consoleConsumerCmd = &cobra.Command{
 
 		for i := 0; i < maxMessages; i++ {
 			message := <-messages
+			if message.Error != nil {
+				return fmt.Errorf("message error: %w", message.Error)
+			}
 			if ifJson {
 				b, _ := json.Marshal(message)
 				fmt.Printf("%s\n", string(b))
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 53460ce..e362565 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -84,6 +84,9 @@ var groupConsumerCmd = &cobra.Command{
 			case <-sigChan:
 				return nil
 			case message := <-messages:
+				if message.Error != nil {
+					return fmt.Errorf("message error: %w", message.Error)
+				}
 				if jsonFormat {
 					b, err := json.Marshal(message)
 					if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index eaa5b53..694ecdc 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -84,8 +84,7 @@ var simpleConsumerCmd = &cobra.Command{
 		for i := int32(0); i < maxMessages; i++ {
 			message := <-messages
 			if message.Error != nil {
-				fmt.Printf("message error:%s\n", message.Error)
-				break
+				return fmt.Errorf("message error: %w", message.Error)
 			}
 			if stopOffset > 0 && message.Message.Offset >= stopOffset {
 				break
-- 
2.43.0


From 21105e07980840769928547fa1c067e0b346f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:06 +0000
Subject: [PATCH 72/83] fix: api reports that the server could not be started

---
 command/healer/cmd/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/api.go b/command/healer/cmd/api.go
index 38cdb70..fd7761a 100644
--- a/command/healer/cmd/api.go
+++ b/command/healer/cmd/api.go
@@ -160,8 +160,7 @@ var apiCmd = &cobra.Command{
 		router.POST("/create-acls", wrap(apicontrollers.CreateAcls, client))
 		router.DELETE("/delete-acls", wrap(apicontrollers.DeleteAcls, client))
 
-		router.Run(fullAddress)
-		return nil
+		return router.Run(fullAddress)
 	},
 }
 
-- 
2.43.0


From 2e56ee8abc2b9dc7e2fca7918125df4689faef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:10 +0000
Subject: [PATCH 73/83] fix: stop the REST calls after a failed step

---
 command/healer/cmd/apicontrollers/describe-logdirs.go        | 2 ++
 command/healer/cmd/apicontrollers/partition-reassignments.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..a675717 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,6 +24,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	clientReq := struct {
@@ -37,6 +38,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..cdada7e 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -47,6 +47,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
-- 
2.43.0


From dc41a0ee642778aa801d1c931dac605da149e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 74/83] fix: get-pending ends with an error if a group could
 not be listed

---
 command/healer/cmd/get-pending.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index d3b1093..9424980 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -266,11 +266,14 @@ var getPendingCmd = &cobra.Command{
 
 		groupIDs := getGroups(groupID)
 
+		// the other groups are still listed if one fails
+		var failed error
 		for i, groupID := range groupIDs {
 			klog.V(5).Infof("%d/%d %s", i, len(groupIDs), groupID)
 			subscriptions, err := getSubscriptionsInGroup(groupID, client)
 			if err != nil {
 				klog.Errorf("failed to get subscriptions of %s: %s", groupID, err)
+				failed = err
 				continue
 			}
 			klog.V(5).Infof("%d topics: %v", len(subscriptions), subscriptions)
@@ -278,16 +281,18 @@ var getPendingCmd = &cobra.Command{
 			if topic != "" {
 				if err = getPending(groupID, topic, client, header, total, nil); err != nil {
 					klog.Errorf("get pending of %s/%s error: %s", groupID, topic, err)
+					failed = err
 				}
 			} else {
 				for topicName, v := range subscriptions {
 					if err = getPending(groupID, topicName, client, header, total, v); err != nil {
 						klog.Errorf("get pending of %s/%s error: %s", groupID, topicName, err)
+						failed = err
 					}
 				}
 			}
 		}
-		return nil
+		return failed
 	},
 }
 
-- 
2.43.0


From 16769409d936d78db425031ca75665494e1b2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 75/83] fix: a closed Producer accepts no more messages and is
 not revived by its refresh

---
 producer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/producer.go b/producer.go
index 1fb8ec5..5980a75 100644
--- a/producer.go
+++ b/producer.go
@@ -25,6 +25,7 @@ type Producer struct {
 	pidToSimpleProducers map[int32]*SimpleProducer
 	leaderBrokersMapping map[int32]*Broker
 	currentProducer      *SimpleProducer
+	closed               bool
 	lock                 sync.Mutex
 
 	ctx context.Context
@@ -69,6 +70,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	go func() {
 		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
 			err := p.updateCurrentSimpleProducer()
+			if err == ErrProducerClosed {
+				return
+			}
 			if err != nil {
 				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
 			}
@@ -109,6 +113,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
 	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
@@ -140,6 +148,9 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	if key == nil {
 		return p.currentProducer, nil
 	}
@@ -195,6 +206,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 func (p *Producer) Close() {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.closed = true
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
-- 
2.43.0


From 9a11b7a68ec0f4a067e207bbfa404c7c96c1cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:17 +0000
Subject: [PATCH 76/83] fix: closing a group consumer while it starts its
 partition consumers

---
 group_consumer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index 301ca14..ca0c34e 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -364,7 +364,9 @@ func (c *GroupConsumer) restart() {
 
 	c.stop()
 	// stop heartbeat
+	c.mutex.Lock()
 	c.joined = false
+	c.mutex.Unlock()
 	c.consumeWithoutHeartBeat(c.config.FromBeginning)
 
 }
@@ -377,6 +379,10 @@ func (c *GroupConsumer) stop() {
 	if c.simpleConsumers != nil {
 		for _, simpleConsumer := range c.simpleConsumers {
 			logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
+			if !c.joined {
+				// not started yet, so c.wg does not count it
+				simpleConsumer.wg = nil
+			}
 			simpleConsumer.Stop()
 		}
 	}
@@ -411,7 +417,9 @@ func (c *GroupConsumer) Close() {
 func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	defer c.brokers.Close()
 
+	c.mutex.Lock()
 	c.closed = true
+	c.mutex.Unlock()
 	c.closeChan <- true
 
 	c.stop()
@@ -519,6 +527,10 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 		return c.messages, nil
 	case <-joinedChan:
 	}
+
+	// either the consumers are started before AwaitClose stops them, or not at all
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if c.closed {
 		return c.messages, nil
 	}
-- 
2.43.0


From 5ef6685166ba4ca4b8960713fe41efad9b184589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 77/83] fix: refreshing the metadata also refreshes the
 controller

---
 brokers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brokers.go b/brokers.go
index 6cab158..64d1e97 100644
--- a/brokers.go
+++ b/brokers.go
@@ -134,6 +134,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -161,6 +162,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-- 
2.43.0


From 0f50c872d91906b4867b61135da759936a2b9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:02 +0000
Subject: [PATCH 78/83] fix: consumer configs no longer share their per-API
 timeouts

---
 config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..d4ac5c6 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,8 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
-	}
+	// always a new slice: the present one may be shared with other configs
+	c.Net.TimeoutMSForEachAPI = make([]int, 68)
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
-- 
2.43.0


From c082aea90f39ea82039755d6ed9c0ea1a7700bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:09 +0000
Subject: [PATCH 79/83] fix: a producer without config is rejected like any
 invalid config

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index d4ac5c6..86be825 100644
--- a/config.go
+++ b/config.go
@@ -264,7 +264,7 @@ func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 
 	switch v := config.(type) {
 	case nil:
-		return defaultProducerConfig, nil
+		c = defaultProducerConfig
 	case map[string]interface{}:
 		c = defaultProducerConfig
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
-- 
2.43.0


From 6b9478ade5ef45802bf35ad48dab1abe7baa038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:17 +0000
Subject: [PATCH 80/83] fix: an invalid offsets.storage is rejected by every
 consumer

---
 config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 86be825..7fa558b 100644
--- a/config.go
+++ b/config.go
@@ -161,10 +161,13 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
-		return config, nil
+		c = config
 	default:
 		return c, fmt.Errorf("consumer only accept config from map[string]interface{} or ConsumerConfig")
 	}
+	if c.OffsetsStorage != 0 && c.OffsetsStorage != 1 {
+		return c, errInvallidOffsetsStorageConfig
+	}
 	return c, err
 }
 
-- 
2.43.0


From 1d5bc8b815b29441ddf60809d071154165f2bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 81/83] fix: an unsupported SASL mechanism is an error

---
 broker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broker.go b/broker.go
index 0619200..94a8b23 100644
--- a/broker.go
+++ b/broker.go
@@ -179,6 +179,9 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
 	resp, err = broker.exchange(saslAuthenticateRequest)
 	if err != nil {
 		return err
-- 
2.43.0


From 43915259df9f572017556077f1d2ef16cb1c6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 82/83] fix: a record header without value is decoded

---
 record.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/record.go b/record.go
index a2ea8a5..109b606 100644
--- a/record.go
+++ b/record.go
@@ -23,8 +23,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 { // -1: null
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
-- 
2.43.0


From 2e821b561d02ba4641429dee781fa743fa142f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:35 +0000
Subject: [PATCH 83/83] fix: an empty key or value is not taken for null

---
 record.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/record.go b/record.go
index 109b606..942b61d 100644
--- a/record.go
+++ b/record.go
@@ -158,14 +158,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 { // -1: null
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 { // -1: null
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0

