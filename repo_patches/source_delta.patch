From 0fc5f2ac6b29dbf0c7b6c9862230bd52b3e0824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 01/32] fix: remember the message-id of the message a
 subscription holds

Subscription.msgId was never set, so an ACK in client-individual mode (and
any NACK) matched nothing and an ACK in client mode matched everything.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..91315d4 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -413,6 +413,11 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 		f.Header.Set(frame.MessageId, messageId)
 		f.Header.Set(frame.Id, messageId)
 
+		// remember it, so that an ACK or NACK frame can be matched
+		if sub != nil {
+			sub.msgId = c.lastMsgId
+		}
+
 		// if there is any requirement by the client to acknowledge, set
 		// the ack header as per STOMP 1.2
 		if sub == nil || sub.ack == frame.AckAuto {
-- 
2.43.0


From fb2663eb6da1757232074f7fdf61177a96a18af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 02/32] fix: a subscription removed from a list by ACK, NACK or
 id can be added again

SubscriptionList.Ack, Nack and FindByIdAndRemove left Subscription.subList
set, so the next Add (by the queue) panicked and took the server down.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 798950ba9ad28fd2dd4810bdc6bd2bd9b160b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 03/32] fix: accept the id header of a STOMP 1.2 ACK or NACK
 frame

Only the ack and message-id headers were looked at, so an ACK frame as STOMP
1.2 defines it was rejected and the client disconnected.
---
 server/client/conn.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 91315d4..7f11171 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -661,18 +661,31 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
-func (c *Conn) handleAck(f *frame.Frame) error {
-	var err error
+// Determine which message an ACK or NACK frame refers to. STOMP 1.2 uses the
+// id header, earlier versions the message-id header.
+func (c *Conn) ackMessageId(f *frame.Frame) (uint64, error) {
 	var msgId string
+	var ok bool
 
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
+	if c.version == stomp.V12 {
+		msgId, ok = f.Header.Contains(frame.Id)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.Ack)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.MessageId)
+	}
+	if !ok {
+		return 0, missingHeader(frame.MessageId)
 	}
 
 	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	return strconv.ParseUint(msgId, 10, 64)
+}
+
+func (c *Conn) handleAck(f *frame.Frame) error {
+	msgId64, err := c.ackMessageId(f)
 	if err != nil {
 		return err
 	}
@@ -705,17 +718,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
-	}
-
-	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	msgId64, err := c.ackMessageId(f)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3c51edcbead2300a56dd2694164799c149fa0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 04/32] fix: do not revive a subscription that has been
 unsubscribed

An ACK or NACK that follows the UNSUBSCRIBE handed the subscription back to
the queue, which then gave it messages: they were lost once the connection
was closed, or delivered to a newer subscription with the same id.
---
 server/client/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7f11171..b246409 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -279,8 +279,8 @@ func (c *Conn) processLoop() {
 
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
-			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			// this, so we check (its id could be in use again)
+			if c.subs[sub.id] == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -710,13 +710,22 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.subscriptionReady(s)
 		})
 	}
 
 	return nil
 }
 
+// Let the upper layer know that a subscription is ready for another frame,
+// unless it has been unsubscribed: the client can acknowledge a message after
+// that, and the upper layer must not get the subscription back.
+func (c *Conn) subscriptionReady(s *Subscription) {
+	if c.subs[s.id] == s {
+		c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+	}
+}
+
 func (c *Conn) handleNack(f *frame.Frame) error {
 	msgId64, err := c.ackMessageId(f)
 	if err != nil {
@@ -746,7 +755,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.subscriptionReady(s)
 		})
 	}
 	return nil
-- 
2.43.0


From 9577370a91dbcf57b34bb4dbb452e86d9fc825f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 05/32] fix: an ACK does not acknowledge the messages of other
 subscriptions

An ACK in client mode acknowledged the earlier messages of every other
client mode subscription of the connection, which were lost if the client had
not processed them.
---
 server/client/conn.go              |  8 +++++---
 server/client/subscription_list.go | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index b246409..710822e 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -703,15 +703,17 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Ack(msgId64, func(s *Subscription) {
+		// Acknowledgement can be cumulative within a subscription, but it
+		// never extends to other subscriptions. A subscription has no more
+		// than one unacknowledged message, so only this one is acknowledged.
+		if s := c.subList.FindByMsgIdAndRemove(msgId64); s != nil {
 			// remove frame from the subscription, it has been delivered
 			s.frame = nil
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
 			c.subscriptionReady(s)
-		})
+		}
 	}
 
 	return nil
diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 2e5942a..dc270d2 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -66,6 +66,20 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 	return nil
 }
 
+// Search for the subscription that holds the message with the specified
+// message-id and remove it. Returns nil if there is none.
+func (sl *SubscriptionList) FindByMsgIdAndRemove(msgId uint64) *Subscription {
+	for e := sl.subs.Front(); e != nil; e = e.Next() {
+		sub := e.Value.(*Subscription)
+		if sub.msgId == msgId {
+			sl.subs.Remove(e)
+			sub.subList = nil
+			return sub
+		}
+	}
+	return nil
+}
+
 // Finds all subscriptions in the subscription list that are acked by the
 // specified message-id (or ack) header. The subscription is removed from
 // the list and the callback function called for that subscription.
-- 
2.43.0


From b82cdeff3d810402c1c8aaf4a810591f5e58bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 06/32] fix: a SEND frame without a destination does not crash
 the server

The request processor panics on a message without a destination header and
assumes that the connection has checked it, which it did not.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 710822e..c1c7548 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -767,6 +767,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// the upper layer relies on the destination header being present
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 5669fc34fbe8cb705a03e1b4b2c03edb69eaf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 07/32] fix: reject a SUBSCRIBE frame with an unknown ack mode

Subscription.IsAckedBy panics for any ack mode but the three known ones and
assumes that nothing else gets that far, which nothing ensured.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index c1c7548..769719d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -629,6 +629,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From 3dee8e296169a652ea2ca4102a29150c87929be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 08/32] fix: answer every processed frame that asks for it with
 a RECEIPT

SUBSCRIBE and UNSUBSCRIBE frames never got one. The others got it before they
were processed, so that a frame that failed got both a RECEIPT and an ERROR
(without receipt-id).
---
 server/client/conn.go | 84 +++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 769719d..7b31691 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -542,6 +542,15 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 // a receipt header. If the frame does contain a receipt header,
 // it will be removed from the frame.
 func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
+	if receipt := takeReceipt(f); receipt != nil {
+		return c.sendImmediately(receipt)
+	}
+	return nil
+}
+
+// Returns the RECEIPT frame that frame f asks for, nil if it does not
+// contain a receipt header. The receipt header is removed from f.
+func takeReceipt(f *frame.Frame) *frame.Frame {
 	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
 		// Remove the receipt header from the frame. This is handy
 		// for transactions, because the frame has its receipt
@@ -549,8 +558,8 @@ func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
 		// When the frame is processed upon transaction commit, it
 		// will not have a receipt header anymore.
 		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
+		return frame.New(frame.RECEIPT,
+			frame.ReceiptId, receipt)
 	}
 	return nil
 }
@@ -569,13 +578,11 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Begin(transaction)
 		if err != nil {
 			return err
 		}
-
-		return c.txStore.Begin(transaction)
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -584,17 +591,16 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
+		err := c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
 			// header (and its receipt header as well, if it had one).
 			return c.stateFunc(c, f)
 		})
+		if err != nil {
+			return err
+		}
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -603,12 +609,11 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Abort(transaction)
 		if err != nil {
 			return err
 		}
-		return c.txStore.Abort(transaction)
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -645,7 +650,7 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 
 	// send information about new subscription to upper layer
 	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
-	return nil
+	return c.sendReceiptImmediately(f)
 }
 
 func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
@@ -664,7 +669,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 
 	// tell the upper layer of the unsubscribe
 	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
-	return nil
+	return c.sendReceiptImmediately(f)
 }
 
 // Determine which message an ACK or NACK frame refers to. STOMP 1.2 uses the
@@ -696,12 +701,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -722,7 +721,8 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		}
 	}
 
-	return nil
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 // Let the upper layer know that a subscription is ready for another frame,
@@ -740,12 +740,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -766,7 +760,8 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			c.subscriptionReady(s)
 		})
 	}
-	return nil
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 // Handle a SEND frame received from the client. Note that
@@ -778,24 +773,27 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
-	} else {
-		// not in a transaction
-		// change from SEND to MESSAGE
-		f.Command = frame.MESSAGE
-		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 
+	// not in a transaction
+	// remove the receipt header before the upper layer gets the frame
+	receipt := takeReceipt(f)
+
+	// change from SEND to MESSAGE
+	f.Command = frame.MESSAGE
+	c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+
+	if receipt != nil {
+		return c.sendImmediately(receipt)
+	}
 	return nil
 }
-- 
2.43.0


From 7f7df6be1cd84b4c09ed2764a7f0d7ad9cb96d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 09/32] fix: requeue a message that could not be written to the
 client

When the write failed the message was in no list any more and got lost.
---
 server/client/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7b31691..40043e0 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -291,7 +291,9 @@ func (c *Conn) processLoop() {
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-					// so just exit go-routine (after cleaning up)
+					// so just exit go-routine (after cleaning up,
+					// which requeues the frame)
+					c.subList.Add(sub)
 					return
 				}
 
-- 
2.43.0


From 11361f6e9ac2ca6e34bf262b22464d03ff13a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 10/32] fix: the read go-routine of a server connection always
 ends

It stayed blocked on the read channel when the processing go-routine ended
with more than maxPendingReads frames still to come.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 40043e0..b50c99c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -369,6 +369,11 @@ func (c *Conn) cleanupConn() {
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
+
+	// The read go-routine could be blocked on the read channel, receive
+	// from it until it is closed.
+	for range c.readChannel {
+	}
 }
 
 // Discard anything on the write channel. These frames
-- 
2.43.0


From bf9f9b8121d6f03f3f2b6325938f7b0a5d0d55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 11/32] fix: the request processor and a connection no longer
 wait for each other

A connection that sends a request blocks while the request channel is full,
and the processor blocks while the connection's write or subscription channel
is full. With both full, e.g. after the COMMIT of a transaction with 150
messages for a topic the client itself subscribes to, the server stopped
serving all clients.
---
 server/client/conn.go | 71 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index b50c99c..8c1a5ab 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -30,6 +30,8 @@ type Conn struct {
 	subChannel     chan *Subscription                  // Receives subscription messages for client
 	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
+	pendingSubs    []*Subscription                     // Received from subChannel, not processed yet
+	pendingWrites  []*frame.Frame                      // Received from writeChannel, not processed yet
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
 	version        stomp.Version                       // Negotiated STOMP protocol version
@@ -198,13 +200,27 @@ func (c *Conn) processLoop() {
 			timerChannel = timer.C
 		}
 
+		// frames that were set aside come first
+		writeChannel, subChannel := c.writeChannel, c.subChannel
+		if len(c.pendingWrites) > 0 {
+			writeChannel = make(chan *frame.Frame, 1)
+			writeChannel <- c.pendingWrites[0]
+		}
+		if len(c.pendingSubs) > 0 {
+			subChannel = make(chan *Subscription, 1)
+			subChannel <- c.pendingSubs[0]
+		}
+
 		select {
-		case f, ok := <-c.writeChannel:
+		case f, ok := <-writeChannel:
 			if !ok {
 				// write channel has been closed, so
 				// exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.pendingWrites) > 0 {
+				c.pendingWrites = c.pendingWrites[1:]
+			}
 
 			// have a frame to the client with
 			// no acknowledgement required (topic)
@@ -261,12 +277,15 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-		case sub, ok := <-c.subChannel:
+		case sub, ok := <-subChannel:
 			if !ok {
 				// subscription channel has been closed,
 				// so exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.pendingSubs) > 0 {
+				c.pendingSubs = c.pendingSubs[1:]
+			}
 
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
@@ -302,14 +321,14 @@ func (c *Conn) processLoop() {
 					// so send the subscription back the upper layer
 					// straight away
 					sub.frame = nil
-					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+					c.request(Request{Op: SubscribeOp, Sub: sub})
 				} else {
 					// subscription requires acknowledgement
 					c.subList.Add(sub)
 				}
 			} else {
 				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.request(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		case _ = <-timerChannel:
@@ -327,6 +346,24 @@ func (c *Conn) processLoop() {
 	}
 }
 
+// Sends a request to the upper layer. The upper layer could be waiting to
+// hand over a frame to this connection because writeChannel or subChannel is
+// full, so receive from them until it accepts the request: otherwise each
+// would wait for the other forever. What is received is set aside for
+// processLoop.
+func (c *Conn) request(r Request) {
+	for {
+		select {
+		case c.requestChannel <- r:
+			return
+		case f := <-c.writeChannel:
+			c.pendingWrites = append(c.pendingWrites, f)
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		}
+	}
+}
+
 // Called when the connection is closing, and takes care of
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
@@ -344,7 +381,7 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	}
 
 	// Clear out the map of subscriptions
@@ -353,7 +390,7 @@ func (c *Conn) cleanupConn() {
 	// Every subscription requiring acknowledgement has a frame
 	// that needs to be requeued in the upper layer
 	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
 	}
 
 	// empty the subscription and write queue
@@ -361,7 +398,7 @@ func (c *Conn) cleanupConn() {
 	c.cleanupSubChannel()
 
 	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	c.request(Request{Op: DisconnectedOp, Conn: c})
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
@@ -380,6 +417,7 @@ func (c *Conn) cleanupConn() {
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
 func (c *Conn) discardWriteChannelFrames() {
+	c.pendingWrites = nil
 	for finished := false; !finished; {
 		select {
 		case _, ok := <-c.writeChannel:
@@ -396,13 +434,18 @@ func (c *Conn) discardWriteChannelFrames() {
 func (c *Conn) cleanupSubChannel() {
 	// Read the subscription channel until it is empty.
 	// Each frame should be requeued to the upper layer.
+	for len(c.pendingSubs) > 0 {
+		sub := c.pendingSubs[0]
+		c.pendingSubs = c.pendingSubs[1:]
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
+	}
 	for finished := false; !finished; {
 		select {
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				finished = true
 			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.request(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		default:
@@ -540,7 +583,7 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-	c.requestChannel <- Request{Op: ConnectedOp, Conn: c}
+	c.request(Request{Op: ConnectedOp, Conn: c})
 
 	return nil
 }
@@ -656,7 +699,7 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 	c.subs[id] = sub
 
 	// send information about new subscription to upper layer
-	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+	c.request(Request{Op: SubscribeOp, Sub: sub})
 	return c.sendReceiptImmediately(f)
 }
 
@@ -675,7 +718,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	delete(c.subs, id)
 
 	// tell the upper layer of the unsubscribe
-	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+	c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	return c.sendReceiptImmediately(f)
 }
 
@@ -737,7 +780,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 // that, and the upper layer must not get the subscription back.
 func (c *Conn) subscriptionReady(s *Subscription) {
 	if c.subs[s.id] == s {
-		c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+		c.request(Request{Op: SubscribeOp, Sub: s})
 	}
 }
 
@@ -757,7 +800,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		// handle any subscriptions that are acknowledged by this msg
 		c.subList.Nack(msgId64, func(s *Subscription) {
 			// send frame back to upper layer for requeue
-			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
+			c.request(Request{Op: RequeueOp, Frame: s.frame})
 
 			// remove frame from the subscription, it has been requeued
 			s.frame = nil
@@ -797,7 +840,7 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 
 	// change from SEND to MESSAGE
 	f.Command = frame.MESSAGE
-	c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+	c.request(Request{Op: EnqueueOp, Frame: f})
 
 	if receipt != nil {
 		return c.sendImmediately(receipt)
-- 
2.43.0


From 814835894c157f6edfa4870c86d511da6776c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 12/32] fix: a message handed over to a connection that is
 being closed is not lost

The connection emptied its subscription channel without waiting for the
processor to process the UnsubscribeOp requests. A message that the processor
allocated to one of its subscriptions after that stayed in the channel.
---
 server/client/conn.go | 29 ++++++++++++++++++++++-------
 server/processor.go   |  3 +++
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 8c1a5ab..2179aa9 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -42,6 +42,7 @@ type Conn struct {
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	validator      stomp.Validator                     // For validating STOMP frames
 	log            stomp.Logger
+	released       chan struct{} // Closed when the upper layer no longer hands over frames
 }
 
 // Creates a new client connection. The config parameter contains
@@ -61,6 +62,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
 		log:            config.Logger(),
+		released:       make(chan struct{}),
 	}
 	go c.readLoop()
 	go c.processLoop()
@@ -371,8 +373,6 @@ func (c *Conn) cleanupConn() {
 	// clean up any pending transactions
 	c.txStore.Init()
 
-	c.discardWriteChannelFrames()
-
 	// Unsubscribe every subscription known to the upper layer.
 	// This should be done before cleaning up the subscription
 	// channel. If we requeued messages before doing this,
@@ -393,14 +393,22 @@ func (c *Conn) cleanupConn() {
 		c.request(Request{Op: RequeueOp, Frame: sub.frame})
 	}
 
-	// empty the subscription and write queue
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
-
 	// Tell the upper layer we are now disconnected
 	c.request(Request{Op: DisconnectedOp, Conn: c})
 
-	// empty the subscription and write queue one more time
+	// The upper layer can hand over frames until it has processed
+	// these requests, so receive frames until it says that it has.
+	for waiting := true; waiting; {
+		select {
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		case <-c.released:
+			waiting = false
+		}
+	}
+
+	// empty the subscription and write queue
 	c.discardWriteChannelFrames()
 	c.cleanupSubChannel()
 
@@ -413,6 +421,13 @@ func (c *Conn) cleanupConn() {
 	}
 }
 
+// Released is called by the upper layer when it has processed the
+// DisconnectedOp request of this connection. It must not hand over
+// any frames to the connection after that.
+func (c *Conn) Released() {
+	close(c.released)
+}
+
 // Discard anything on the write channel. These frames
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
diff --git a/server/processor.go b/server/processor.go
index 291845a..337c261 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -89,6 +89,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			r.Conn.Released()
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 6bf3d8093c757ec8ccedeec8efc2140244925a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 13/32] fix: no messages are delivered to a client after its
 DISCONNECT frame

The subscriptions stayed active until the connection was closed. A message
for an ack:auto subscription that was delivered in between was lost, because
the client no longer processes it.
---
 server/client/conn.go | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 2179aa9..7cc800c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -373,25 +373,7 @@ func (c *Conn) cleanupConn() {
 	// clean up any pending transactions
 	c.txStore.Init()
 
-	// Unsubscribe every subscription known to the upper layer.
-	// This should be done before cleaning up the subscription
-	// channel. If we requeued messages before doing this,
-	// we might end up getting them back again.
-	for _, sub := range c.subs {
-		// Note that we only really need to send a request if the
-		// subscription does not have a frame, but for simplicity
-		// all subscriptions are unsubscribed from the upper layer.
-		c.request(Request{Op: UnsubscribeOp, Sub: sub})
-	}
-
-	// Clear out the map of subscriptions
-	c.subs = nil
-
-	// Every subscription requiring acknowledgement has a frame
-	// that needs to be requeued in the upper layer
-	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.request(Request{Op: RequeueOp, Frame: sub.frame})
-	}
+	c.releaseSubscriptions()
 
 	// Tell the upper layer we are now disconnected
 	c.request(Request{Op: DisconnectedOp, Conn: c})
@@ -421,6 +403,30 @@ func (c *Conn) cleanupConn() {
 	}
 }
 
+// Unsubscribes all subscriptions with the upper layer, and re-queues all
+// unacknowledged messages.
+func (c *Conn) releaseSubscriptions() {
+	// Unsubscribe every subscription known to the upper layer.
+	// This should be done before cleaning up the subscription
+	// channel. If we requeued messages before doing this,
+	// we might end up getting them back again.
+	for _, sub := range c.subs {
+		// Note that we only really need to send a request if the
+		// subscription does not have a frame, but for simplicity
+		// all subscriptions are unsubscribed from the upper layer.
+		c.request(Request{Op: UnsubscribeOp, Sub: sub})
+	}
+
+	// Clear out the map of subscriptions
+	c.subs = make(map[string]*Subscription)
+
+	// Every subscription requiring acknowledgement has a frame
+	// that needs to be requeued in the upper layer
+	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
+	}
+}
+
 // Released is called by the upper layer when it has processed the
 // DisconnectedOp request of this connection. It must not hand over
 // any frames to the connection after that.
@@ -532,6 +538,12 @@ func connected(c *Conn, f *frame.Frame) error {
 	return unknownCommand
 }
 
+// State function for after disconnect frame received. The client must not send
+// any more frames, and is about to close the connection.
+func disconnecting(c *Conn, f *frame.Frame) error {
+	return nil
+}
+
 func (c *Conn) handleConnect(f *frame.Frame) error {
 	var err error
 
@@ -633,6 +645,9 @@ func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
+	c.releaseSubscriptions()
+	c.stateFunc = disconnecting
+
 	// Ignore the error condition if we cannot send a RECEIPT frame,
 	// as the connection is about to close anyway.
 	_ = c.sendReceiptImmediately(f)
-- 
2.43.0


From 2551b51168ca053c6adb4fa73573b3525d9687f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 14/32] fix: start the queue storage

QueueStorage.Start is documented to be called at server startup, and never was.
---
 server/processor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/processor.go b/server/processor.go
index 337c261..845b8ad 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -27,11 +27,12 @@ func newRequestProcessor(server *Server) *requestProcessor {
 		tm:     topic.NewManager(),
 	}
 
+	var storage queue.Storage = server.QueueStorage
 	if server.QueueStorage == nil {
-		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
-	} else {
-		proc.qm = queue.NewManager(server.QueueStorage)
+		storage = queue.NewMemoryQueueStorage()
 	}
+	storage.Start()
+	proc.qm = queue.NewManager(storage)
 
 	return proc
 }
-- 
2.43.0


From 63d4adf9cec587274df1208e77a4fad360efe48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 15/32] fix: any data from a client restarts its heart-beat
 timeout

The read deadline covered a whole frame, so a client that needed longer than
the timeout to send one frame was disconnected although it was not silent.
---
 server/client/conn.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7cc800c..f54b48f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -113,22 +113,34 @@ func (c *Conn) sendImmediately(f *frame.Frame) error {
 	return c.writer.Write(f)
 }
 
+// Reads from a network connection with a deadline that starts again with
+// every read: any data from the client shows that it is alive, not only
+// complete frames.
+type timeoutReader struct {
+	rw          net.Conn
+	readTimeout time.Duration // expected heart-beat period, zero for none
+}
+
+func (r *timeoutReader) Read(p []byte) (int, error) {
+	if r.readTimeout == time.Duration(0) {
+		// infinite timeout
+		r.rw.SetReadDeadline(time.Time{})
+	} else {
+		r.rw.SetReadDeadline(time.Now().Add(r.readTimeout * 2))
+	}
+	return r.rw.Read(p)
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
 // processLoop go-routine. This keeps all processing of frames for
 // this connection on the one go-routine and avoids race conditions.
 func (c *Conn) readLoop() {
-	reader := frame.NewReader(c.rw)
+	rw := &timeoutReader{rw: c.rw}
+	reader := frame.NewReader(rw)
 	expectingConnect := true
-	readTimeout := time.Duration(0)
 	for {
-		if readTimeout == time.Duration(0) {
-			// infinite timeout
-			c.rw.SetReadDeadline(time.Time{})
-		} else {
-			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
-		}
 		f, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
@@ -173,7 +185,7 @@ func (c *Conn) readLoop() {
 					cx = min
 				}
 
-				readTimeout = time.Duration(cx) * time.Millisecond
+				rw.readTimeout = time.Duration(cx) * time.Millisecond
 
 				expectingConnect = false
 			}
-- 
2.43.0


From 73221789c7189c7f81b4b4fd6ed14ef8e0969052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 16/32] fix: the write buffer has the size of the
 WriteBufferSize option

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 94c3108..4dabb6d 100644
--- a/conn.go
+++ b/conn.go
@@ -118,7 +118,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	}
 
 	if options.WriteBufferSize > 0 {
-		writer = frame.NewWriterSize(conn, options.ReadBufferSize)
+		writer = frame.NewWriterSize(conn, options.WriteBufferSize)
 	}
 
 	readChannelCapacity := 20
-- 
2.43.0


From 8b37a42938fdb2d8ae5b4ebaeb3127ba98c939d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:05 +0000
Subject: [PATCH 17/32] fix: no read timeout when one side wants no heart-beats

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4dabb6d..b99453a 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,11 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		if readTimeout == 0 || options.ReadTimeout < time.Millisecond {
+			// the server does not send heart-beats, or we do not
+			// want to receive them
+			readTimeout = 0
+		} else if readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
 
-- 
2.43.0


From b7b77b15d4f1473df7d324bb7097b8a0bc722d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 18/32] fix: any data from the server restarts the read timeout

---
 conn.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index b99453a..a3f4bae 100644
--- a/conn.go
+++ b/conn.go
@@ -38,6 +38,7 @@ type Conn struct {
 	conn                      io.ReadWriteCloser
 	readCh                    chan *frame.Frame
 	writeCh                   chan writeRequest
+	activity                  chan struct{} // signals that data has been read
 	version                   Version
 	session                   string
 	server                    string
@@ -98,14 +99,16 @@ func Connect(conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error)
 }
 
 func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error) {
-	reader := frame.NewReader(conn)
-	writer := frame.NewWriter(conn)
-
 	c := &Conn{
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
+		activity:   make(chan struct{}, 1),
 	}
 
+	input := activityReader{Reader: conn, ch: c.activity}
+	reader := frame.NewReader(input)
+	writer := frame.NewWriter(conn)
+
 	options, err := newConnOptions(c, opts)
 	if err != nil {
 		return nil, err
@@ -114,7 +117,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c.log = options.Logger
 
 	if options.ReadBufferSize > 0 {
-		reader = frame.NewReaderSize(conn, options.ReadBufferSize)
+		reader = frame.NewReaderSize(input, options.ReadBufferSize)
 	}
 
 	if options.WriteBufferSize > 0 {
@@ -288,6 +291,24 @@ func (c *Conn) Stats() ConnectionStats {
 	}
 }
 
+// activityReader signals on a channel (with capacity one) that data has
+// been read.
+type activityReader struct {
+	io.Reader
+	ch chan struct{}
+}
+
+func (r activityReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	if n > 0 {
+		select {
+		case r.ch <- struct{}{}:
+		default:
+		}
+	}
+	return n, err
+}
+
 // readLoop is a goroutine that reads frames from the
 // reader and places them onto a channel for processing
 // by the processLoop goroutine
@@ -344,6 +365,15 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimer = nil
 			writeTimeoutChannel = nil
 
+		case <-c.activity:
+			// any data shows that the server is alive, even if it
+			// is not a complete frame yet
+			if readTimer != nil {
+				readTimer.Stop()
+				readTimer = nil
+				readTimeoutChannel = nil
+			}
+
 		case f, ok := <-c.readCh:
 			// stop the read timer
 			if readTimer != nil {
-- 
2.43.0


From 01083eb24fb172db167ffe05e46ef2fcd72f8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 19/32] fix: subscription ids and receipts chosen by the
 program do not collide with allocated ones

---
 conn.go         | 67 ++++++++++++++++++++++++++++++++++++-------------
 subscription.go |  3 +++
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/conn.go b/conn.go
index a3f4bae..d7252f3 100644
--- a/conn.go
+++ b/conn.go
@@ -329,7 +329,27 @@ func readLoop(c *Conn, reader *frame.Reader) {
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
+	// subscriptions by id, requests by receipt, and ids of subscriptions that
+	// are being unsubscribed by receipt. They are kept apart because the calling
+	// program may choose subscription ids that are equal to receipts.
 	channels := make(map[string]chan *frame.Frame)
+	receipts := make(map[string]chan *frame.Frame)
+	unsubscribing := make(map[string]string)
+
+	// setReceipt gives a frame a receipt that no other request waits for,
+	// the suggested one if possible.
+	setReceipt := func(f *frame.Frame, receipt string) string {
+		for {
+			_, ok1 := receipts[receipt]
+			_, ok2 := unsubscribing[receipt]
+			if !ok1 && !ok2 {
+				break
+			}
+			receipt = allocateId()
+		}
+		f.Header.Set(frame.Receipt, receipt)
+		return receipt
+	}
 
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
@@ -352,14 +372,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			sendError(channels, err)
+			sendError(err, channels, receipts)
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(channels, err)
+				sendError(err, channels, receipts)
 				return
 			}
 			writeTimer = nil
@@ -384,7 +404,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				sendError(channels, err)
+				sendError(err, channels, receipts)
 				return
 			}
 
@@ -396,22 +416,31 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			switch f.Command {
 			case frame.RECEIPT:
 				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := channels[id]; ok {
+					if ch, ok := receipts[id]; ok {
 						ch <- f
-						delete(channels, id)
+						delete(receipts, id)
 						close(ch)
+					} else if sub, ok := unsubscribing[id]; ok {
+						delete(unsubscribing, id)
+						if ch, ok := channels[sub]; ok {
+							ch <- f
+							delete(channels, sub)
+							close(ch)
+						}
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, err)
+					sendError(err, channels, receipts)
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range channels {
-					ch <- f
-					close(ch)
+				for _, m := range []map[string]chan *frame.Frame{channels, receipts} {
+					for _, ch := range m {
+						ch <- f
+						close(ch)
+					}
 				}
 
 				c.closeMutex.Lock()
@@ -439,13 +468,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				writeTimeoutChannel = nil
 			}
 			if !ok {
-				sendError(channels, errors.New("write channel closed"))
+				sendError(errors.New("write channel closed"), channels, receipts)
 				return
 			}
-			if req.C != nil {
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
-					channels[receipt] = req.C
+					receipts[setReceipt(req.Frame, receipt)] = req.C
 				}
 			}
 
@@ -478,7 +507,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					// is this trying to be too clever -- add a receipt
 					// header so that when the server responds with a
 					// RECEIPT frame, the corresponding channel will be closed
-					req.Frame.Header.Set(frame.Receipt, id)
+					unsubscribing[setReceipt(req.Frame, id)] = id
 				}
 			}
 
@@ -486,7 +515,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, err)
+					sendError(err, channels, receipts)
 					return
 				}
 			}
@@ -494,11 +523,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
-// Send an error to all receipt channels.
-func sendError(m map[string]chan *frame.Frame, err error) {
+// Send an error to all subscription and receipt channels.
+func sendError(err error, maps ...map[string]chan *frame.Frame) {
 	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, ch := range m {
-		ch <- frame
+	for _, m := range maps {
+		for _, ch := range m {
+			ch <- frame
+		}
 	}
 }
 
diff --git a/subscription.go b/subscription.go
index 8ca54af..3c2efd1 100644
--- a/subscription.go
+++ b/subscription.go
@@ -84,6 +84,9 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
+	// the receipt is chosen when the frame is sent
+	f.Header.Del(frame.Receipt)
+
 	err := s.conn.sendFrame(f)
 	if errors.Is(err, ErrClosedUnexpectedly) {
 		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-- 
2.43.0


From c1b66bd91dd6a8cdda63b05a01f4d73a06d5ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:55 +0000
Subject: [PATCH 20/32] fix: a receipt that comes after its timeout does not
 block the connection

---
 conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index d7252f3..e49e128 100644
--- a/conn.go
+++ b/conn.go
@@ -550,7 +550,7 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	ch := make(chan *frame.Frame, 1) // the receipt may come after the timeout
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -616,7 +616,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1), // the receipt may come after the timeout
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -715,7 +715,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1), // the receipt may come after the timeout
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From 8c9c939b886343f8784175c52d2c33d1728d9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 21/32] fix: Send does not hold the connection while it waits
 for a receipt

---
 conn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index e49e128..90e42b6 100644
--- a/conn.go
+++ b/conn.go
@@ -597,14 +597,15 @@ func (c *Conn) MustDisconnect() error {
 // Any number of options can be specified in opts. See the examples for usage. Options include whether
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
+	f, err := createSendFrame(destination, contentType, body, opts)
+
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
 	if c.closed {
+		c.closeMutex.Unlock()
 		return ErrAlreadyClosed
 	}
-
-	f, err := createSendFrame(destination, contentType, body, opts)
 	if err != nil {
+		c.closeMutex.Unlock()
 		return err
 	}
 
@@ -620,6 +621,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
+		c.closeMutex.Unlock()
 		if err != nil {
 			return err
 		}
@@ -633,6 +635,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		request := writeRequest{Frame: f}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
+		c.closeMutex.Unlock()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ee541c82b70f5a9f5e5871215d60bf488339aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:01 +0000
Subject: [PATCH 22/32] fix: a slow subscription stops the client reading, not
 writing

---
 conn.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 90e42b6..d6ac3ca 100644
--- a/conn.go
+++ b/conn.go
@@ -326,6 +326,12 @@ func readLoop(c *Conn, reader *frame.Reader) {
 	}
 }
 
+// A delivery is a frame on its way to a subscription.
+type delivery struct {
+	ch chan *frame.Frame
+	f  *frame.Frame
+}
+
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
@@ -351,6 +357,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		return receipt
 	}
 
+	// frames that wait for their subscription; nothing is read until they
+	// are delivered, but writing goes on
+	var deliveries []delivery
+
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -359,7 +369,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	defer c.MustDisconnect()
 
 	for {
-		if c.readTimeout > 0 && readTimer == nil {
+		readCh := c.readCh
+		var deliverCh chan *frame.Frame
+		var deliverFrame *frame.Frame
+		if len(deliveries) > 0 {
+			readCh = nil
+			deliverCh, deliverFrame = deliveries[0].ch, deliveries[0].f
+		}
+		if c.readTimeout > 0 && readTimer == nil && readCh != nil {
 			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
 			readTimeoutChannel = readTimer.C
 		}
@@ -394,7 +411,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				readTimeoutChannel = nil
 			}
 
-		case f, ok := <-c.readCh:
+		case deliverCh <- deliverFrame:
+			deliveries = deliveries[1:]
+
+		case f, ok := <-readCh:
 			// stop the read timer
 			if readTimer != nil {
 				readTimer.Stop()
@@ -423,9 +443,8 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					} else if sub, ok := unsubscribing[id]; ok {
 						delete(unsubscribing, id)
 						if ch, ok := channels[sub]; ok {
-							ch <- f
+							deliveries = append(deliveries, delivery{ch, f})
 							delete(channels, sub)
-							close(ch)
 						}
 					}
 				} else {
@@ -453,7 +472,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
 					if ch, ok := channels[id]; ok {
-						ch <- f
+						deliveries = append(deliveries, delivery{ch, f})
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
-- 
2.43.0


From 90c65fef5ba5b3287fd8f62b18b7f8fe74889c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 23/32] fix: when a connection ends everything that waits for
 it is released

---
 conn.go         | 232 +++++++++++++++++++++++-------------------------
 subscription.go |   8 +-
 2 files changed, 119 insertions(+), 121 deletions(-)

diff --git a/conn.go b/conn.go
index d6ac3ca..8b951e6 100644
--- a/conn.go
+++ b/conn.go
@@ -49,8 +49,12 @@ type Conn struct {
 	disconnectReceiptTimeout  time.Duration
 	unsubscribeReceiptTimeout time.Duration
 	hbGracePeriodMultiplier   float64
-	closed                    bool
-	closeMutex                *sync.Mutex
+	closed                    bool          // no more calls are accepted
+	shut                      bool          // the underlying connection is closed
+	closeMutex                *sync.Mutex   // protects closed and shut
+	quit                      chan struct{} // closed to end processLoop
+	done                      chan struct{} // closed when processLoop has ended
+	failure                   *frame.Frame  // why it has ended, set before
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -103,6 +107,8 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
 		activity:   make(chan struct{}, 1),
+		quit:       make(chan struct{}),
+		done:       make(chan struct{}),
 	}
 
 	input := activityReader{Reader: conn, ch: c.activity}
@@ -322,7 +328,11 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+		select {
+		case c.readCh <- f:
+		case <-c.done:
+			return
+		}
 	}
 }
 
@@ -366,7 +376,15 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
+	// when the loop ends, everything that waits for it is released
+	defer func() {
+		close(c.done)
+		c.MustDisconnect()
+	}()
+	fail := func(err error) {
+		c.failure = frame.New(frame.ERROR, frame.Message, err.Error())
+	}
+	writeCh := c.writeCh
 
 	for {
 		readCh := c.readCh
@@ -389,14 +407,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			sendError(err, channels, receipts)
+			fail(err)
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(err, channels, receipts)
+				fail(err)
 				return
 			}
 			writeTimer = nil
@@ -424,7 +442,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				sendError(err, channels, receipts)
+				fail(err)
 				return
 			}
 
@@ -449,24 +467,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(err, channels, receipts)
+					fail(err)
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, m := range []map[string]chan *frame.Frame{channels, receipts} {
-					for _, ch := range m {
-						ch <- f
-						close(ch)
-					}
-				}
-
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
+				c.failure = f
 				return
 
 			case frame.MESSAGE:
@@ -479,17 +486,17 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 			}
 
-		case req, ok := <-c.writeCh:
+		case <-c.quit:
+			fail(newErrorMessage("connection closed"))
+			return
+
+		case req := <-writeCh:
 			// stop the write timeout
 			if writeTimer != nil {
 				writeTimer.Stop()
 				writeTimer = nil
 				writeTimeoutChannel = nil
 			}
-			if !ok {
-				sendError(errors.New("write channel closed"), channels, receipts)
-				return
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -534,20 +541,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(err, channels, receipts)
+					fail(err)
 					return
 				}
 			}
-		}
-	}
-}
-
-// Send an error to all subscription and receipt channels.
-func sendError(err error, maps ...map[string]chan *frame.Frame) {
-	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, m := range maps {
-		for _, ch := range m {
-			ch <- frame
+			if req.Frame.Command == frame.DISCONNECT {
+				// nothing is sent after it
+				writeCh = nil
+			}
 		}
 	}
 }
@@ -560,32 +561,32 @@ func sendError(err error, maps ...map[string]chan *frame.Frame) {
 // to the server will fail.
 func (c *Conn) Disconnect() error {
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
 	if c.closed {
+		c.closeMutex.Unlock()
 		return nil
 	}
+	c.closed = true
+	c.closeMutex.Unlock()
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame, 1) // the receipt may come after the timeout
-	c.writeCh <- writeRequest{
+	request := writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
-		C:     ch,
+		C:     make(chan *frame.Frame, 1), // the receipt may come after the timeout
 	}
-
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
+	err := c.sendRequest(request, c.disconnectReceiptTimeout)
 	if err == nil {
-		c.closed = true
-		return c.conn.Close()
+		err = c.readReceipt(request.C, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
+	} else if err == ErrMsgSendTimeout {
+		err = ErrDisconnectReceiptTimeout
 	}
 
-	if err == ErrDisconnectReceiptTimeout {
-		c.closed = true
-		_ = c.conn.Close()
+	closeErr := c.MustDisconnect()
+	if err == nil {
+		err = closeErr
 	}
-
 	return err
 }
 
@@ -594,18 +595,25 @@ func (c *Conn) Disconnect() error {
 // network errors that prevent to do a proper disconnect from the server.
 func (c *Conn) MustDisconnect() error {
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
+	if c.shut {
+		c.closeMutex.Unlock()
 		return nil
 	}
-
-	// just close writeCh
-	close(c.writeCh)
-
 	c.closed = true
+	c.shut = true
+	close(c.quit)
+	c.closeMutex.Unlock()
+
 	return c.conn.Close()
 }
 
+// isClosed returns whether no more calls are accepted.
+func (c *Conn) isClosed() bool {
+	c.closeMutex.Lock()
+	defer c.closeMutex.Unlock()
+	return c.closed
+}
+
 // Send sends a message to the STOMP server, which in turn sends the message to the specified destination.
 // If the STOMP server fails to receive the message for any reason, the connection will close.
 //
@@ -618,13 +626,10 @@ func (c *Conn) MustDisconnect() error {
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
 	f, err := createSendFrame(destination, contentType, body, opts)
 
-	c.closeMutex.Lock()
-	if c.closed {
-		c.closeMutex.Unlock()
+	if c.isClosed() {
 		return ErrAlreadyClosed
 	}
 	if err != nil {
-		c.closeMutex.Unlock()
 		return err
 	}
 
@@ -639,13 +644,12 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 			C:     make(chan *frame.Frame, 1), // the receipt may come after the timeout
 		}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		c.closeMutex.Unlock()
+		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
 			return err
 		}
 
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
+		err = c.readReceipt(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
 		if err != nil {
 			return err
 		}
@@ -653,8 +657,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// no receipt required
 		request := writeRequest{Frame: f}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		c.closeMutex.Unlock()
+		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
 			return err
 		}
@@ -664,35 +667,58 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
+	return waitForReceipt(responseChan, nil, nil, timeout, timeoutErr)
+}
+
+// readReceipt waits for the response to a request, and for the end of the
+// connection.
+func (c *Conn) readReceipt(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
+	return waitForReceipt(responseChan, c.done, &c.failure, timeout, timeoutErr)
+}
+
+func waitForReceipt(responseChan chan *frame.Frame, done <-chan struct{}, failure **frame.Frame, timeout time.Duration, timeoutErr error) error {
 	var timeoutChan <-chan time.Time
 	if timeout > 0 {
-		timeoutChan = time.After(timeout)
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
 
+	var response *frame.Frame
 	select {
 	case <-timeoutChan:
 		return timeoutErr
-	case response := <-responseChan:
-		if response.Command != frame.RECEIPT {
-			return newError(response)
+	case response = <-responseChan:
+	case <-done:
+		// the response may have come just before
+		select {
+		case response = <-responseChan:
+		default:
+			response = *failure
 		}
-		return nil
 	}
+	if response.Command != frame.RECEIPT {
+		return newError(response)
+	}
+	return nil
 }
 
-func sendDataToWriteChWithTimeout(ch chan writeRequest, request writeRequest, timeout time.Duration) error {
-	if timeout <= 0 {
-		ch <- request
-		return nil
+// sendRequest hands a request over to processLoop.
+func (c *Conn) sendRequest(request writeRequest, timeout time.Duration) error {
+	var timeoutChan <-chan time.Time
+	if timeout > 0 {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
 
-	timer := time.NewTimer(timeout)
 	select {
-	case <-timer.C:
+	case <-timeoutChan:
 		return ErrMsgSendTimeout
-	case ch <- request:
-		timer.Stop()
+	case c.writeCh <- request:
 		return nil
+	case <-c.done:
+		return ErrClosedUnexpectedly
 	}
 }
 
@@ -719,13 +745,7 @@ func createSendFrame(destination, contentType string, body []byte, opts []func(*
 }
 
 func (c *Conn) sendFrame(f *frame.Frame) error {
-	// Lock our mutex, but don't close it via defer
-	// If the frame requests a receipt then we want to release the lock before
-	// we block on the response, otherwise we can end up deadlocking
-	c.closeMutex.Lock()
-	if c.closed {
-		c.closeMutex.Unlock()
-		c.conn.Close()
+	if c.isClosed() {
 		return ErrClosedUnexpectedly
 	}
 
@@ -740,41 +760,15 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 			C:     make(chan *frame.Frame, 1), // the receipt may come after the timeout
 		}
 
-		c.writeCh <- request
-
-		// Now that we've written to the writeCh channel we can release the
-		// close mutex while we wait for our response
-		c.closeMutex.Unlock()
-
-		var response *frame.Frame
-
-		if c.writeTimeout > 0 {
-			select {
-			case response, ok = <-request.C:
-			case <-time.After(c.writeTimeout):
-				ok = false
-			}
-		} else {
-			response, ok = <-request.C
-		}
-
-		if ok {
-			if response.Command != frame.RECEIPT {
-				return newError(response)
-			}
-		} else {
-			return ErrClosedUnexpectedly
+		if err := c.sendRequest(request, 0); err != nil {
+			return err
 		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
-		c.writeCh <- request
 
-		// Unlock the mutex now that we're written to the write channel
-		c.closeMutex.Unlock()
+		return c.readReceipt(request.C, c.writeTimeout, ErrClosedUnexpectedly)
 	}
 
-	return nil
+	// no receipt required
+	return c.sendRequest(writeRequest{Frame: f}, 0)
 }
 
 // Subscribe creates a subscription on the STOMP server.
@@ -782,10 +776,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 // will be received by this subscription. A subscription has a channel
 // on which the calling program can receive messages.
 func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
-		c.conn.Close()
+	if c.isClosed() {
 		return nil, ErrClosedUnexpectedly
 	}
 
@@ -842,8 +833,9 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	// TODO is this safe? There is no check if writeCh is actually open.
-	c.writeCh <- request
+	if err := c.sendRequest(request, 0); err != nil {
+		return nil, err
+	}
 	return sub, nil
 }
 
diff --git a/subscription.go b/subscription.go
index 3c2efd1..f2397d6 100644
--- a/subscription.go
+++ b/subscription.go
@@ -174,7 +174,13 @@ func (s *Subscription) subscriptionErrorMessage(message string) *Message {
 
 func (s *Subscription) readLoop(ch chan *frame.Frame) {
 	for {
-		f, ok := <-ch
+		var f *frame.Frame
+		ok := true
+		select {
+		case f, ok = <-ch:
+		case <-s.conn.done:
+			f = s.conn.failure
+		}
 		if !ok {
 			state := atomic.LoadInt32(&s.state)
 			if state == subStateActive || state == subStateClosing {
-- 
2.43.0


From e8c4fb18578fabd1a7b968426e3796c7b8afe4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:06 +0000
Subject: [PATCH 24/32] fix: unsubscribing a reply-to subscription is not an
 error

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 8b951e6..c209cbc 100644
--- a/conn.go
+++ b/conn.go
@@ -525,7 +525,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					ch, ok := channels[replyTo]
 					if ok {
 						delete(channels, replyTo)
-						close(ch)
+						deliveries = append(deliveries, delivery{ch, frame.New(frame.RECEIPT)})
 					}
 					sendFrame = false
 				} else {
-- 
2.43.0


From decc7084c217030001671cfd090cc48ae3e0fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:32 +0000
Subject: [PATCH 25/32] fix: Unsubscribe neither misses the end of the
 subscription nor blocks after its timeout

---
 conn.go         |  4 +---
 subscription.go | 63 +++++++++++++++++++++----------------------------
 2 files changed, 28 insertions(+), 39 deletions(-)

diff --git a/conn.go b/conn.go
index c209cbc..16238ad 100644
--- a/conn.go
+++ b/conn.go
@@ -815,7 +815,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -823,8 +822,7 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		closed:                    make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 	go sub.readLoop(ch)
diff --git a/subscription.go b/subscription.go
index f2397d6..760e300 100644
--- a/subscription.go
+++ b/subscription.go
@@ -1,7 +1,6 @@
 package stomp
 
 import (
-	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -28,8 +27,8 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
+	closeMutex                sync.Mutex    // held to close C and to send to it elsewhere than in readLoop
+	closed                    chan struct{} // closed together with C
 	closeOnce                 sync.Once
 	unsubscribeReceiptTimeout time.Duration
 }
@@ -87,10 +86,9 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	// the receipt is chosen when the frame is sent
 	f.Header.Del(frame.Receipt)
 
+	// if the connection is closed, readLoop closes the channel C
 	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+	if err != nil {
 		return err
 	}
 
@@ -99,41 +97,32 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	// for the resulting RECEIPT.
 	//
 	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	// MESSAGEs or ERRORs from another goroutine, so wait for the terminal
+	// state transition instead.
+	var timeout <-chan time.Time
+	if s.unsubscribeReceiptTimeout > 0 {
+		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
+		defer timer.Stop()
+		timeout = timer.C
+	}
+	select {
+	case <-s.closed:
+		return nil
+	case <-timeout:
 	}
-	s.closeMutex.Unlock()
-	return err
-}
 
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
+	// The channel may have been closed just now, or be full because nobody
+	// reads it.
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
+	if atomic.LoadInt32(&s.state) == subStateClosed {
 		return nil
 	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
 	select {
-	case <-waitChan:
-		return nil
-	case <-time.After(timeout):
-		return &ErrUnsubscribeReceiptTimeout
+	case s.C <- s.subscriptionErrorMessage("channel unsubscribe receipt timeout"):
+	default:
 	}
+	return &ErrUnsubscribeReceiptTimeout
 }
 
 // Read a message from the subscription. This is a convenience
@@ -158,9 +147,11 @@ func (s *Subscription) closeChannel(msg *Message) {
 		if msg != nil {
 			s.C <- msg
 		}
+		s.closeMutex.Lock()
+		defer s.closeMutex.Unlock()
 		atomic.StoreInt32(&s.state, subStateClosed)
 		close(s.C)
-		s.closeCond.Broadcast()
+		close(s.closed)
 	})
 }
 
-- 
2.43.0


From 2d68107822fb981f637812500be607b8639767a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 26/32] fix: a failing option of Unsubscribe leaves the
 subscription active

---
 subscription.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/subscription.go b/subscription.go
index 760e300..c1476fe 100644
--- a/subscription.go
+++ b/subscription.go
@@ -62,8 +62,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -86,6 +85,11 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	// the receipt is chosen when the frame is sent
 	f.Header.Del(frame.Receipt)
 
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
+	}
+
 	// if the connection is closed, readLoop closes the channel C
 	err := s.conn.sendFrame(f)
 	if err != nil {
-- 
2.43.0


From 674fc6f3d0569b29a444b0efb4e3126c5bd76a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 27/32] fix: calls that send nothing do not put off the
 heart-beats of the client

---
 conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 16238ad..0a27b9e 100644
--- a/conn.go
+++ b/conn.go
@@ -491,12 +491,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			return
 
 		case req := <-writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -539,6 +533,12 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
 				err := writer.Write(req.Frame)
 				if err != nil {
 					fail(err)
-- 
2.43.0


From 50d81e1bba365de4fb2cdf7fea57e35bb5eec2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:00 +0000
Subject: [PATCH 28/32] fix: the server ends a connection whose CONNECTED frame
 cannot be written

---
 server/client/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index f54b48f..6d82cfb 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -618,7 +618,9 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 		frame.Server, "stompd/x.y.z", // TODO: get version
 		frame.HeartBeat, fmt.Sprintf("%d,%d", cy, cx))
 
-	c.sendImmediately(response)
+	if err := c.sendImmediately(response); err != nil {
+		return err
+	}
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-- 
2.43.0


From ca5b859968671db944de9ce9b2c2c6b53b1064c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:34 +0000
Subject: [PATCH 29/32] fix: a subscription goes on after its queue storage
 failed

---
 server/queue/queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/queue/queue.go b/server/queue/queue.go
index 6b7beab..865efc0 100644
--- a/server/queue/queue.go
+++ b/server/queue/queue.go
@@ -32,6 +32,8 @@ func (q *Queue) Subscribe(sub *client.Subscription) error {
 	// see if there is a frame available for this subscription
 	f, err := q.qstore.Dequeue(sub.Destination())
 	if err != nil {
+		// the subscription waits for the next frame
+		q.subs.Add(sub)
 		return err
 	}
 	if f == nil {
-- 
2.43.0


From c6d97158a82f4302ebe729257e36cf56d553fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 30/32] fix: DialWithContext stops dialling when its context
 ends

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0a27b9e..eac7df3 100644
--- a/conn.go
+++ b/conn.go
@@ -76,7 +76,7 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	c, err := new(net.Dialer).DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e38318cbe13a04e0df0fca9f319cb8e76d7acadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 31/32] fix: a failed Dial closes its network connection

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index eac7df3..45aa0c0 100644
--- a/conn.go
+++ b/conn.go
@@ -91,7 +91,12 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From 6ce422d861f9ada5c5a6c62169f40a8c8f6cda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 32/32] fix: a transaction can be completed only once when
 go-routines race for it

---
 transaction.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/transaction.go b/transaction.go
index 0a8398f..455e8db 100644
--- a/transaction.go
+++ b/transaction.go
@@ -1,6 +1,8 @@
 package stomp
 
 import (
+	"sync/atomic"
+
 	"github.com/go-stomp/stomp/v3/frame"
 )
 
@@ -17,7 +19,7 @@ import (
 type Transaction struct {
 	id        string
 	conn      *Conn
-	completed bool
+	completed int32 // 1 when committed or aborted
 }
 
 // Id returns the unique identifier for the transaction.
@@ -45,7 +47,8 @@ func (tx *Transaction) AbortWithReceipt() error {
 }
 
 func (tx *Transaction) abort(receipt bool) error {
-	if tx.completed {
+	// only one call completes the transaction
+	if !atomic.CompareAndSwapInt32(&tx.completed, 0, 1) {
 		return ErrCompletedTransaction
 	}
 
@@ -58,9 +61,9 @@ func (tx *Transaction) abort(receipt bool) error {
 
 	err := tx.conn.sendFrame(f)
 	if err != nil {
+		atomic.StoreInt32(&tx.completed, 0)
 		return err
 	}
-	tx.completed = true
 
 	return nil
 }
@@ -80,7 +83,8 @@ func (tx *Transaction) CommitWithReceipt() error {
 }
 
 func (tx *Transaction) commit(receipt bool) error {
-	if tx.completed {
+	// only one call completes the transaction
+	if !atomic.CompareAndSwapInt32(&tx.completed, 0, 1) {
 		return ErrCompletedTransaction
 	}
 
@@ -93,9 +97,9 @@ func (tx *Transaction) commit(receipt bool) error {
 
 	err := tx.conn.sendFrame(f)
 	if err != nil {
+		atomic.StoreInt32(&tx.completed, 0)
 		return err
 	}
-	tx.completed = true
 
 	return nil
 }
@@ -111,7 +115,7 @@ func (tx *Transaction) commit(receipt bool) error {
 //
 // TODO: document opts
 func (tx *Transaction) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
-	if tx.completed {
+	if atomic.LoadInt32(&tx.completed) != 0 {
 		return ErrCompletedTransaction
 	}
 
@@ -129,7 +133,7 @@ func (tx *Transaction) Send(destination, contentType string, body []byte, opts .
 // has been committed. If the subscription has an AckMode of AckAuto, calling
 // this function has no effect.
 func (tx *Transaction) Ack(msg *Message) error {
-	if tx.completed {
+	if atomic.LoadInt32(&tx.completed) != 0 {
 		return ErrCompletedTransaction
 	}
 
@@ -157,7 +161,7 @@ func (tx *Transaction) Ack(msg *Message) error {
 // of AckAuto, because the STOMP server will not be expecting any kind
 // of acknowledgement (positive or negative) for this message.
 func (tx *Transaction) Nack(msg *Message) error {
-	if tx.completed {
+	if atomic.LoadInt32(&tx.completed) != 0 {
 		return ErrCompletedTransaction
 	}
 
-- 
2.43.0

