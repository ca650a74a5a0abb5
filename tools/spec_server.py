from spec import *
from spec_frame import STUBS

SRV = STUBS + [
 "the server runs on in-memory connections and an in-memory listener of the harness; a connection delivers bytes in order, accepts writes at once unless the harness says otherwise, and honours read deadlines",
 "goroutines switch only at channel, mutex and atomic operations (C25 shows that nothing else orders memory)",
]
HIST = "between two steps of a history the server is quiescent; schedules inside a step are covered as far as the delay bound of the job says"

def srv(id, title, statement, over, text, why, files, mech, observe):
    prop(id, title, statement, over, text, why, files, mech, [observe])

CONN = "server/client/conn.go"

srv("C15", "Only authenticated clients that negotiated a version are served",
 "The server processes no frame of a connection before a valid CONNECT or STOMP frame: the authenticator has been asked exactly once, with the login and passcode the client sent, and has agreed, and the highest protocol version both sides support (1.1 or 1.2) has been chosen and announced in CONNECTED. Any other first frame, a refused login, no common version, a malformed heart-beat header, a second CONNECT or a command only servers send is answered with one ERROR frame, nothing that follows it is processed, and the connection is closed while other clients go on.",
 ["inputs", "histories"], "every first frame, every accept-version, login and passcode text, pipelined frames included",
 "server_test.go connects clients that behave; refusals, pipelined frames and arbitrary version lists are not reached.",
 [CONN, "server/client/client.go", "server/processor.go"],
 [("connecting/connected state functions, handleConnect", CONN), ("determineVersion", "server/client/client.go"), ("config.Authenticate", "server/processor.go")],
 "bytes the server writes, what other clients receive")
check("C15",
 quick=[
  J("GateFirst", reach=["connected","refused"], bound="any of the 15 commands as the first frame, 3 header sets, an arbitrary receipt, a SEND behind it"),
  J("GateVersion", dict(n=3), reach=["connected","refused"], bound="accept-version of 3 arbitrary bytes, CONNECT and STOMP"),
  J("GateVersion", dict(n=7,dots=1), reach=["connected","refused"], bound="accept-version '?.?,?.?', every ? arbitrary"),
  J("GateVersion", dict(n=7,dots=1,list=0), reach=["connected","refused"], bound="accept-version '?.???.?', every ? arbitrary"),
  J("GateVersion", dict(n=-1), reach=["refused"], bound="no accept-version"),
  J("GateAuth", dict(n=1), reach=["accepted","refused"], bound="login and passcode of the server and the client arbitrary, up to 1 byte, or absent; a SEND behind CONNECT"),
  J("GateLater", reach=["end"], bound="CONNECT, STOMP and the 4 server commands from a connected client"),
  J("BeatHeader", dict(n=4), reach=["connected","refused"], bound="heart-beat header of 4 arbitrary bytes"),
 ],
 thorough=[
  J("GateFirst", reach=["connected","refused"], bound="as quick"),
  J("GateVersion", dict(n=1), reach=["refused"], bound="accept-version of 1 arbitrary byte"),
  J("GateVersion", dict(n=4,list=0), reach=["refused"], bound="accept-version of 4 arbitrary bytes"),
  J("GateVersion", dict(n=7), reach=["connected","refused"], bound="accept-version '???,???', every ? arbitrary"),
  J("GateVersion", dict(n=11,dots=1), reach=["connected","refused"], bound="accept-version '?.?,?.?,?.?'"),
  J("GateVersion", dict(n=-1), reach=["refused"], bound="no accept-version"),
  J("GateAuth", dict(n=2), reach=["accepted","refused"], bound="texts of up to 2 bytes"),
  J("GateLater", reach=["end"], bound="as quick"),
  J("BeatHeader", dict(n=5), reach=["connected","refused"], bound="heart-beat header of 5 arbitrary bytes"),
 ],
 bounds=["login and passcode of up to 2 bytes, accept-version lists of up to 3 entries, heart-beat headers of up to 5 bytes"],
 assumptions=SRV+["accept-version texts with spaces are excluded (the specification does not define them)"])

srv("C16", "No client input crashes or blocks the server",
 "Whatever bytes or frames a client sends (any command with missing, repeated, wrong or arbitrary headers, arbitrary bytes, a partial frame, a hang-up at any moment, bursts larger than every buffer inside the server), the server does not panic or dead-lock, writes only well-formed frames, and keeps serving the clients that are connected and those that connect later.",
 ["inputs", "histories", "schedules"], "every frame sequence and byte sequence of a client within the bounds",
 "the existing tests send valid frames only; a crash of the server needs one particular wrong frame in one particular state.",
 [CONN, "server/processor.go", "server/client/subscription_list.go", "server/client/tx_store.go", "server/queue/queue.go", "server/topic/topic.go"],
 [("processLoop, the handle functions", CONN), ("requestProcessor.Serve", "server/processor.go")],
 "a witness client and a new client after the input")
check("C16",
 quick=[
  J("RobustFrames", dict(n=1,nh=1,names=9), reach=["end"], bound="1 frame of any command with up to 1 of 9 headers, value valid or arbitrary (<= 1 byte), before CONNECT and after a prefix with subscriptions, an unacknowledged message and a transaction, then a hang-up or none"),
  J("RobustFrames", dict(n=1,nh=2,len=0), reach=["end"], bound="1 frame with up to 2 of 7 headers (repeated ones included), values valid or empty"),
  J("RobustBytes", dict(where=0,n=5), reach=["end"], bound="5 arbitrary bytes on a new connection"),
  J("RobustBytes", dict(where=1,n=5), reach=["end"], bound="5 arbitrary bytes after CONNECT"),
  J("RobustBytes", dict(where=2,n=5), reach=["end"], bound="5 arbitrary bytes inside a SEND frame"),
  J("RobustBytes", dict(where=3,n=4), reach=["end"], bound="ack header of 4 arbitrary bytes"),
  J("RobustBytes", dict(where=4,n=4), reach=["end"], bound="heart-beat header of 4 arbitrary bytes"),
  J("RobustBulk", dict(n=200), reach=["end"], bound="200 messages to the client's own topic and queue at once, with and without a transaction"),
  J("StalledClient", reach=[], bound="a subscriber that stops reading, 30 messages (known finding)"),
 ],
 thorough=[
  J("RobustFrames", dict(n=1,nh=2), reach=["end"], bound="1 frame, 2 headers, values of up to 1 arbitrary byte"),
  J("RobustFrames", dict(n=2,nh=1,len=0,hangup=0), reach=["end"], bound="2 frames, 1 header each"),
  J("RobustBytes", dict(where=0,n=8), reach=["end"], bound="8 arbitrary bytes"),
  J("RobustBytes", dict(where=1,n=8), reach=["end"], bound="8 arbitrary bytes after CONNECT"),
  J("RobustBytes", dict(where=2,n=8), reach=["end"], bound="8 arbitrary bytes inside SEND"),
  J("RobustBytes", dict(where=3,n=6), reach=["end"], bound="ack header of 6 bytes"),
  J("RobustBytes", dict(where=4,n=6), reach=["end"], bound="heart-beat header of 6 bytes"),
  J("RobustBulk", dict(n=400), reach=["end"], bound="400 messages at once"),
  J("RobustBulk", dict(n=40), delays=1, reach=["end"], bound="40 messages, every schedule with one delay"),
  J("StalledClient", reach=[], bound="a subscriber that stops reading, 30 messages (known finding)"),
 ],
 bounds=["up to 2 frames after the prefix, 2 headers each, arbitrary values of 1 byte; 8 arbitrary bytes; 400 frames in one burst; one delay"],
 assumptions=SRV)

srv("C17", "Queues deliver every message to exactly one subscription, in order",
 "A message sent to a queue is delivered to exactly one subscription of that destination, and waits in the queue, behind those sent before it, as long as there is none that is ready. It is lost under no circumstances: if its connection ends, breaks while it is written, or the subscription ends before the message is acknowledged, it returns to the head of its queue and is delivered again. A message that was acknowledged (or delivered with ack:auto) is never delivered again.",
 ["histories", "schedules", "fault_sequences"], "every history of clients sending, subscribing, unsubscribing, acknowledging and leaving in four ways, and every schedule within the delay bound",
 "queue_test.go and server_test.go run single fixed scenarios to the end; loss and duplication need an unsubscribe, hang-up or broken write at one particular moment.",
 ["server/queue/queue.go", "server/queue/memory_queue.go", CONN, "server/processor.go", "server/client/subscription_list.go"],
 [("Queue.Subscribe/Enqueue/Requeue/Unsubscribe", "server/queue/queue.go"), ("processLoop's subChannel case, cleanupConn, releaseSubscriptions", CONN)],
 "MESSAGE frames all clients receive")
check("C17",
 quick=[
  J("QueueHistory", dict(n=4), reach=["end","send","subscribe","unsubscribe","ack","nack","leave"], bound="4 steps of 2 consumers (1.1 and 1.2) and a publisher, one queue, auto, client-individual and client subscriptions; a final client collects what is left"),
  J("QueueHistory", dict(n=2,dests=2,modes=2,presend=1), reach=["end"], bound="2 steps, 2 queues"),
  J("QueueHistory", dict(n=2,hows=4,modes=2,presend=2), reach=["end","leave"], bound="2 steps after 2 messages, leaving by hang-up, DISCONNECT, in the middle of a frame or by a protocol error"),
  J("QueueRace", dict(), delays=1, reach=["end"], bound="2 messages sent while 2 consumers each take one of 11 actions at the same time (hang-up, UNSUBSCRIBE, re-SUBSCRIBE, ACK, NACK, DISCONNECT, broken write, ...), every schedule with one delay"),
  J("QueueLong", dict(n=250), reach=["auto","acked"], max_steps=60000000, bound="250 messages wait in a queue; auto, client, client-individual, 1.1 and 1.2; every 7th returned once, or the consumer leaves half-way"),
  J("ServerMany", dict(n=300,many=2), reach=["end"], max_steps=60000000, bound="300 queues"),
  J("ServerMany", dict(n=300,many=5), reach=["end"], max_steps=60000000, bound="300 unacknowledged messages of a connection that ends"),
 ],
 thorough=[
  J("QueueHistory", dict(n=5), reach=["end"], bound="5 steps"),
  J("QueueHistory", dict(n=3,pre=2,subs=2,modes=2), reach=["end"], bound="3 steps, two subscriptions per client"),
  J("QueueHistory", dict(n=3,hows=4), reach=["end"], bound="3 steps, 4 ways of leaving"),
  J("QueueHistory", dict(n=3,dests=2,modes=2,presend=1), reach=["end"], bound="3 steps, 2 queues"),
  J("QueueRace", dict(), delays=2, reach=["end"], bound="as quick, two delays (as far as the time budget goes)"),
  J("QueueRace", dict(pre=3,n=1), delays=1, reach=["end"], bound="3 messages before, 1 during the burst, one delay"),
  J("QueueRace", dict(consumers=1,n=3,modes=3), delays=2, reach=["end"], bound="1 consumer, two delays"),
  J("QueueLong", dict(n=250), reach=["auto","acked"], max_steps=60000000, bound="250 messages wait in a queue; auto, client, client-individual, 1.1 and 1.2; every 7th returned once, or the consumer leaves half-way"),
  J("ServerMany", dict(n=300,many=2), reach=["end"], max_steps=60000000, bound="300 queues"),
  J("ServerMany", dict(n=300,many=5), reach=["end"], max_steps=60000000, bound="300 unacknowledged messages of a connection that ends"),
 ],
 bounds=["queues of 250 messages for fixed histories","histories of up to 5 steps, 2 consumers, 2 queues, up to 8 messages of one arbitrary byte; up to 2 delays"],
 assumptions=SRV+[HIST, "the order among several messages that one connection gives back at the same time is not specified"])

srv("C18", "ACK and NACK settle exactly the message they name",
 "In every subscription with ack:client or client-individual a message stays the client's until its ACK or NACK arrives, named by the id of the MESSAGE's ack header (STOMP 1.2) or its message-id (1.1). ACK removes that message for good (with ack:client also those delivered earlier to the same subscription), NACK returns it to the head of its queue, and neither affects the messages of other subscriptions or connections; an id that names no unacknowledged message settles nothing.",
 ["inputs", "histories"], "every history of deliveries and acknowledgements, every id text",
 "subscription_list_test.go checks the list with hand-made ids; that ids assigned on the wire, lists and modes work together over all histories is not tested.",
 [CONN, "server/client/subscription.go", "server/client/subscription_list.go"],
 [("ackMessageId, handleAck, handleNack, allocateMessageId", CONN), ("IsNackedBy", "server/client/subscription.go"), ("FindByMsgIdAndRemove, Nack", "server/client/subscription_list.go")],
 "MESSAGE frames all clients receive after ACK and NACK frames")
check("C18",
 quick=[
  J("AckAny", dict(n=1), reach=["hit","miss","end"], bound="ACK or NACK with an arbitrary 1-byte id, two subscriptions of the client and one of another hold messages"),
  J("AckAny", dict(n=0), reach=["miss","end"], bound="empty id"),
  J("AckAny", dict(n=2,skip=9), reach=["hit","miss","end"], bound="2-byte id, two-digit message-ids"),
  J("QueueHistory", dict(n=3,pre=2,subs=2,modes=2), reach=["end","ack","nack"], bound="3 steps, two subscriptions per client"),
  J("QueueHistory", dict(n=2,presend=2,pre=2,subs=2,modes=3,consumers=1), reach=["end","ack","nack"], bound="2 steps after 2 messages, one client with two subscriptions of any mode"),
  J("QueueLong", dict(n=250), reach=["auto","acked"], max_steps=60000000, bound="250 messages wait in a queue; auto, client, client-individual, 1.1 and 1.2; every 7th returned once, or the consumer leaves half-way"),
 ],
 thorough=[
  J("AckAny", dict(n=1), reach=["hit","miss","end"], bound="1-byte id"),
  J("AckAny", dict(n=2,skip=9), reach=["hit","miss","end"], bound="2-byte id"),
  J("AckAny", dict(n=3), reach=["miss","end"], bound="3-byte id"),
  J("QueueHistory", dict(n=4,pre=2,subs=2,modes=2,consumers=1,presend=2), reach=["end","ack","nack"], bound="4 steps after 2 messages, one client with two subscriptions"),
  J("QueueHistory", dict(n=3,pre=2,subs=2,modes=3), reach=["end","ack","nack"], bound="3 steps, two subscriptions per client, all modes"),
  J("QueueHistory", dict(n=5,consumers=1), reach=["end","ack","nack"], bound="5 steps, one client"),
  J("QueueLong", dict(n=250), reach=["auto","acked"], max_steps=60000000, bound="250 messages wait in a queue; auto, client, client-individual, 1.1 and 1.2; every 7th returned once, or the consumer leaves half-way"),
 ],
 bounds=["queues of 250 messages for fixed histories","histories of up to 5 steps, ids of up to 3 bytes, two subscriptions per client"],
 assumptions=SRV+[HIST, "ids with a leading zero are excluded (whether 01 names 1 is left open)"])

srv("C19", "Topics reach all their current subscriptions, and only those, in order",
 "A message sent to any destination that is not a queue is delivered once to every subscription that exists for exactly that destination when it is sent, with that subscription's id, and to nobody else. All subscriptions see the messages in the same order, one publisher's messages in the order sent; subscribers that come, unsubscribe or leave at any moment neither lose nor gain messages for others, and nothing is kept for later subscribers.",
 ["histories", "schedules"], "every history of subscribers and publishers and every schedule within the delay bound",
 "topic_test.go checks one to three fixed subscribers; it never unsubscribes during delivery or runs publishers concurrently.",
 ["server/topic/topic.go", "server/topic/manager.go", "server/processor.go", CONN],
 [("Topic.Subscribe/Unsubscribe/Enqueue", "server/topic/topic.go"), ("Serve's dispatch on isQueueDestination", "server/processor.go"), ("processLoop's writeChannel case", CONN)],
 "MESSAGE frames all clients receive")
check("C19",
 quick=[
  J("TopicHistory", dict(n=3), reach=["end","send","subscribe","unsubscribe","leave"], bound="3 steps of 2 clients, one topic, up to 2 subscriptions each"),
  J("TopicHistory", dict(n=2,queues=1,topics=2), reach=["end"], bound="2 steps, 2 topics and a queue of the same name"),
  J("TopicHistory", dict(n=2,peers=3,subs=2,pre=2), reach=["end"], bound="2 steps of 3 clients with 2 subscriptions each"),
  J("TopicHistory", dict(n=1,peers=3,subs=2,pre=1,more=7,own=1), reach=["end"], bound="1 step of 3 clients, messages with up to 7 more headers, different subscription ids"),
  J("TopicRace", dict(), delays=1, reach=["end"], bound="2 publishers with 2 messages each, one steady subscriber, two that do one of 6 things at the same time; every schedule with one delay"),
  J("ServerMany", dict(n=300,many=0), reach=["end"], max_steps=60000000, bound="300 subscriptions of one connection to one topic"),
  J("ServerMany", dict(n=300,many=1), reach=["end"], max_steps=60000000, bound="300 connections subscribed to one topic"),
  J("ServerMany", dict(n=400,many=6), reach=["end"], max_steps=60000000, bound="a transaction with 400 messages for 11 subscriptions of its own connection"),
 ],
 thorough=[
  J("TopicHistory", dict(n=5), reach=["end"], bound="5 steps of 2 clients"),
  J("TopicHistory", dict(n=4,queues=1,topics=2), reach=["end"], bound="4 steps, 2 topics and a queue"),
  J("TopicHistory", dict(n=3,peers=3,pre=2,hows=4), reach=["end"], bound="3 steps of 3 clients, 4 ways of leaving"),
  J("TopicRace", dict(), delays=2, reach=["end"], bound="as quick, two delays (as far as the time budget goes)"),
  J("TopicRace", dict(subs=2,pubs=1,n=3), delays=3, reach=["end"], bound="1 publisher with 3 messages, 2 subscribers, three delays"),
  J("ServerMany", dict(n=300,many=0), reach=["end"], max_steps=60000000, bound="300 subscriptions of one connection to one topic"),
  J("ServerMany", dict(n=300,many=1), reach=["end"], max_steps=60000000, bound="300 connections subscribed to one topic"),
  J("ServerMany", dict(n=400,many=6), reach=["end"], max_steps=60000000, bound="a transaction with 400 messages for 11 subscriptions of its own connection"),
 ],
 bounds=["300 subscriptions or connections for fixed histories","histories of up to 5 steps, 3 clients, 2 topics, up to 3 delays"],
 assumptions=SRV+[HIST, "messages already handed to the connection when UNSUBSCRIBE arrives may still be delivered"])

srv("C20", "Transactions are atomic, ordered and isolated",
 "SEND, ACK and NACK frames with a transaction header have no effect before COMMIT; COMMIT applies all of them, in order, exactly once; ABORT, a hang-up, DISCONNECT or an error applies none, and unacknowledged messages return to their queues. Open transactions of a client do not influence each other, and BEGIN of an open or any use of an unknown transaction is an ERROR that closes the connection.",
 ["histories", "inputs"], "every history of transaction frames with arbitrary transaction names",
 "tx_store_test.go tests the store alone with fixed names; the effects of whole histories on queues, topics and acknowledgements are not tested.",
 ["server/client/tx_store.go", CONN],
 [("txStore.Begin/Add/Commit/Abort", "server/client/tx_store.go"), ("handleBegin/Commit/Abort and the tx branches of handleSend/Ack/Nack, cleanupConn", CONN)],
 "what observers receive, what is delivered again after the client left")
check("C20",
 quick=[
  J("TxHistory", dict(n=2,vers=2), reach=["end","begin","begin-twice","commit-unknown","abort-unknown","send-unknown"], bound="2 steps with arbitrary 1-byte transaction names (equal or different), two unacknowledged messages"),
  J("TxHistory", dict(n=3,known=1,vers=1), reach=["end","tx-ack","commit","abort"], bound="3 steps that refer to open transactions, with acknowledgements"),
  J("TxHistory", dict(n=4,known=1,acks=0,vers=1,plain=0), reach=["end","commit","abort"], bound="4 steps: 2 transactions, sends to a topic and a queue"),
  J("ServerMany", dict(n=300,many=3), reach=["end"], max_steps=60000000, bound="300 transactions with two messages each, open at the same time"),
 ],
 thorough=[
  J("TxHistory", dict(n=3,vers=2), reach=["end"], bound="3 steps, arbitrary names"),
  J("TxHistory", dict(n=4,known=1,vers=2), reach=["end","tx-ack"], bound="4 steps with acknowledgements"),
  J("TxHistory", dict(n=6,known=1,acks=0,vers=1,plain=0), reach=["end"], bound="6 steps"),
  J("TxHistory", dict(n=2,receipts=1), reach=["end"], bound="2 steps, every frame with a receipt"),
  J("ServerMany", dict(n=300,many=3), reach=["end"], max_steps=60000000, bound="300 transactions with two messages each, open at the same time"),
 ],
 bounds=["300 open transactions for a fixed history","histories of up to 6 transaction frames, 2 transactions"],
 assumptions=SRV+[HIST])

srv("C21", "Every processed frame is receipted once, no other is",
 "Every client frame with a receipt header that the server has processed is answered with exactly one RECEIPT carrying exactly that receipt-id, in the order of the frames and not before the frame has taken effect; a frame that fails gets an ERROR naming the receipt-id instead, and nothing after it is processed. The receipt header itself is never passed on to subscribers, whether the frame is sent plainly or inside a transaction.",
 ["inputs", "histories"], "every sequence of frames with arbitrary receipt texts",
 "no test of the server asks for a receipt of anything but DISCONNECT.",
 [CONN],
 [("takeReceipt, sendReceiptImmediately, sendErrorImmediately", CONN)],
 "RECEIPT and ERROR frames, what observers receive")
check("C21",
 quick=[
  J("ReceiptHistory", dict(n=2), reach=["receipt","error","disconnect","end"], bound="2 frames out of 12 kinds in one packet, each with or without a receipt of one arbitrary byte"),
  J("ReceiptHistory", dict(n=1,rlen=3), reach=["receipt","error","end"], bound="1 frame, receipt of 3 arbitrary bytes"),
  J("ReceiptHistory", dict(n=1,rlen=0), reach=["receipt","error","end"], bound="1 frame, empty receipt"),
  J("TopicHistory", dict(n=2,queues=1,receipts=1), reach=["end"], bound="2 steps of 2 clients, every frame with a receipt"),
  J("ServerMany", dict(n=300,many=4), reach=["end"], max_steps=60000000, bound="300 frames with receipts"),
 ],
 thorough=[
  J("ReceiptHistory", dict(n=3), reach=["receipt","error","disconnect","end"], bound="3 frames"),
  J("ReceiptHistory", dict(n=2,rlen=2), reach=["receipt","error","end"], bound="2 frames, receipts of 2 bytes"),
  J("TopicHistory", dict(n=3,queues=1,receipts=1), reach=["end"], bound="3 steps"),
  J("TxHistory", dict(n=2,receipts=1), reach=["end"], bound="2 transaction frames with receipts"),
  J("ServerMany", dict(n=300,many=4), reach=["end"], max_steps=60000000, bound="300 frames with receipts"),
 ],
 bounds=["300 receipts for a fixed history","up to 3 frames, receipts of up to 3 bytes"],
 assumptions=SRV+[HIST])

srv("C22", "A MESSAGE is the SEND frame plus the server's own headers",
 "Every MESSAGE a subscriber receives has exactly the destination, body and custom headers of the SEND frame (byte for byte, in order), plus the subscription id and a message-id unique on its connection, plus an ack header exactly if the subscription acknowledges. The deliveries of one message to several subscriptions, or again after a NACK or hang-up, do not influence one another.",
 ["inputs"], "every header text and body, and headers of the names the server itself uses",
 "tests send one fixed body without custom headers to one subscriber.",
 [CONN, "server/topic/topic.go", "server/client/subscription.go", "frame/frame.go"],
 [("allocateMessageId, handleSend", CONN), ("setSubscriptionHeader", "server/client/subscription.go"), ("Topic.Enqueue's clones", "server/topic/topic.go")],
 "MESSAGE frames against the SEND frame")
check("C22",
 quick=[
  J("Integrity", dict(nh=1,blen=0,dlen=0,pvers=1), reach=["topic","queue"], bound="one header with an arbitrary name byte and value byte; topic with 3 subscriptions, queue with redelivery after NACK or hang-up; 1.1 and 1.2"),
  J("Integrity", dict(nh=2,blen=0,dlen=0,vlen=0,pvers=1), reach=["topic","queue"], bound="two headers with arbitrary names"),
  J("Integrity", dict(nh=1,blen=1,given=1,vlen=0,pvers=1), reach=["topic","queue"], bound="a header with a name the server sets itself, arbitrary destination byte, body <= 1 byte"),
  J("Integrity", dict(nh=0,blen=3,chunk=1), reach=["topic","queue"], bound="body of up to 3 arbitrary bytes, with and without content-length, arriving byte by byte"),
  J("Integrity", dict(nh=0,blen=1,pad=3000), reach=["topic","queue"], bound="6 kB bodies"),
 ],
 thorough=[
  J("Integrity", dict(nh=1,blen=0,pvers=2), reach=["topic","queue"], bound="one header, arbitrary destination byte"),
  J("Integrity", dict(nh=1,blen=1,klen=2,vlen=2,dlen=0,pvers=1), reach=["topic","queue"], bound="header of 2-byte name and value, body 1 byte"),
  J("Integrity", dict(nh=2,blen=1,dlen=0,pvers=1), reach=["topic","queue"], bound="two headers"),
  J("Integrity", dict(nh=2,blen=1,given=1,vlen=0), reach=["topic","queue"], bound="reserved names and an arbitrary one"),
  J("Integrity", dict(nh=0,blen=5,chunk=2), reach=["topic","queue"], bound="body of up to 5 bytes"),
  J("Integrity", dict(nh=0,blen=2,pad=20000), reach=["topic","queue"], bound="40 kB bodies"),
 ],
 bounds=["up to 2 custom headers of up to 2 bytes, bodies of up to 5 arbitrary bytes or 40 kB with 2 arbitrary ones"],
 assumptions=SRV+["headers that the server sets itself (subscription, message-id, id, ack) replace those of the SEND frame; no content-length other than the right one is sent; receipt and transaction are consumed"])

srv("C23", "Queue storage is a faithful, isolated FIFO and is used as documented",
 "The in-memory storage behaves as one list per queue name: Enqueue appends, Requeue prepends, Dequeue removes the head or returns nil, without mixing queues or changing frames. A server with any other QueueStorage starts it exactly once before using it, keeps every message that waits for a subscriber in it under its destination, takes it out exactly when it delivers it, and delivers messages the storage already holds, in order.",
 ["histories", "inputs"], "every history of operations and every content of the storage within the bounds",
 "memory_queue_test.go runs one fixed sequence and never calls Requeue; no test uses a storage of its own.",
 ["server/queue/memory_queue.go", "server/queue/queue.go", "server/queue/manager.go", "server/processor.go", "server/queue_storage.go"],
 [("MemoryQueueStorage", "server/queue/memory_queue.go"), ("Queue.Subscribe/Enqueue/Requeue", "server/queue/queue.go"), ("newRequestProcessor", "server/processor.go")],
 "calls and results of QueueStorage, MESSAGE frames")
check("C23",
 quick=[
  J("StorageOps", dict(n=5,names=2), reach=["frame","empty","end"], bound="5 operations on 2 queues with arbitrary one-byte names"),
  J("StorageServer", dict(n=3,pre=2), reach=["end"], bound="2 messages stored before, then 3 steps of a publisher and a consumer on 2 queues"),
 ],
 thorough=[
  J("StorageOps", dict(n=6,names=3), reach=["frame","empty","end"], bound="6 operations on 3 queues"),
  J("StorageOps", dict(n=7,names=2), reach=["frame","empty","end"], bound="7 operations on 2 queues"),
  J("StorageServer", dict(n=4,pre=2), reach=["end"], bound="4 steps"),
  J("StorageServer", dict(n=3,pre=3), reach=["end"], bound="3 messages stored before"),
 ],
 bounds=["7 operations; 3 messages in the storage and 4 steps"],
 assumptions=SRV+[HIST, "the storage's operations do not fail (the server ignores their errors)"])

srv("C24", "The server keeps the heart-beats it negotiated",
 "CONNECTED announces the heart-beats the client asked for, raised to the server's configured minimum and switched off where the client said 0. The server is then never silent for longer than it announced and sends no heart-beats to a client that wants none; it drops a client exactly when that client has sent nothing at all, not even part of a frame, for more than twice the interval it announced.",
 ["inputs", "schedules"], "all heart-beat values, all configured minimums and all sending times within the bounds",
 "the tests never let a heart-beat interval pass; the boundaries are reached only at particular times.",
 [CONN, "server/client/client.go", "server/client/util.go", "server/processor.go"],
 [("handleConnect, processLoop's timer", CONN), ("readLoop's deadline", CONN), ("getHeartBeat", "server/client/client.go"), ("asMilliseconds", "server/client/util.go")],
 "times of the server's writes and of its closing the connection")
check("C24",
 quick=[
  J("ServerBeats", dict(beats=3), reach=["beats","none"], bound="both numbers 000-999, minimum 1-500 ms (and fractions) or the default, a MESSAGE at an arbitrary time; 3 intervals"),
  J("ServerTimeout", dict(n=2), reach=["dropped","none"], bound="same numbers; 2 heart-beats, frames or slow frames at an arbitrary interval, then silence"),
  J("BeatHeader", dict(n=4), reach=["connected","refused"], bound="heart-beat header of 4 arbitrary bytes"),
 ],
 thorough=[
  J("ServerBeats", dict(beats=5), reach=["beats","none"], bound="5 intervals"),
  J("ServerBeats", dict(dx=1,dy=4,beats=3), reach=["beats","none"], bound="server interval up to 9999 ms"),
  J("ServerTimeout", dict(n=4), reach=["dropped","none"], bound="4 signs of life"),
  J("ServerTimeout", dict(n=2,dx=4,dy=1), reach=["dropped","none"], bound="client interval up to 9999 ms"),
  J("BeatHeader", dict(n=5), reach=["connected","refused"], bound="5 arbitrary bytes"),
 ],
 bounds=["numbers of 3 digits (4 in the thorough check), intervals in whole milliseconds, up to 5 intervals or signs of life, virtual time"],
 assumptions=SRV+["code takes no time: only timers and the harness's own waiting let virtual time pass"])
