from spec import *
from spec_frame import STUBS
from spec_client import CLI, TIME
from spec_server import SRV

CC, SC = "conn.go", "server/client/conn.go"

def R(harness, params=None, delays=0, reach=("end",), bound=""):
    return J(harness, params, delays, list(reach), bound, race=True)

prop("C25", "No data races in the client or the server",
 "A program may use one connection, its subscriptions, transactions and messages from several go-routines at once, and a server may serve any number of connections: no two go-routines ever access the same variable, map entry or array element of the library without synchronisation, one of them writing. This includes what is handed from one go-routine to another (frames, headers, bodies, received messages) and everything that happens while a connection or subscription begins or ends.",
 ["schedules", "histories"], "every schedule within the delay bounds, every history of calls and frames within the bounds",
 "the race detector sees only what the schedule of one test run brings together; the tests use the library from one or two go-routines and are not run with -race.",
 [CC, "subscription.go", "transaction.go", "id.go", "send_options.go", SC, "server/processor.go", "server/topic/topic.go", "server/queue/queue.go", "server/client/subscription_list.go"],
 [("readLoop, processLoop, Send, Subscribe, Disconnect", CC), ("Subscription.readLoop, Unsubscribe", "subscription.go"), ("allocateId", "id.go"), ("readLoop, processLoop, request", SC), ("requestProcessor.Serve, Listen", "server/processor.go"), ("Topic.Enqueue (one clone per subscriber)", "server/topic/topic.go")],
 ["accesses to memory of the library's code under a happens-before order"])
check("C25",
 quick=[
  R("Ids", dict(g=3,ops=2), bound="3 go-routines with 2 requests each on 2 connections"),
  R("CallOrder", delays=1, bound="2 go-routines with 2 calls each, heart-beats in between, every schedule with one delay"),
  R("Receipts", dict(n=2,req=1), bound="1 request, 2 events (receipts, ERROR, loss, timeouts)"),
  R("ReceiptRace", delays=1, bound="2 requests at the same time, every schedule with one delay"),
  R("Route", dict(n=2,subs=1,vers=1,mores=1), bound="1 subscription, 2 events"),
  R("Chatty", dict(n=3), delays=1, bound="2 consumers that send while they receive, every schedule with one delay"),
  R("Loss", dict(acts=2), bound="2 activities under way when the connection ends for one of 10 causes"),
  R("Loss", dict(acts=1), delays=1, bound="1 activity, every schedule with one delay"),
  R("Unsub", dict(msgs=1), bound="Unsubscribe by one or two callers with messages under way, 8 ways to end"),
  R("Stats", dict(n=2), bound="2 calls, statistics in between"),
  R("QueueHistory", dict(n=2,modes=2), bound="2 steps of 2 consumers and a publisher on a queue"),
  R("QueueRace", dict(n=1,modes=2), delays=1, bound="1 message and 2 consumers that act at the same time, every schedule with one delay"),
  R("TopicHistory", dict(n=2), bound="2 steps of 2 clients on a topic"),
  R("TopicRace", dict(n=1), delays=1, bound="2 publishers, 3 subscribers, every schedule with one delay"),
  R("TxHistory", dict(n=2,known=1,vers=1), bound="2 steps of transactions"),
  R("ServerEnd", dict(vers=1,acks=1), bound="9 states, 9 causes, traffic of others"),
  R("AcceptLoop", dict(n=3), bound="3 connections or failures of Accept"),
  R("Mixed", delays=1, reach=["alive","ended","end"], bound="2 go-routines with one of 17 calls each on the same connection, subscription, transaction and message, server traffic or loss, every schedule with one delay"),
  R("EndToEnd", dict(n=2,arb=0,vers=1), bound="client and server together, 2 steps"),
 ],
 thorough=[
  R("Ids", dict(g=3,ops=1), delays=1, bound="3 go-routines, every schedule with one delay"),
  R("CallOrder", dict(g=3,k=2), delays=1, bound="3 go-routines with 2 calls each, one delay"),
  R("Receipts", dict(n=2,req=2), bound="2 requests, 2 events"),
  R("ReceiptRace", delays=2, bound="2 requests at the same time, two delays"),
  R("Route", dict(n=3,subs=1,vers=1,mores=1), bound="1 subscription, 3 events"),
  R("Chatty", dict(n=3,per=2), delays=2, bound="3 messages, two delays (as far as the time budget goes)"),
  R("Loss", dict(acts=3), bound="3 activities, 10 causes"),
  R("Loss", dict(acts=2), delays=1, bound="2 activities, one delay"),
  R("Unsub", dict(msgs=1), delays=1, bound="Unsubscribe, one delay"),
  R("UnsubFull", dict(n=2), delays=1, bound="nobody reads, one delay"),
  R("ClientBeats", dict(d=1), reach=["beats"], bound="heart-beats"),
  R("Stats", dict(n=3), bound="3 calls"),
  R("Calls", dict(n=2,arb=0,blen=0), bound="2 calls, all options"),
  R("QueueHistory", dict(n=3), bound="3 steps"),
  R("QueueRace", dict(), delays=1, bound="2 messages, one delay"),
  R("TopicHistory", dict(n=3), bound="3 steps"),
  R("TopicRace", dict(), delays=1, bound="one delay"),
  R("TxHistory", dict(n=3,known=1,vers=1), bound="3 steps"),
  R("StorageServer", dict(n=3,pre=2), bound="a storage of the program"),
  R("ServerEnd", dict(), delays=1, bound="one delay"),
  R("EndToEnd", dict(n=3,arb=0,vers=1), bound="3 steps"),
  R("EndToEnd", dict(n=1,arb=0,vers=1), delays=1, bound="1 step, one delay"),
 ],
 bounds=["the histories and delays of the jobs; every pair of accesses on every explored schedule is compared, whether or not they are adjacent in it"],
 assumptions=CLI[:-1]+["happens-before by vector clocks over channels, mutexes, atomics, wait groups, once and the start of go-routines; timers order what was done before they were set", "the network orders nothing: operations inside the harness's connections add no order", "races among variables of the harness itself are ignored; the program's own use of one Message from several go-routines is not considered"],
 technique="symbolic execution of the real code from go/ssa with vector clocks over every access to memory, exhaustive delay-bounded scheduling, path conditions decided by z3")

prop("C26", "A received message can be read like a stream, and knows its ack mode",
 "Read and ReadByte of a Message yield the bytes of its body in order, each exactly once, in whatever mixture and with whatever buffer sizes they are called, then io.EOF; Read follows the io.Reader contract (never more than the buffer holds, nothing written behind what it reports, progress whenever bytes are left and the buffer is not empty). Reading one message never affects another. ShouldAck is true exactly for messages of subscriptions whose mode is not auto, and an ACK frame is sent for exactly these.",
 ["inputs", "histories"], "every body, every sequence of calls and buffer sizes within the bounds",
 "the tests never read a Message through these methods.",
 ["message.go", "ack.go", "subscription.go"],
 [("Message.Read, ReadByte, ShouldAck", "message.go"), ("AckMode", "ack.go")],
 ["results of Message.Read, ReadByte and ShouldAck"])
check("C26",
 quick=[
  J("MessageRead", dict(n=3), reach=["eof","byte","read","end"], bound="body of up to 4 arbitrary bytes, 3 calls on two messages, buffers of 0-3 bytes"),
  J("MessageRead", dict(n=3,blen=3,both=0,sizes=5), reach=["eof","byte","read","end"], bound="body of up to 3 bytes, 3 calls, buffers of 0-4 bytes"),
  J("ShouldAck", reach=["end"], bound="two subscriptions of any mode, versions 1.0-1.2, arbitrary ack header"),
 ],
 thorough=[
  J("MessageRead", dict(n=4,both=0), reach=["eof","byte","read","end"], bound="4 calls"),
  J("MessageRead", dict(n=4,blen=3), reach=["eof","byte","read","end"], bound="4 calls on two messages"),
  J("MessageRead", dict(n=3,blen=6,both=0,sizes=8), reach=["eof","byte","read","end"], bound="body of up to 6 bytes, buffers of 0-7 bytes"),
  J("ShouldAck", reach=["end"], bound="as quick"),
 ],
 bounds=["bodies of up to 6 bytes, 4 calls, buffers of up to 7 bytes"],
 assumptions=CLI[:-1], technique="symbolic execution of the real code from go/ssa, path conditions and assertions decided by z3, counterexamples replayed natively")

prop("C27", "The statistics of a connection are those of the wire",
 "With ConnOpt.WithStats, WritesSent is the number of frames the program's calls have sent since the connection was made (heart-beats and refused calls are not counted), and ReadsReceived the number of frames and heart-beats the server has sent after CONNECTED; without it both stay 0. CurrentWriteChanSize and CurrentReadChanSize are the numbers of frames that wait for the server to read or for the client to process them, and return to 0 when nothing is in their way.",
 ["histories"], "every history of calls and server frames within the bounds",
 "one existing test looks at the numbers once; kinds of calls, refused calls, heart-beats and stalls are not covered.",
 [CC, "conn_options.go", "subscription.go", "transaction.go"],
 [("Stats, the counters", CC), ("WithStats", "conn_options.go")],
 ["Conn.Stats and the bytes on the wire"])
check("C27",
 quick=[
  J("Stats", dict(n=3), reach=["gone","ignored","beat","counted","end"], bound="3 of 13 kinds of calls and server frames, with and without statistics"),
  J("StatsStalled", reach=["waiting","end"], bound="0-4 frames of the program and 0-3 of the server while the server does not read"),
 ],
 thorough=[
  J("Stats", dict(n=5), reach=["gone","ignored","beat","counted","end"], bound="5 events"),
  J("StatsStalled", reach=["waiting","end"], bound="as quick"),
 ],
 bounds=["5 events; channel capacities 3 and 4"],
 assumptions=CLI+["calls for a temporary queue (reply-to) and calls that time out are not considered"],
 note="bounded: 5 events; channel capacities 3 and 4")

prop("C28", "The end of a connection releases everything it held on the server",
 "Whatever a connection was doing (not yet connected, subscribed, with messages unacknowledged or returned, inside a transaction, behind with its traffic) and for whatever reason it ends (hang-up, read or write error, DISCONNECT, protocol error, a partial or malformed frame, missed heart-beats), the server closes it, ends every go-routine that served it, writes nothing to it any more, gives each of its unacknowledged messages to the next subscriber exactly once and ahead of later ones, and discards its open transactions. All other connections go on undisturbed.",
 ["histories", "schedules", "faults"], "every state, cause and simultaneous traffic within the bounds",
 "no test ends a connection of the server other than by DISCONNECT, or looks for what is left behind.",
 [SC, "server/processor.go", "server/client/subscription_list.go", "server/client/tx_store.go", "server/queue/queue.go", "server/topic/topic.go"],
 [("readLoop, processLoop, cleanupConn, releaseSubscriptions, Released", SC), ("DisconnectedOp, UnsubscribeOp, RequeueOp", "server/processor.go")],
 ["closing of the connection, number of go-routines, what the next subscriber and the others receive"])
check("C28",
 quick=[
  J("ServerEnd", reach=["end"], bound="9 states, 9 causes, versions 1.1 and 1.2, with and without messages of others at the same time"),
  J("ServerEnd", dict(vers=1,acks=1), delays=1, reach=["end"], bound="9 states, 9 causes, every schedule with one delay"),
  J("ServerMany", dict(n=300,many=5), reach=["end"], max_steps=60000000, bound="300 unacknowledged messages of a connection that ends"),
 ],
 thorough=[
  J("ServerEnd", dict(), delays=1, reach=["end"], bound="both versions and ack modes, one delay"),
  J("ServerEnd", dict(vers=1,acks=1), delays=2, reach=["end"], bound="every schedule with two delays (as far as the time budget goes)"),
  J("ServerMany", dict(n=300,many=5), reach=["end"], max_steps=60000000, bound="300 unacknowledged messages of a connection that ends"),
 ],
 bounds=["9 states, 9 causes, one connection that ends and one burst of two messages, two delays"],
 assumptions=SRV+["after a DISCONNECT that is answered the client closes the connection"])

prop("C29", "The server keeps accepting and serving connections",
 "Every connection the listener hands over is served, however early its client sends. A temporary error of Accept never ends the server or disturbs the connections there are: it tries again after a pause that starts at 5 ms, doubles with every further error up to 5 s, and starts at 5 ms again after a success. When the listener is closed no connection is accepted any more, and those that exist go on being served.",
 ["histories", "faults"], "every sequence of connections and errors within the bounds",
 "the tests use a listener that never fails.",
 ["server/processor.go", "server/server.go"],
 [("Listen", "server/processor.go"), ("Server.Serve", "server/server.go")],
 ["calls of Accept and their times, what the connections receive"])
check("C29",
 quick=[
  J("AcceptLoop", dict(n=4), reach=["accepted","failed","closed","end"], bound="4 connections or temporary errors in any order, then possibly a permanent error"),
  J("AcceptLoop", dict(n=3,long=12), reach=["accepted","failed","closed","end"], bound="3 connections or runs of 12 temporary errors"),
 ],
 thorough=[
  J("AcceptLoop", dict(n=6), reach=["accepted","failed","closed","end"], bound="6 connections or temporary errors"),
  J("AcceptLoop", dict(n=4,long=14), reach=["accepted","failed","closed","end"], bound="4 connections or runs of 14 errors"),
  J("AcceptLoop", dict(n=3), delays=1, reach=["end"], bound="3 events, every schedule with one delay"),
 ],
 bounds=["6 events, 28 errors in a row"],
 assumptions=SRV+[TIME, "ListenAndServe's own TCP listener is not modelled"])

prop("C30", "Client and server together deliver what the program was promised",
 "When programs use the client with the server of this repository, every message sent to a queue arrives at the receiving program exactly once with its body, content type and headers, in the order sent, is delivered again if the receiver refuses it or ends without acknowledging it, and never after it was acknowledged; a topic message reaches the subscription that exists. The messages of a transaction arrive together after Commit and never after Abort or Disconnect; a call with a receipt returns only when the server has the message; Unsubscribe and Disconnect return nil and leave nothing behind. With any heart-beat preferences of both sides an idle connection stays open.",
 ["histories", "inputs", "configurations", "schedules"], "every history of a sending and a receiving program, message contents and heart-beat settings within the bounds",
 "the tests connect client and server for fixed scenarios over TCP; histories with refusals, transactions and broken connections, and their schedules, are not enumerable by tests.",
 [CC, "subscription.go", "transaction.go", "message.go", "conn_options.go", SC, "server/processor.go", "server/queue/queue.go", "server/topic/topic.go", "frame/reader.go", "frame/writer.go"],
 [("Conn, Subscription, Transaction", CC), ("server connection", SC), ("requestProcessor", "server/processor.go")],
 ["the results of the client's calls and the messages in Subscription.C"])
check("C30",
 quick=[
  J("EndToEnd", dict(n=1), reach=["receipt","commit","abort","end"], bound="1 step of 8 kinds, message with arbitrary body byte, header and content type, 3 ack modes, 1.1 and 1.2"),
  J("EndToEnd", dict(n=2,arb=0), reach=["receipt","commit","abort","ack","nack","again","unsubscribe","end"], bound="2 steps"),
  J("EndToEnd", dict(n=1,arb=0,vers=1), delays=1, reach=["end"], bound="1 step, every schedule with one delay"),
  J("EndToEnd", dict(n=1,arb=0,vers=1,chunk=3), reach=["end"], bound="1 step, bytes arrive 3 at a time"),
  J("EndToEndBeats", dict(idle=1000,max=600), reach=["send","recv","end"], bound="client's intervals off or 1-600 ms, server's minimum 300-500 ms, 2 margins, one second idle"),
 ],
 thorough=[
  J("EndToEnd", dict(n=2,vers=1), reach=["receipt","commit","abort","ack","nack","again","end"], bound="2 steps, the first message arbitrary (as far as the time budget goes)"),
  J("EndToEnd", dict(n=3,arb=0), reach=["end"], bound="3 steps"),
  J("EndToEnd", dict(n=4,arb=0,vers=1), reach=["end"], bound="4 steps (as far as the time budget goes)"),
  J("EndToEnd", dict(n=2,arb=0,vers=1), delays=1, reach=["end"], bound="2 steps, every schedule with one delay (as far as the time budget goes)"),
  J("EndToEndBeats", dict(idle=1200), reach=["send","recv","end"], bound="client's intervals 1-999 ms, 1.2 seconds idle"),
 ],
 bounds=["one sender and one receiver at a time, 4 steps, one delay; heart-beat intervals of 300-999 ms over 1.2 s"],
 assumptions=STUBS+["client and server are connected by an in-memory connection of the harness that delivers bytes in order", "between two steps of a history the system is quiescent", TIME, "HeartBeatError is at least 1 ms and less than two thirds of the interval"])

prop("C31", "A failing queue storage harms nothing but the operation that failed",
 "A program may give the server a QueueStorage of its own, and its operations may fail at any time: the server goes on serving every client, no connection ends, every message that the storage has accepted and every message at a client is still delivered exactly once to a consumer that is ready (none is lost, delivered twice or delivered after its acknowledgement), and a subscription that was made or took its next message while the storage failed is given messages again as soon as it works. Only a message that the storage itself refused is not kept.",
 ["faults", "histories"], "every history of a publisher and a consumer within the bounds, with every operation of the storage failing or not",
 "no test of the repository uses a storage that fails; which operation fails at which point of a history is a choice per operation.",
 ["server/queue/queue.go", "server/queue/storage.go", "server/processor.go", SC],
 [("Queue.Subscribe, Enqueue, Requeue", "server/queue/queue.go"), ("requestProcessor.Listen", "server/processor.go")],
 ["a QueueStorage of the program", "frames on the connections of clients"])
check("C31",
 quick=[
  J("StorageFails", dict(n=4), reach=["enqueue","dequeue","requeue","ready","end"], bound="4 steps on one queue, one failure at any operation"),
  J("StorageFails", dict(n=4,fails=2), reach=["enqueue","dequeue","requeue","ready","end"], bound="4 steps on one queue, up to 2 failures"),
  J("StorageFails", dict(n=3,dests=2,fails=2), reach=["enqueue","dequeue","ready","end"], bound="3 steps on two queues, up to 2 failures"),
 ],
 thorough=[
  J("StorageFails", dict(n=4,dests=2,fails=2), reach=["enqueue","dequeue","requeue","ready","end"], bound="4 steps on two queues, up to 2 failures"),
  J("StorageFails", dict(n=5,fails=4), reach=["enqueue","dequeue","requeue","ready","end"], bound="5 steps on one queue, up to 4 failures"),
  J("StorageFails", dict(n=6,fails=2), reach=["enqueue","dequeue","requeue","ready","end"], bound="6 steps (as far as the time budget goes)"),
  J("StorageFails", dict(n=3), delays=1, reach=["end"], bound="3 steps, every schedule with one delay"),
 ],
 bounds=["one publisher and one consumer, 6 steps, 2 queues, 4 failures"],
 assumptions=STUBS+["an operation that fails has no effect on what is stored", "messages that waited in the storage because a Dequeue failed may be overtaken", "between two steps of a history the system is quiescent", TIME])

prop("C32", "Dial connects once, ends with its context, and leaves nothing when it fails",
 "Dial and DialWithContext make exactly one network connection, to the network and address given, and name the host of that connection in the host header unless the options name another. They succeed exactly when the connection is made and the server accepts the handshake; the context then no longer matters. Whenever they fail (the network refuses, the remote address has no host, an option is invalid, the handshake is refused, broken off, garbage or not answered by the deadline) they return an error, the network connection is closed and no go-routine is left; they stop dialling when the context ends and return by its deadline. ListenAndServe listens once on the TCP address of the server, or the default address, returns the error if it cannot, and otherwise serves.",
 ["faults", "inputs", "configurations"], "every outcome of dialling and of the handshake with arbitrary texts and times within the bounds",
 "no test dials anything but a healthy server on the loopback interface; the outcome and the time of each step are variables here.",
 [CC, "conn_options.go", "server/server.go"],
 [("Dial, DialWithContext, ConnectWithContext", CC), ("ListenAndServe", "server/server.go")],
 ["what the network is asked for", "results of the calls and the times at which they return", "bytes on the connection and its closing"])
check("C32",
 in_package=["std:net"],
 quick=[
  J("Dial", reach=["connected","refused","undialled","ended","silent"], bound="3 networks, addresses and remote hosts with 2 arbitrary bytes, 5 contexts (arbitrary deadline or cancellation of 1-1000 ms), 4 outcomes of dialling (arbitrary time), 4 kinds of remote address, 4 sets of options, 6 answers"),
  J("Listen", reach=["served","error"], bound="default and arbitrary address, function and method, Listen failing or not"),
 ],
 thorough=[
  J("Dial", dict(alen=4,hlen=4,bytes=2,span=100000), reach=["connected","refused","undialled","ended","silent"], bound="4 arbitrary bytes each, times of up to 100 s"),
  J("Dial", dict(alen=0,hlen=0), delays=1, reach=["connected","refused","undialled","ended","silent"], bound="every schedule with one delay (as far as the time budget goes)"),
  J("Listen", dict(alen=4), reach=["served","error"], bound="4 arbitrary bytes"),
 ],
 bounds=["texts of 4 arbitrary bytes, times of up to 100 s, one delay"],
 assumptions=STUBS+["the network is a stand-in: net.Dial, net.Listen and the methods of net.Dialer and net.ListenConfig end in functions of the harness (package net is otherwise the standard library's); other ways to the network are not covered", "the context does not end at the very moment at which dialling is done", TIME])
