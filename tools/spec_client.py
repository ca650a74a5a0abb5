from spec import *
from spec_frame import STUBS

CLI = STUBS + [
 "the client runs on an in-memory connection of the harness, which plays the server; it delivers bytes in order and accepts writes at once unless the harness says otherwise",
 "goroutines switch only at channel, mutex and atomic operations (C25 shows that nothing else orders memory)",
]
HIST = "between two steps of a history the client is quiescent; schedules inside a step are covered as far as the delay bound of the job says"
TIME = "code takes no time: only timers and the harness's own waiting let virtual time pass"

def cli(id, title, statement, over, text, why, files, mech, observe):
    prop(id, title, statement, over, text, why, files, mech, [observe])

CONN, SUB, TX, OPT = "conn.go", "subscription.go", "transaction.go", "conn_options.go"

cli("C07", "Connect sends what the options ask for and believes only a valid CONNECTED",
 "Connect sends exactly one CONNECT (or STOMP) frame whose headers are those the options ask for, and nothing if an option is invalid; the buffer sizes given are the ones used. It succeeds exactly when the server answers with a complete CONNECTED frame of a supported version and a well-formed heart-beat header; then Version, Session, Server and the response headers are those of the answer. Otherwise it returns an error (the server's own message after an ERROR frame), by the deadline of its context, and leaves no go-routine behind.",
 ["inputs", "configurations"], "every combination of options with arbitrary texts, every answer of the server within the bounds",
 "the tests use a few option sets and answers; arbitrary version texts, partial answers and invalid options are not reached.",
 [CONN, OPT, "version.go", "errors.go", "frame/heartbeat.go"],
 [("ConnectWithContext", CONN), ("newConnOptions, NewFrame", OPT), ("ParseHeartBeat", "frame/heartbeat.go")],
 "bytes the client writes, the results of Connect, the properties of Conn")
check("C07",
 quick=[
  J("ConnOptions", reach=["connected","invalid"], bound="every combination of command, host (4), heart-beat, login, versions (4) and up to 2 custom headers, texts of up to 2 arbitrary bytes"),
  J("ConnBuffers", reach=["end"], bound="write buffer larger or smaller than the frames, channel capacities 0-2"),
  J("ConnAnswer", reach=["connected","refused"], bound="CONNECTED with arbitrary version (3 bytes), session, server and header, ERROR, other frames, heart-beat of 4 arbitrary bytes, 5 arbitrary bytes, a cut at every position, silence until an arbitrary deadline, an arbitrary write error"),
 ],
 thorough=[
  J("ConnOptions", dict(headers=3,hb=120), reach=["connected","invalid"], bound="3 custom headers, heart-beats of 0-120 ms"),
  J("ConnBuffers", reach=["end"], bound="as quick"),
  J("ConnAnswer", dict(ver=4,hb=6,bytes=8), reach=["connected","refused"], bound="4 version bytes, 6 heart-beat bytes, 8 arbitrary bytes"),
 ],
 bounds=["texts of up to 2 bytes without those that need escaping, up to 3 custom headers, version texts of 4 bytes, heart-beat headers of 6 bytes, garbage of 8 bytes"],
 assumptions=CLI+["Dial's TCP connection is not modelled: Connect is given a connection"])

cli("C08", "The client keeps the heart-beats it negotiated",
 "After a handshake in which the client offered cx,cy and the server answered sx,sy, the client is never silent for longer than max(cx,sy) when neither is 0, and sends no heart-beats when sy is 0. It takes the server for dead exactly when the server has sent nothing at all, not even part of a frame, for (max(sx,cy) + HeartBeatError) times the grace multiplier, and never when sx or cy is 0. Then the connection is closed and every subscription is told.",
 ["inputs", "schedules", "configurations"], "all intervals, error margins and multipliers within the bounds, traffic at any time",
 "the tests hardly let a heart-beat interval pass; the boundaries are reached only at particular times.",
 [CONN, OPT, "frame/heartbeat.go"],
 [("ConnectWithContext (timeouts)", CONN), ("processLoop's timers, activityReader", CONN)],
 "times of the client's writes and of its closing the connection")
check("C08",
 quick=[
  J("ClientBeats", dict(d=2), reach=["beats","none","unable"], bound="server interval 0-99 ms, 5 client intervals, 3 margins, a SEND at an arbitrary time, 3 intervals"),
  J("ClientTimeout", dict(d=2), reach=["dropped","none"], bound="server interval 0-99 ms, 5 client intervals, 3 margins, multipliers 1-3; 2 signs of life (4 kinds) at arbitrary times, then silence"),
 ],
 thorough=[
  J("ClientBeats", dict(d=3,beats=5), reach=["beats","none","unable"], bound="server interval 0-999 ms, 5 intervals"),
  J("ClientTimeout", dict(d=3,n=3), reach=["dropped","none"], bound="server interval 0-999 ms, 3 signs of life"),
 ],
 bounds=["server intervals of up to 3 digits, client intervals 0, 1, 99, 500.999 ms and one minute, up to 5 intervals or 3 signs of life"],
 assumptions=CLI+[TIME, "the margin is at least the server's interval or at most half of it (in between the client beats far more often than agreed)"])

cli("C09", "Every call sends exactly the frame it stands for",
 "Each call of Conn, Transaction and Subscription sends exactly one frame with the command, headers and body its arguments and options stand for (ACK and NACK in the form of the negotiated version, transaction headers in transactions, content-length unless switched off), in the order of the calls, and never mixed with another call's frame. A call that has to fail (a wrong option, a message that was not received or lacks the header needed, NACK in STOMP 1.0 or of an auto subscription, a completed transaction or subscription, a closed connection) returns an error and sends nothing.",
 ["histories", "inputs", "schedules"], "every history of calls and arbitrary arguments within the bounds",
 "the tests check single calls with fixed arguments; what a call sends depends on version, ack mode, options and the calls before it.",
 [CONN, SUB, TX, "send_options.go", "subscribe_options.go", "message.go", "ack.go"],
 [("Send, Subscribe, Ack, Nack, Begin, createSendFrame, createAckNackFrame", CONN), ("Transaction", TX), ("Unsubscribe", SUB)],
 "bytes the client writes, results of the calls")
ALLR = ["send","subscribe","begin","end"]
check("C09",
 quick=[
  J("Calls", dict(n=1,arb=9,blen=2), reach=["send","subscribe","begin","disconnect","end"], bound="1 call, every argument arbitrary"),
  J("Calls", dict(n=2,arb=1,blen=1), reach=["send","subscribe","begin","message","txsend","txend","unsubscribe","disconnect","end"], bound="2 calls, all options, one argument arbitrary, versions 1.0-1.2"),
  J("Calls", dict(n=1,script=20306,arb=1,blen=1), reach=["ack","auto","nack10","txsend","end"], bound="Subscribe, MESSAGE, Begin, then 1 call, one argument arbitrary"),
  J("Calls", dict(n=2,script=203,arb=0,blen=0,opts=2), reach=["ack","auto","nack10","end"], bound="Subscribe, MESSAGE, then 2 calls"),
  J("Calls", dict(n=2,script=6,arb=0,blen=1), reach=["txsend","txend","end"], bound="Begin, then 2 calls"),
  J("Calls", dict(n=2,script=13,arb=0), reach=["end"], bound="Disconnect, then 2 calls"),
  J("CallOrder", delays=1, reach=["end"], bound="2 go-routines with 2 calls each, heart-beats in between, every schedule with one delay"),
  J("ClientLong", dict(n=400,long=4), reach=["end"], max_steps=60000000, bound="400 transactions after one another"),
  J("ClientLong", dict(n=400,long=5), reach=["end"], max_steps=60000000, bound="a body of 20,000 bytes"),
 ],
 thorough=[
  J("Calls", dict(n=3,arb=0,blen=0), reach=ALLR, bound="3 calls, all options"),
  J("Calls", dict(n=2,arb=3,blen=1), reach=ALLR, bound="2 calls, three arguments arbitrary"),
  J("Calls", dict(n=2,script=20306,arb=0,blen=1,opts=2), reach=["ack","auto","nack10","txsend","txend","end"], bound="Subscribe, MESSAGE, Begin, then 2 calls"),
  J("Calls", dict(n=1,script=20306,arb=2,blen=1), reach=["ack","auto","nack10","txsend","end"], bound="Subscribe, MESSAGE, Begin, then 1 call, two arguments arbitrary"),
  J("Calls", dict(n=1,script=2031203), reach=["end"], bound="Subscribe, MESSAGE, Unsubscribe, MESSAGE, then 1 call"),
  J("Calls", dict(n=2,script=2030203,arb=0,opts=1), reach=["ack","end"], bound="two subscriptions with a message each, then 2 calls"),
  J("Calls", dict(n=3,script=6,arb=0,blen=0,opts=2), reach=["txsend","txend","end"], bound="Begin, then 3 calls"),
  J("CallOrder", dict(g=3,k=2), delays=1, reach=["end"], bound="3 go-routines with 2 calls each, one delay"),
  J("CallOrder", dict(g=2,k=2), delays=2, reach=["end"], bound="2 go-routines with 2 calls each, two delays"),
  J("ClientLong", dict(n=400,long=4), reach=["end"], max_steps=60000000, bound="400 transactions after one another"),
  J("ClientLong", dict(n=400,long=5), reach=["end"], max_steps=60000000, bound="a body of 20,000 bytes"),
 ],
 bounds=["400 calls for fixed histories","up to 5 calls after one another, arbitrary texts of 1 byte, bodies of up to 2 bytes; 3 go-routines with 2 calls each and two delays"],
 assumptions=CLI+[HIST, "ids the program chooses for its subscriptions are different"])

cli("C10", "A call that asks for a receipt succeeds exactly when its own receipt comes",
 "Send with a receipt, CommitWithReceipt, AbortWithReceipt and Disconnect return nil exactly when the RECEIPT with the id they asked for arrives in time. No other frame, and no receipt with any other id, releases them; at the end of their timeout they return that timeout's error, after an ERROR frame the server's message, and when the connection ends an error. Requests under way at the same time, late and repeated receipts do not disturb one another, and a Send that times out before its frame is on its way is never sent.",
 ["inputs", "histories", "schedules"], "every sequence of frames, receipts, pauses and losses within the bounds",
 "the tests answer every request at once and with the right id.",
 [CONN, TX, "send_options.go", "errors.go"],
 [("processLoop (receipts, setReceipt)", CONN), ("readReceipt, sendRequest", CONN), ("commit, abort", TX)],
 "results of the calls, the times at which they return, bytes the client writes")
check("C10",
 quick=[
  J("Receipts", dict(n=2,req=2), reach=["ok","late","other","error","lost","timeout","end"], bound="2 requests of 5 kinds, 2 events: receipts of either, receipts with up to 2 arbitrary bytes, arbitrary pauses, MESSAGE, heart-beat, ERROR, loss; versions 1.0 and 1.2"),
  J("Receipts", dict(n=3,req=1), reach=["ok","late","other","error","lost","timeout","end"], bound="1 request, 3 events"),
  J("Receipts", dict(n=1,req=1), delays=1, reach=["end"], bound="1 request, 1 event, every schedule with one delay"),
  J("ReceiptRace", delays=2, reach=["end"], bound="2 requests at the same time, answered in any order, every schedule with 2 delays"),
  J("ReceiptStall", reach=["timeout","disconnect","end"], bound="a server that stops reading for an arbitrary time, 3 kinds of calls"),
  J("Route", dict(n=2,subs=1,mores=1,vers=1), reach=["message","receipt","alike","nobody","end"], bound="subscriptions whose ids look like receipts"),
  J("ClientLong", dict(n=400,long=2), reach=["end"], max_steps=60000000, bound="400 receipts after one another"),
  J("ClientLong", dict(n=400,long=3), reach=["end"], max_steps=60000000, bound="400 requests under way at the same time"),
  J("ClientLong", dict(n=60,long=6), reach=["end"], max_steps=60000000, bound="60 requests under way at the same time, with receipts the program chose alike"),
 ],
 thorough=[
  J("Receipts", dict(n=3,req=2), reach=["ok","late","other","error","lost","timeout","end"], bound="2 requests, 3 events"),
  J("Receipts", dict(n=2,req=3,kinds=3), reach=["ok","late","other","error","lost","timeout","end"], bound="3 requests, 2 events"),
  J("Receipts", dict(n=2,req=1), delays=1, reach=["end"], bound="1 request, 2 events, one delay"),
  J("Receipts", dict(n=1,req=1), delays=2, reach=["end"], bound="1 request, 1 event, two delays"),
  J("ReceiptRace", dict(req=3), delays=2, reach=["end"], bound="3 requests, two delays"),
  J("ReceiptRace", delays=3, reach=["end"], bound="2 requests, three delays"),
  J("ReceiptStall", delays=1, reach=["timeout","disconnect","end"], bound="as quick, one delay"),
  J("Route", dict(n=3,subs=1,mores=1,vers=1), reach=["message","receipt","alike","nobody","end"], bound="subscriptions whose ids look like receipts, 3 events"),
  J("ClientLong", dict(n=400,long=2), reach=["end"], max_steps=60000000, bound="400 receipts after one another"),
  J("ClientLong", dict(n=400,long=3), reach=["end"], max_steps=60000000, bound="400 requests under way at the same time"),
  J("ClientLong", dict(n=60,long=6), reach=["end"], max_steps=60000000, bound="60 requests under way at the same time, with receipts the program chose alike"),
 ],
 bounds=["400 requests for fixed histories","up to 3 requests and 3 events, receipt ids of up to 2 arbitrary bytes, pauses of 1-100 ms around timeouts of 50 and 70 ms, 3 delays"],
 assumptions=CLI+[HIST, TIME, "no heart-beats (a transaction's receipt has the heart-beat interval as its timeout)"])

cli("C11", "Every message reaches the subscription it is for, once, in order and unchanged",
 "A MESSAGE frame is delivered, with its headers, body, destination and content type unchanged, exactly once and in the order of arrival, to the subscription whose id it carries and to no other, whatever ids the program and the client have chosen, and messages for unknown subscriptions are ignored. A subscription that is read slowly makes the client stop reading from the server but loses nothing; what the program sends, heart-beats and receipts do not wait for it unless they have to be read behind its messages. Consumers that send frames for the messages they get never dead-lock the client.",
 ["inputs", "histories", "schedules"], "every sequence of frames and any ids within the bounds; consumers of any speed",
 "the tests use one subscription that is read at once; collisions of ids and full channels are not reached.",
 [CONN, SUB, "message.go"],
 [("processLoop (channels, deliveries)", CONN), ("Subscription.readLoop", SUB)],
 "messages in the channel C of each subscription, bytes the client writes")
check("C11",
 quick=[
  J("Route", dict(n=2,vers=1,mores=2), reach=["message","receipt","alike","nobody","end"], bound="2 subscriptions with ids of the client, arbitrary digits or up to 2 arbitrary bytes; 2 events: MESSAGE with arbitrary body, MESSAGE for nobody, requests, Unsubscribe, receipts"),
  J("Route", dict(n=3,subs=1,vers=1,mores=1), reach=["message","receipt","alike","nobody","end"], bound="1 subscription, 3 events"),
  J("Route", dict(n=1,subs=1), reach=["message","nobody","end"], bound="1 event, arbitrary headers, versions 1.0-1.2"),
  J("SlowReader", dict(n=24), reach=["end"], bound="0-24 messages for a subscription that is not read, then read at once or alternately"),
  J("SlowReader", dict(n=4), delays=1, reach=["end"], bound="0-4 messages, every schedule with one delay"),
  J("Chatty", dict(n=20), reach=["end"], bound="1-2 consumers that send 2 frames for each of 20 messages, channels of capacity 1"),
  J("Chatty", dict(n=4), delays=1, reach=["end"], bound="4 messages, every schedule with one delay"),
  J("ClientLong", dict(n=400,long=0), reach=["end"], max_steps=60000000, bound="400 messages for one subscription"),
  J("ClientLong", dict(n=400,long=1), reach=["end"], max_steps=60000000, bound="400 subscriptions"),
  J("ClientLong", dict(n=400,long=5), reach=["end"], max_steps=60000000, bound="a message of 20,000 bytes"),
 ],
 thorough=[
  J("Route", dict(n=2), reach=["message","receipt","alike","nobody","end"], bound="2 subscriptions, 2 events, arbitrary headers, 3 versions"),
  J("Route", dict(n=3,vers=1,mores=1), reach=["message","receipt","alike","nobody","end"], bound="2 subscriptions, 3 events"),
  J("Route", dict(n=4,subs=1,vers=1,mores=1), reach=["message","receipt","alike","nobody","end"], bound="1 subscription, 4 events"),
  J("Route", dict(n=2,subs=1,mores=1,vers=1,chunk=3), reach=["message","end"], bound="the bytes arrive 1-3 at a time"),
  J("Route", dict(n=1,mores=1,vers=1), delays=1, reach=["message","end"], bound="1 event, one delay"),
  J("SlowReader", dict(n=48), reach=["end"], bound="0-48 messages"),
  J("SlowReader", dict(n=2), delays=2, reach=["end"], bound="0-2 messages, two delays"),
  J("Chatty", dict(n=60,per=3), reach=["end"], bound="60 messages, 3 frames each"),
  J("Chatty", dict(n=22,per=1), delays=1, reach=["end"], bound="22 messages, one delay"),
  J("Chatty", dict(n=3,per=2), delays=2, reach=["end"], bound="3 messages, two delays"),
  J("ClientLong", dict(n=400,long=0), reach=["end"], max_steps=60000000, bound="400 messages for one subscription"),
  J("ClientLong", dict(n=400,long=1), reach=["end"], max_steps=60000000, bound="400 subscriptions"),
  J("ClientLong", dict(n=400,long=5), reach=["end"], max_steps=60000000, bound="a message of 20,000 bytes"),
 ],
 bounds=["400 messages or subscriptions for fixed histories","2 subscriptions with ids of up to 2 bytes, 4 events, bodies of 2 bytes, 48 messages to an unread subscription, two delays"],
 assumptions=CLI+[HIST, "ids the program chooses for its subscriptions are different and not empty"])

cli("C12", "When a connection ends everything that waits for it is released",
 "However a connection ends (end of input, a read or write error, garbage, an ERROR frame, a RECEIPT without id, a dead server, Disconnect, MustDisconnect), every call under way returns, with an error unless its answer came before, every subscription's channel gets what had arrived, then exactly one error, and is closed, the underlying connection is closed and the client's go-routines end. Afterwards every call fails without blocking and nothing more is sent, while Disconnect and MustDisconnect return nil.",
 ["fault_sequences", "schedules", "histories"], "every combination of pending calls and causes within the bounds, every schedule within the delay bound",
 "the tests end connections with nothing pending; most combinations of a pending call and a cause are not reached.",
 [CONN, SUB, TX],
 [("processLoop's end, MustDisconnect, Disconnect", CONN), ("sendRequest, readReceipt", CONN), ("Subscription.readLoop, closeChannel", SUB)],
 "results of all calls, contents of the channels, go-routines left, bytes written")
check("C12",
 quick=[
  J("Loss", dict(acts=3), reach=["end"], bound="3 of 7 activities under way, 10 causes"),
  J("Loss", dict(acts=1), delays=1, reach=["end"], bound="1 activity, 10 causes, every schedule with one delay"),
  J("LossStalled", reach=["end"], bound="3-4 calls of 5 kinds that wait for a server that does not read, 3 causes"),
  J("LossStalled", dict(calls=3), delays=1, reach=["end"], bound="calls of 3 kinds, every schedule with one delay"),
  J("Receipts", dict(n=2,req=1), reach=["error","lost","end"], bound="requests that wait while the connection ends"),
 ],
 thorough=[
  J("Loss", dict(acts=4), reach=["end"], bound="4 activities, 10 causes"),
  J("Loss", dict(acts=2), delays=1, reach=["end"], bound="2 activities, 10 causes, one delay"),
  J("Loss", dict(acts=1), delays=2, reach=["end"], bound="1 activity, 10 causes, two delays"),
  J("LossStalled", delays=1, reach=["end"], bound="calls of 5 kinds, one delay"),
  J("LossStalled", dict(calls=3), delays=2, reach=["end"], bound="calls of 3 kinds, two delays"),
 ],
 bounds=["up to 4 activities under way, two delays"],
 assumptions=CLI+[TIME, "Close makes Read and Write of the underlying connection return", "the program reads the channels of its subscriptions in the end"])

cli("C13", "Unsubscribe ends a subscription cleanly, whatever happens at the same time",
 "Unsubscribe sends exactly one UNSUBSCRIBE frame (none for a reply-to subscription, and none when an option fails, which changes nothing) and returns nil when the server answers, after which the channel has received every message that came before the answer, none that came after, and is closed without an error. It returns at its timeout when the server does not answer or nobody reads, and when the connection ends; a second Unsubscribe, even at the same time, fails and sends nothing. Other subscriptions and the connection are not disturbed.",
 ["schedules", "histories", "inputs"], "every schedule within the delay bound of Unsubscribe, messages, answers, timeouts and losses",
 "the races between Unsubscribe, a late answer, messages and the end of the connection are not reached by tests.",
 [SUB, CONN],
 [("Unsubscribe, closeChannel, readLoop", SUB), ("processLoop (unsubscribing)", CONN)],
 "results of Unsubscribe, contents of the channels, bytes written")
check("C13",
 quick=[
  J("Unsub", dict(msgs=2), reach=["end"], bound="0-2 messages before and after UNSUBSCRIBE, one or two callers, 8 ways to end"),
  J("Unsub", dict(msgs=1), delays=1, reach=["end"], bound="0-1 messages, every schedule with one delay"),
  J("UnsubFull", reach=["end"], bound="0-20 messages that nobody reads, with and without an answer"),
  J("UnsubFull", dict(n=2), delays=1, reach=["end"], bound="0-2 messages, every schedule with one delay"),
  J("UnsubOpts", reach=["reply","options"], bound="reply-to subscriptions, failing options, arbitrary headers"),
 ],
 thorough=[
  J("Unsub", dict(msgs=2), delays=1, reach=["end"], bound="0-2 messages, one delay"),
  J("Unsub", dict(msgs=0), delays=2, reach=["end"], bound="no messages, two delays"),
  J("Unsub", dict(msgs=1), delays=2, reach=["end"], bound="0-1 messages, two delays"),
  J("UnsubFull", dict(n=40), reach=["end"], bound="0-40 messages"),
  J("UnsubFull", dict(n=2), delays=2, reach=["end"], bound="0-2 messages, two delays"),
  J("UnsubOpts", delays=1, reach=["reply","options"], bound="as quick, one delay"),
 ],
 bounds=["2 messages before and 2 after UNSUBSCRIBE, 40 unread messages, two delays"],
 assumptions=CLI+[TIME, "Unsubscribe may return nil when the connection is lost while it waits"])

cli("C14", "Ids the client gives are unique",
 "The ids the client gives to subscriptions, transactions and receipts are never empty and never given twice in a process, however many connections and go-routines ask for them at the same time, and are the ones that appear on the wire. Two requests that wait at the same time never have the same receipt, whatever ids and receipts the program chooses itself.",
 ["schedules", "inputs"], "every schedule within the delay bound, any ids the program chooses",
 "uniqueness under concurrency and against the program's own ids cannot be sampled by tests.",
 ["id.go", CONN, TX, SUB, "send_options.go"],
 [("allocateId", "id.go"), ("setReceipt in processLoop", CONN)],
 "ids in the results of calls and on the wire")
check("C14",
 quick=[
  J("Ids", dict(g=3,ops=2), reach=["end"], bound="3 go-routines with 2 requests of 4 kinds each on 2 connections"),
  J("Ids", dict(g=3,ops=1), delays=1, reach=["end"], bound="3 go-routines with 1 request each, every schedule with one delay"),
  J("Route", dict(n=3,subs=1,vers=1,mores=1), reach=["message","receipt","end"], bound="a subscription with an arbitrary id, 3 requests, receipts and messages"),
  J("ClientLong", dict(n=400,long=1), reach=["end"], max_steps=60000000, bound="400 subscriptions"),
  J("ClientLong", dict(n=400,long=2), reach=["end"], max_steps=60000000, bound="400 receipts"),
  J("ClientLong", dict(n=400,long=4), reach=["end"], max_steps=60000000, bound="400 transactions"),
 ],
 thorough=[
  J("Ids", dict(g=2,ops=2), delays=1, reach=["end"], bound="2 go-routines with 2 requests each, one delay"),
  J("Ids", dict(g=3,ops=1), delays=2, reach=["end"], bound="3 go-routines with 1 request each, two delays"),
  J("Route", dict(n=4,subs=1,vers=1,mores=1), reach=["message","receipt","end"], bound="4 events"),
  J("ClientLong", dict(n=400,long=1), reach=["end"], max_steps=60000000, bound="400 subscriptions"),
  J("ClientLong", dict(n=400,long=2), reach=["end"], max_steps=60000000, bound="400 receipts"),
  J("ClientLong", dict(n=400,long=4), reach=["end"], max_steps=60000000, bound="400 transactions"),
 ],
 bounds=["400 ids of each kind for fixed histories","3 go-routines, 2 connections, two delays"],
 assumptions=CLI+["fewer than 2^64 ids"])
