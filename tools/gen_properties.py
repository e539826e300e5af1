#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Frames on the wire are exactly the standard JT/T 808 frame",
 "For every header (message id, terminal number of up to 12 digits including zero, any serial number, fragmented or not) and every body of 0 to 1023 bytes, encoding a message produces exactly the standard frame: one 0x7e at each end and none inside, big-endian 12-byte header (16 bytes when fragmented) with body length, encryption and fragment flags and BCD terminal number, the body, an XOR checksum, and 0x7d escaping of header, body and checksum. Decoding that frame returns the same header fields and the same body.",
 ["inputs"], "all header field values, all body contents and lengths 0..1023, both fragment modes, including every position at which 0x7d/0x7e can occur (body, header, checksum)",
 "The tests only encode and decode message bodies, once each with one value; no test builds or parses a whole frame, so escaping, checksum, header packing and their corner values are never executed.",
 ["protocol/message.go", "protocol/header.go", "protocol/property.go", "protocol/const.go", "protocol/helpers.go"],
 [("frame assembly and escaping", "protocol/message.go Message.Encode/write/computeChecksum"), ("unescape, checksum and header parse", "protocol/message.go Message.Decode"), ("header packing", "protocol/header.go"), ("BCD", "protocol/helpers.go stringToBCD/bcdToString")],
 ["Message.Encode", "Message.Decode"])

prop("C02", "Every message type keeps its standard body layout and round-trips",
 "For every supported message type and every assignment of field values the standard layout can represent (including hemisphere, optional and repeated fields, GB18030 text, dates from 2000 to 2099 and empty lists), encoding yields the standard byte layout and decoding those bytes yields the same field values. The same holds for every kind of location extra item: what was decoded can be read back, re-encoded and decoded again without change.",
 ["inputs"], "all representable field values of the 65 message types and 12 extra items",
 "There is one example per type with hand-picked values, checked only against itself; a layout change made on both sides, a boundary value, an optional field, a negative coordinate or an early date is not reached.",
 ["protocol/t808_0x*.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/params.go", "protocol/extra/*.go"],
 [("per-type Encode/Decode", "protocol/t808_0x*.go"), ("primitive readers and writers", "protocol/bufio.go"), ("time and geo helpers", "protocol/helpers.go"), ("extra items", "protocol/extra/*.go")],
 ["Entity.Encode", "Entity.Decode", "Message.Decode"])

prop("C03", "A damaged frame is rejected and never delivered as a message",
 "Decoding a byte string that does not start and end with 0x7e, or whose escape sequences, checksum or header are invalid, returns an error and yields no message; in particular changing any single byte of a valid frame's content never yields a decoded body. A frame that is intact but whose declared body length differs from the actual one, whose type is unknown, or whose body does not parse (it is cut short, or holds a date and time that does not exist, a location extra of the wrong size or, anywhere in a list, an item that is not valid), decodes to a header without a body.",
 ["inputs", "fault_sequences"], "all byte strings, in particular every single-byte change, truncation, insertion, swap and splice of valid frames",
 "No test feeds an invalid frame to the decoder.",
 ["protocol/message.go", "protocol/header.go"],
 [("delimiter, escape and checksum checks", "protocol/message.go Message.Decode"), ("header length checks", "protocol/header.go Header.Decode"), ("body length check", "protocol/message.go Message.Decode")],
 ["Message.Decode", "codec Receive"])

prop("C04", "No input bytes can crash or hang the decoder or the server",
 "Whatever bytes a peer sends, every decode entry point returns a result or an error without panicking or hanging, and a live server survives: other connections, already open or opened later, keep being served. The same holds for values taken from the peer and used later, such as an uploaded public key used for encryption.",
 ["inputs", "fault_sequences"], "all byte strings fed to message bodies, frames, streams and live connections",
 "The tests only feed well-formed bodies produced by the encoder itself.",
 ["protocol/message.go", "protocol/header.go", "protocol/t808_0x*.go", "protocol/extra/*.go", "protocol.go", "session_handler.go", "protocol/helpers.go"],
 [("length checks before every read", "protocol/bufio.go Reader"), ("frame sanity checks", "protocol/message.go Message.Decode"), ("errors close only the offending session", "session_handler.go HandleSession")],
 ["Entity.Decode", "Message.Decode", "codec Receive", "Server over a connection"])

prop("C05", "The message stream is independent of how the bytes are segmented",
 "However the byte stream of a connection is cut into reads, the codec delivers exactly the frames that were sent, each once and in order, and a delivered message never changes when later data arrives. A damaged frame costs exactly one error and the frames after it are still delivered intact if reading goes on; more than 65535 pending bytes without a frame end are refused with an error instead of being buffered without limit.",
 ["inputs", "schedules", "fault_sequences"], "all frame sequences and all segmentations of their concatenation, including one byte at a time, several frames per read and boundaries at escapes and delimiters",
 "No test reads from a stream at all.",
 ["protocol.go"],
 [("receive buffer and frame scanner", "protocol.go ProtocolCodec.Receive/readFromBuffer")],
 ["ProtocolCodec.Receive"])

prop("C06", "A message that does not fit is refused, never sent truncated or corrupted",
 "However large a body, text, parameter or list is, encoding either fails with an error or produces a frame that decodes to the message that was given: a body above 1023 bytes is refused, and so is a text, parameter or list too long for its length or count field (only text in a fixed-width field is cut to that width), or a message that lacks the key it should carry, while whatever fits is accepted. Sending such a message through a session reports the error to the caller and sends nothing, and the session stays usable.",
 ["inputs"], "all message sizes, including sizes just around 255/256, 1023/1024 and 65535/65536 bytes, with and without encryption",
 "Tests only use small values, far from every length limit.",
 ["protocol/message.go", "protocol/property.go", "protocol/t808_0x*.go", "session.go", "protocol.go"],
 [("body size limit", "protocol/property.go SetBodySize"), ("length and count fields", "protocol/t808_0x0104.go and the other list or text carrying types"), ("send path", "session.go Send")],
 ["Message.Encode", "Session.Send", "Session.Request", "Server.Broadcast"])

prop("C07", "Each received message reaches its handler exactly once and in order",
 "For every session, every decodable message for whose id a handler is registered is passed to that handler exactly once, with the session it arrived on and its content intact, in the order in which the messages arrived and never two at a time for one session; what the application keeps with a session (UserData) stays with it. Messages of different sessions never mix, and a message without a handler disturbs nothing.",
 ["schedules", "inputs", "histories"], "all message sequences on any number of concurrent sessions and all interleavings",
 "No test starts a server or registers a handler.",
 ["server.go", "session_handler.go", "session.go", "protocol.go"],
 [("receive loop", "session_handler.go HandleSession"), ("handler lookup", "server.go dispatchMessage/AddHandler")],
 ["message handlers", "terminal side of the connection"])

prop("C08", "Platform replies name exactly the message they answer",
 "Every intact message the platform cannot interpret (unknown id, wrong body length or unparsable body) is answered with exactly one general reply with result 'unsupported' and reaches no handler, and the session goes on (as long as the terminal reads its replies). Every reply issued for a message carries that message's serial number and id and the chosen result, and is addressed to the terminal number the terminal last used, including replies to its very first message.",
 ["inputs", "histories"], "all sequences of interpretable, uninterpretable and fragmented messages, all results and all terminal numbers",
 "No test exercises the reply path.",
 ["session_handler.go", "session.go", "protocol/t808_0x8001.go"],
 [("unsupported reply", "session_handler.go HandleSession"), ("reply", "session.go Reply"), ("terminal number tracking", "session.go message")],
 ["terminal side of the connection"])

prop("C09", "A panicking callback never takes down its session or the server",
 "If a message handler, an answer callback or the close handler panics, the process survives, the session on which it happened goes on processing its later messages, and all other sessions and the bookkeeping of closed sessions are unaffected.",
 ["fault_sequences", "schedules"], "any subset of handler, answer-callback and close-handler invocations panicking, on any number of sessions",
 "No test registers a handler, let alone a panicking one.",
 ["server.go", "session.go", "session_handler.go"],
 [("recover around handlers", "server.go dispatchMessage"), ("recover around answer callbacks", "session.go message"), ("recover around the close handler", "server.go handleClose")],
 ["message handlers", "answer callbacks", "close handler", "terminal side"])

prop("C10", "Answers reach the callback of exactly the request they answer",
 "When the terminal answers a pending request by quoting its serial number, the callback given with that request runs exactly once and receives that answer, no matter how soon the answer arrives or how many requests run concurrently. No callback ever receives an answer meant for another message, even after serial numbers have been reused, nor an answer from another session; a newer request of the same kind supersedes the older one (of requests issued concurrently, either may be the newer), and unsolicited or repeated answers invoke nothing.",
 ["schedules", "histories"], "all interleavings of concurrent requests, answers, duplicates and unanswered requests, across serial-number wrap-around",
 "No test issues a request.",
 ["session.go"],
 [("pending request table", "session.go addRequestContext/takeRequestContext"), ("answer matching", "session.go message"), ("request", "session.go Request")],
 ["request callbacks", "terminal side of the connection"])

prop("C11", "Sent messages carry unique serial numbers and arrive whole",
 "Every send that succeeds puts exactly one complete frame on the connection, carrying the serial number returned to the caller, the terminal's number and the content given at the time of the call; frames of concurrent senders are never interleaved, duplicated or lost while the session stays open, and one goroutine's sends arrive in their order. Serial numbers are never zero, and no two of any 255 consecutive messages of a session have the same one, whatever the concurrency.",
 ["schedules", "histories"], "all interleavings of Send, Reply, Request and Broadcast from any number of goroutines",
 "No test sends through a session.",
 ["session.go", "protocol.go"],
 [("serial number allocation", "session.go nextID"), ("send", "session.go Send and the link send queue"), ("codec send", "protocol.go ProtocolCodec.Send")],
 ["return values of Send/Reply/Request", "terminal side of the connection"])

prop("C12", "A session is registered until it closes, and its close is reported once",
 "From its first message until it closes a session can be looked up by its id. Whatever closes it (peer disconnect, damaged frame, a failing write, local close, idle timeout, stalled peer, server stop, at any moment including right after accept), the close handler is called exactly once for it, afterwards it can no longer be looked up, broadcasts no longer count it, and sending on it fails.",
 ["schedules", "fault_sequences", "histories"], "all close causes, alone and racing with each other, at every point of a session's life",
 "No test opens a session.",
 ["server.go", "session_handler.go", "session.go"],
 [("session table", "server.go sessions/GetSession"), ("close callback", "session_handler.go HandleSession AddCloseCallback"), ("cleanup", "server.go handleClose")],
 ["Server.GetSession", "close handler", "Server.Broadcast", "Session.Send"],
 [{"name": "sessions", "meaning": "open sessions by id", "where": "server.go Server"}])

prop("C13", "Stopping the server closes everything, and it can be started again",
 "When the server is stopped, running returns, no new connection is served, every open session is closed and its close handler has run by the time stop returns (for a connection just being accepted: right afterwards), and no session remains registered. A server that is running refuses to be run a second time; a stopped one, or one whose listening failed, can be run again and then serves normally; stopping a server that is not running does nothing.",
 ["schedules", "histories"], "stop at any moment, with any number of sessions in any state, repeated run/stop cycles, concurrent stops",
 "No test runs or stops a server.",
 ["server.go"],
 [("run/stop", "server.go Run/Stop"), ("session disposal", "link Manager.Dispose and server.go handleClose")],
 ["Server.Run", "Server.Stop", "close handler", "Server.GetSession", "terminal side"])

prop("C14", "Idle sessions time out, active sessions never do",
 "A session from which nothing is received for the configured keepalive time is closed, not more than one second before that time and at most two seconds after it. A session whose terminal keeps sending messages at intervals at least one second shorter is never closed by the timeout, whatever those messages are (with or without handler, fragments, unknown messages) and whatever other sessions do.",
 ["schedules", "histories", "configurations"], "all keepalive values, all patterns of message arrival times and kinds on any number of sessions",
 "No test uses the keepalive; it needs control of time.",
 ["server.go", "timer.go", "session_handler.go"],
 [("keepalive refresh", "server.go dispatchMessage / session_handler.go"), ("expiry", "timer.go checkExpirationQueue"), ("timeout action", "server.go handleReadTimeout")],
 ["close of the terminal side, in virtual time"])

prop("C15", "The countdown timer fires once per armed key, on time, never when disarmed",
 "For every history of arming, re-arming and removing keys, sequential or concurrent, the callback runs exactly once for each key whose latest arming was not followed by a removal or re-arming before its period ran out, at most one second before and two seconds after that period has passed since that latest arming, provided callbacks return promptly (while one takes long the others may be late, and are on time again afterwards). A removed key or a re-armed key's earlier arming never fires, and a changed period applies to armings made after the change.",
 ["schedules", "histories"], "all histories over any number of keys, including concurrent updates and removals of one key",
 "No test uses the timer; it needs control of time and concurrency.",
 ["timer.go"],
 [("expiration heap", "timer.go expirationQueue"), ("update/remove", "timer.go Update/Remove"), ("expiry loop", "timer.go checkExpirationQueue")],
 ["timer callback, in virtual time"],
 [{"name": "q, mapper", "meaning": "armed keys by expiry and by name", "where": "timer.go CountdownTimer"}])

prop("C16", "A fragmented upload is delivered once, complete, when its last part is in",
 "With automatic merging on, the handler for a fragmented upload is called exactly once, as soon as every fragment 1..N has been received in any order and with any repetition before completion, and reads exactly the fragments' payloads concatenated in sequence order. Every valid fragment is acknowledged once with success, nothing is delivered while a fragment is missing, a fragment numbered outside 1..N, or one that could not be stored, is acknowledged with failure and does not count, an upload that could not be merged is delivered when one of its fragments arrives again, and uploads that differ in terminal, message id or media id, even interleaved or sent over several connections, or a later upload reusing the id of a completed one, never mix.",
 ["inputs", "schedules", "histories"], "all arrival orders, repetitions, omissions and interleavings of the fragments of any number of uploads, of any size, including re-use of a media id",
 "The only test writes three parts out of order to the part store and never looks at the merged content, and never goes through a session.",
 ["session_handler.go", "multipart.go", "protocol/t808_0x0801.go"],
 [("fragment handling", "session_handler.go HandleSession"), ("part store", "multipart.go MultipartFile")],
 ["message handler", "terminal side of the connection"])

prop("C17", "The fragment store reports completeness truthfully and merges exactly",
 "For every history of writes to the store of one upload (identified by terminal, message id, media id and part count), it reports completeness exactly when every part 1..N has been written since the last merge, and merging returns exactly the concatenation of the latest content of each part in order, whatever was stored or merged before under the same or other identities. Querying or merging before anything was written fails cleanly, part numbers outside 1..N are refused, a write or merge that fails part-way (no space) changes nothing that was stored before. When the process is killed at any moment, a part that was being written is afterwards there with its old or its new content in full, or missing if it was before; an upload whose merge was interrupted while its result was being written is still complete; everything else is unchanged and completeness is still reported truthfully. All of it also works for an unprivileged process.",
 ["inputs", "histories", "crash_points", "configurations"], "all sequences of write, query and merge over several identities that differ in terminal, message, tag or count; a kill at every statement and in the middle of every file; privileged and unprivileged processes",
 "The only test does one merge in a fresh directory, as root, and does not look at the result.",
 ["multipart.go"],
 [("part files", "multipart.go Write/walkParts"), ("merge", "multipart.go Merge"), ("completeness", "multipart.go IsFull")],
 ["MultipartFile.Write/IsFull/Merge"])

prop("C18", "Encrypted bodies decrypt to what was sent and are never taken as plain",
 "A body encrypted for a key decrypts with the matching private key to exactly the original body, for every body that fits, and the frame is marked encrypted and does not contain the plain body. A frame marked encrypted is never delivered with a body unless it decrypts correctly: a missing or wrong key or altered ciphertext gives an error. A message to be encrypted is refused when it cannot be, never sent in the clear; a server accepts only 1024-bit keys and then serves encrypted and plain messages on the same session.",
 ["inputs", "configurations"], "all bodies and lengths that fit, 1024-bit keys, tampering anywhere in the ciphertext, key present, absent or wrong",
 "No test encrypts anything.",
 ["protocol/helpers.go", "protocol/message.go", "protocol.go", "server.go", "protocol/t808_0x0a00.go", "protocol/t808_0x8a00.go"],
 [("chunked OAEP", "protocol/helpers.go EncryptOAEP/DecryptOAEP"), ("flag handling", "protocol/message.go"), ("key selection", "protocol.go ProtocolCodec.Send/readFromBuffer"), ("key check", "server.go NewServer")],
 ["Message.Encode/Decode", "ProtocolCodec.Send/Receive", "NewServer"])

prop("C19", "Concurrent use of server, session and timer is free of data races",
 "Calling the public operations of a server, its sessions and the countdown timer from any number of goroutines (send, reply, request, close, key and server accessors, broadcast, lookup, handler registration, expiry changes, run and stop) while messages are received and sessions come and go involves no data race inside the library. Broadcasting one message to many sessions counts as such a use.",
 ["schedules"], "all interleavings of the public operations with reception, sending, timeouts and closing",
 "The tests are single-threaded and run without the race detector.",
 ["server.go", "session.go", "protocol.go", "timer.go", "session_handler.go", "protocol/message.go"],
 [("mutexes and atomics", "server.go mutex, session.go mux/atomics, timer.go mutex")],
 ["Go race detector"])

prop("C20", "A broadcast reaches every open session exactly once",
 "A broadcast delivers exactly one copy of the message, with that session's own terminal number and serial number, to every session that is open throughout the call, none to closed sessions, and returns the number of sessions that accepted it. One session that is closed or cannot accept the message never prevents delivery to the others.",
 ["schedules", "histories"], "all session populations, including sessions opening, closing or stalled during the broadcast",
 "No test broadcasts.",
 ["server.go", "session.go"],
 [("broadcast", "server.go Broadcast")],
 ["terminal sides of all connections", "return value of Broadcast"])

prop("C21", "A terminal that stops reading never blocks the platform",
 "Sending, replying, requesting and broadcasting never wait for a terminal: if its connection is stalled they return at once, and once its send queue is full they fail and the session is closed, releasing everything that waits on it. Other sessions, reception and the idle timeout are not delayed by a stalled terminal.",
 ["schedules", "fault_sequences"], "any set of stalled connections, any sending pattern",
 "No test has a connection, let alone a stalled one.",
 ["session.go", "server.go", "session_handler.go"],
 [("bounded send queue", "server.go Run (link queue) and session.go Send"), ("lock-free sending in broadcast", "server.go Broadcast")],
 ["return of the calls in virtual time", "terminal sides"])

prop("C22", "User-defined message and extra types work like the built-in ones",
 "A message type or location extra type registered by the application is decoded, dispatched to its handler, merged when fragmented, and encoded like a built-in one, and replacing a built-in type takes effect without crashing the server. Location reports that contain unknown extra items keep all known items, in order, wherever the unknown ones are.",
 ["inputs", "programs"], "all registrable ids and bodies, all mixtures of known and unknown extra items",
 "No test registers a type or sends an unknown extra item.",
 ["protocol/register.go", "protocol/extra/register.go", "protocol/extra/extra.go", "protocol/t808_0x0200.go", "protocol/message.go", "session.go"],
 [("type registry", "protocol/register.go Register"), ("extra registry", "protocol/extra/register.go Register"), ("unknown extra skipping", "protocol/t808_0x0200.go Decode")],
 ["Message.Decode", "message handlers", "T808_0x0200.Extras"])

prop("C23", "Typed parameters and flag bits read back what was set and nothing else",
 "A terminal parameter returns exactly the value that was set, in every typed form, and refuses to be read as a type longer than its data; it does not share memory with buffers passed to its setters or returned by its getters. Setting or clearing a flag bit of a status, area or section attribute, or a header property's body size, changes exactly that bit or size, for every value and bit position.",
 ["inputs"], "all parameter values of every type, all 16-bit header properties and sizes, all flag values and bit positions",
 "The tests use a few parameter values and no flag accessor with a nontrivial initial value.",
 ["protocol/params.go", "protocol/bit.go", "protocol/property.go", "protocol/t808_0x0200.go", "protocol/t808_0x8600.go", "protocol/t808_0x8606.go", "protocol/t808_0x8500.go"],
 [("parameter accessors", "protocol/params.go"), ("bit helpers", "protocol/bit.go"), ("property bits", "protocol/property.go")],
 ["accessor return values"])

prop("C24", "Resources held per peer are bounded and released",
 "After any number of sessions, uploads and failures have come and gone, the server holds no more goroutines, open files, registered sessions or armed timeouts than before; merged uploads leave no part files behind. One frame, whatever counts it claims, makes the decoder allocate at most 16 KB per byte received plus 256 KB.",
 ["histories", "inputs", "fault_sequences"], "all histories of sessions, uploads and failing uploads; all bodies with inflated count fields",
 "No test looks at resources or runs more than one operation.",
 ["server.go", "session_handler.go", "multipart.go", "timer.go", "protocol/t808_0x*.go"],
 [("close cleanup", "server.go handleClose"), ("file closing", "multipart.go Merge"), ("decoders", "protocol/t808_0x*.go")],
 ["goroutine profile", "/proc/self/fd", "temp directory", "allocation statistics"])

prop("C25", "Every operation of the library may be called from inside its callbacks",
 "A message handler, an answer callback, the close handler or a timer callback may itself call any public operation - send, reply, request, close the own or another session, broadcast, look up sessions, register handlers, arm or remove timers - and the call returns at once with the same effect as from outside. Message handlers, answer callbacks and timer callbacks may also stop the server or timer they belong to.",
 ["schedules", "histories"], "all operations inside all kinds of callback, on the own and on other sessions, nested (only Server.Stop inside the close handler is excluded)",
 "No test has a callback that calls back into the library.",
 ["server.go", "session.go", "timer.go", "session_handler.go"],
 [("answer callbacks", "session.go responseReceived"), ("close handler", "server.go handleClose"), ("timer callback", "timer.go"), ("dispatch", "server.go dispatchMessage"), ("upload dispatch", "session_handler.go")],
 ["return and effect of the calls made inside callbacks", "terminal sides"])

prop("C26", "A callback that takes long delays its own session only",
 "While a message handler, an upload handler, an answer callback or the close handler of one session, or of any number of sessions, is still running, every other session goes on without delay: its messages are dispatched, its uploads are merged and acknowledged, its requests are answered, its timeouts and closing happen on time, new connections are served, and broadcasts and sends - also to the session whose callback runs - return at once. Messages arriving for the session of the running handler are kept and handled afterwards, in order. Stop does not wait for message handlers or answer callbacks.",
 ["schedules", "fault_sequences"], "any number of callbacks of any kind that never return or take long, any traffic on the other sessions",
 "No test has two sessions or a callback that waits.",
 ["server.go", "session.go", "timer.go", "session_handler.go"],
 [("per-session dispatch", "session_handler.go HandleSession"), ("upload merging", "session_handler.go"), ("timeouts", "server.go handleReadTimeout"), ("closing", "server.go handleClose")],
 ["message handlers", "terminal sides", "return of the calls in virtual time"])

prop("C27", "What terminal and platform say through the library, the other side hears",
 "When a terminal and a server, both built on the library, talk over one connection - messages of every built-in type in both directions, requests and their answers, replies, broadcasts, media uploads in fragments, encrypted bodies after the keys were exchanged - then every message that one side could encode or send arrives on the other side exactly once, in order, unchanged later, with the same header fields (the terminal's number, the serial number returned to the sender) and equal content; what fits is never refused, callbacks get exactly the answers to their requests, and the connection stays open.",
 ["inputs", "histories", "schedules"], "all conversations of any length between any number of terminals and a server, with all message types, plain and encrypted, with and without automatic merging, however the bytes are cut",
 "The tests encode and decode one message of each type and never connect a terminal to a server.",
 ["server.go", "session.go", "session_handler.go", "protocol.go", "protocol/message.go", "protocol/header.go"],
 [("encoding and decoding", "protocol/message.go"), ("stream", "protocol.go ProtocolCodec"), ("dispatch", "session_handler.go HandleSession"), ("sending", "session.go send")],
 ["message handlers and answer callbacks", "messages delivered by the terminal's codec"])

prop("C28", "Readers and writers of message bodies are exact and never run past the data",
 "What message types, built-in or of the application, write with a Writer is exactly the concatenation of the standard forms of the items: big-endian integers, bytes and GB18030 text as they are or cut or zero-padded to a given width, dates and times as six BCD bytes in local time, and one-byte lengths, of which more than 255 is refused. A Reader returns exactly those values again in order and the rest at the end; an item that is longer than what is left is refused, and six bytes that are not an existing date and time from 2000 to 2099 are refused. Different readers and writers, in the same or in concurrent goroutines, never influence each other, and what was passed in is neither changed nor remembered.",
 ["inputs", "histories"], "all sequences of items, widths and cuts; all six-byte dates",
 "No test uses a Reader or Writer directly; the messages they encode have few values and sizes.",
 ["protocol/bufio.go", "protocol/helpers.go"],
 [("writer", "protocol/bufio.go Writer"), ("reader", "protocol/bufio.go Reader"), ("dates", "protocol/helpers.go toBCDTime/fromBCDTime")],
 ["results of every Reader and Writer operation"])

prop("C29", "Servers in one process are independent of each other",
 "Any number of servers may live in one process, created, running, stopped and run again at any time. A message is handled only by the handlers registered with the server it arrived at, with a session that names that server; each server keeps its own keepalive time, merging setting, private key and close handler; looking up, broadcasting and stopping concern its own sessions only; and whatever happens on one server - traffic, slow handlers, stops, new handlers, foreign keys - neither changes nor delays anything on the others.",
 ["histories", "schedules"], "all histories of any number of servers with any options, terminals and traffic",
 "No test runs a server, let alone two.",
 ["server.go", "session.go", "session_handler.go", "protocol.go", "timer.go"],
 [("server state", "server.go NewServer"), ("session registry", "session_handler.go HandleSession"), ("handlers", "server.go AddHandler"), ("keys", "protocol.go NewCodec"), ("timeouts", "timer.go NewCountdownTimer")],
 ["message and close handlers of every server", "terminal sides of every connection", "lookups and broadcast counts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
