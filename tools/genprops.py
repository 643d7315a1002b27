#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Chunk reader delivers exactly the peer's messages, whole, once, in order",
  "For every well-formed chunk stream, however its messages are interleaved over chunk streams and however the transport fragments or delays the bytes, the chunk reader delivers each message exactly once, in the order in which the messages complete on the wire, with the chunk stream id, type id, message stream id, declared length and payload bytes the peer sent. A slow or stalled consumer only delays delivery: nothing is lost, duplicated, reordered or altered, before or after it is handed out. Only Set Chunk Size messages are absorbed instead of delivered.",
  ["inputs", "schedules", "fault_sequences"], "all interleavings of messages over chunk streams 2..62 and 64..65599, all read fragmentations (including empty reads), all consumer speeds",
  "Tests read at most two hand-written messages on two streams from a bytes.Buffer that never fragments a read, with the pass-through normalizer and a consumer that is always ready.",
  ["chunk/default_reader.go", "chunk/builder.go", "chunk/default_normalizer.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/header.go", "spec/binary.go", "spec/bytes.go"],
  [("per-chunk-stream builders collect partial payloads until the declared length is reached", "chunk/default_reader.go Recv, chunk/builder.go"), ("io.ReadFull based primitive reads", "spec/binary.go")],
  ["Reader.Chunks()", "Reader.Errs()"],
  [("builders", "partial message per chunk stream", "chunk/default_reader.go"), ("readSize", "current inbound chunk size", "chunk/default_reader.go")])

p("C02", "Compressed chunk headers are restored from the same chunk stream",
  "A message that starts with a compressed chunk header is delivered with every field that header omits equal to that field of the preceding chunk on the same chunk stream, whatever has been received on other chunk streams in between. That is the message stream id for a header carrying timestamp, length and type, additionally the length and type for a header carrying only a timestamp, and additionally the timestamp for a header carrying nothing; fields present on the wire are delivered as sent.",
  ["inputs", "histories"], "all sequences of header forms 0..3 over any interleaving of chunk streams, continuation chunks included",
  "Tests normalise two headers in a row on one chunk stream and check only the length; no test interleaves chunk streams, uses a timestamp-only header with a type id, or goes through the reader.",
  ["chunk/default_normalizer.go", "chunk/normalizer.go", "chunk/default_reader.go"],
  [("cache of the last header per chunk stream, used to fill partial and empty headers", "chunk/default_normalizer.go Normalize")],
  ["headers of messages delivered on Reader.Chunks()"],
  [("headers", "last full header per chunk stream", "chunk/default_normalizer.go")])

p("C03", "Extended timestamps survive chunking in both directions",
  "When a message's timestamp field is 0xffffff, the 32-bit extended timestamp follows the header of the message's first chunk and of every continuation chunk on the wire, both in what the writer emits and in what the reader accepts. The reader delivers such a message with that 32-bit value and with its payload free of timestamp bytes, also when a message starts with an empty header that repeats an extended one.",
  ["inputs", "schedules", "fault_sequences"], "all messages with timestamp field 0xffffff of any length, chunk size, header form and interleaving, under any read fragmentation",
  "The only test reads one header with an extended timestamp; no test has a message longer than one chunk with one.",
  ["chunk/extended_timestamp.go", "chunk/header.go", "chunk/default_reader.go", "chunk/default_writer.go"],
  [("extended timestamp read after the header when the field is 0xffffff", "chunk/header.go, chunk/default_reader.go"), ("extended timestamp written with first and continuation chunks", "chunk/header.go, chunk/default_writer.go")],
  ["Reader.Chunks()", "bytes written to the transport"])

p("C04", "A peer's Set Chunk Size applies from the very next chunk",
  "Once a complete, valid Set Chunk Size message (1 to 2^31-1) has been received, every later chunk on every chunk stream is read with the new size, including the remaining chunks of messages that were already partly received, and none before it. The message itself is not delivered as a message, and the reader's reported chunk size equals the last one received. A Set Chunk Size that is too short, zero or has the top bit set changes nothing and is reported as an error.",
  ["inputs", "histories", "schedules"], "all positions of Set Chunk Size messages in interleaved multi-message streams and all sizes; queries from other goroutines at any instant",
  "No test sends a Set Chunk Size message through the reader.",
  ["chunk/default_reader.go", "control/control_set_chunk_size.go"],
  [("type-1 messages are intercepted and update the read size", "chunk/default_reader.go updateChunkSize")],
  ["Reader.Chunks()", "Reader.ReadSize()", "Reader.Errs()"],
  [("readSize", "current inbound chunk size", "chunk/default_reader.go")])

p("C05", "An Abort Message discards exactly the partial message it names",
  "When a complete Abort Message arrives, the partly received message on the chunk stream it names is discarded, so the next message on that chunk stream is delivered with only its own bytes. Partial messages on other chunk streams are unaffected, an Abort for a chunk stream with no partial message changes nothing, and the Abort Message itself is still delivered.",
  ["inputs", "histories"], "all placements of Abort Messages among interleaved partial messages",
  "No test sends an Abort Message through the chunk layer.",
  ["chunk/default_reader.go", "control/control_abort_message.go"],
  [("type-2 messages drop the builder of the named chunk stream", "chunk/default_reader.go")],
  ["Reader.Chunks()"])

p("C06", "Every written message decodes to itself at any peer using the same chunk size",
  "For every chunk stream id from 2 to 65599, payload length up to 16777215 and positive write size, the bytes written for a message are one full header followed by the payload cut into pieces of exactly the write size (the last may be shorter), each later piece preceded by a continuation header naming the same chunk stream. Decoding those bytes with that chunk size yields the same header fields and payload, and each message is cut with a single write size even while another goroutine changes it.",
  ["inputs", "schedules"], "all chunk stream ids, lengths, write sizes, and all interleavings of write-size changes with a write in progress",
  "Tests write an 8-byte message on chunk stream 18 with write sizes 8 and 4 and one goroutine.",
  ["chunk/default_writer.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/header.go", "spec/bytes.go"],
  [("payload split by write size with type-3 continuation headers", "chunk/default_writer.go Write"), ("basic header forms", "chunk/basic_header.go")],
  ["bytes written to the transport"],
  [("writeSize", "current outbound chunk size", "chunk/default_writer.go")])

p("C07", "Messages written concurrently never mix on the wire",
  "When several goroutines write messages through one writer, the transport receives the complete encoding of each message contiguously: the byte stream is a concatenation of whole message encodings in some order, containing every message whose write succeeded exactly once, and each goroutine's own messages in the order it wrote them.",
  ["schedules", "inputs"], "all interleavings of concurrent writers over one transport whose individual writes are atomic (as net.Conn's are)",
  "Every test writes from one goroutine.",
  ["chunk/default_writer.go", "client/client.go"],
  [("a message is assembled in a private buffer and handed to the transport in one write", "chunk/default_writer.go Write")],
  ["bytes written to the transport"])

p("C08", "A write that did not fully reach the transport is reported to its caller",
  "If the transport fails, or accepts only part of a message, the write of that message returns a non-nil error; a write that returns nil has handed every byte of the message to the transport. A failed write does not affect a later or concurrent write of another message, whose outcome reflects only what the transport did with that message's own bytes.",
  ["fault_sequences", "schedules"], "write errors, short writes and stalls at any byte of any message, with concurrent writers",
  "No test writes to a transport that fails.",
  ["chunk/default_writer.go", "control/stream.go"],
  [("errors of the copy into the transport are returned", "chunk/default_writer.go Write")],
  ["Writer.Write result", "bytes accepted by the transport"])

p("C09", "Read failures never produce invented, partial or lost messages",
  "If the transport ends or fails for good at any byte, exactly the messages whose last byte arrived before that point are delivered, a partly received message is never delivered, and an error is reported. If a read fails and later reads succeed again, an error is reported and the messages delivered are still exactly the peer's messages, with nothing lost, repeated or corrupted.",
  ["fault_sequences", "schedules", "crash_points"], "end of stream, permanent and transient read errors at every byte position, data returned together with an error, any fragmentation",
  "Tests only reach end of input between messages, and never a failing transport.",
  ["chunk/default_reader.go", "chunk/builder.go", "chunk/header.go", "spec/binary.go"],
  [("full reads via io.ReadFull; read errors pushed to Errs; the bytes of an interrupted chunk kept for the retry", "chunk/default_reader.go Recv")],
  ["Reader.Chunks()", "Reader.Errs()"])

p("C10", "No byte sequence from a peer can crash or wedge the chunk reader",
  "Whatever bytes a peer sends, the chunk layer never panics, keeps consuming input as long as messages and errors are being collected, and reports an error once the input ends. Every message it delivers has a payload exactly as long as its header declares.",
  ["inputs", "fault_sequences", "schedules"], "arbitrary and mutated byte sequences, fragmented arbitrarily, truncated anywhere",
  "Tests feed only well-formed bytes to the reader.",
  ["chunk/default_reader.go", "chunk/parser.go", "chunk/builder.go", "chunk/message_header.go"],
  [("errors are pushed to Errs instead of panicking; lengths bound the reads", "chunk/default_reader.go")],
  ["process stays alive", "Reader.Chunks()", "Reader.Errs()"])

p("C11", "Each message goes to its own chunk stream, in order, exactly once",
  "Every message the parser receives is delivered on the stream for its chunk stream id and on no other, exactly once and in wire order per chunk stream, no matter when the stream is first asked for, how slowly each stream is consumed, or how reading errors interleave. Each reading error is forwarded to the parser's error channel.",
  ["schedules", "inputs", "histories"], "all interleavings of routing, late subscription, consumers and errors",
  "Parser tests use a mock reader that never sends a chunk.",
  ["chunk/parser.go", "chunk/stream.go"],
  [("routing loop looks up or creates the stream of each chunk and hands the chunk over", "chunk/parser.go Recv")],
  ["Stream.In() per chunk stream", "Parser.Errs()"],
  [("streams", "chunk stream id to stream", "chunk/parser.go")])

p("C12", "The stream registry hands out one stream per id under concurrency",
  "Concurrent requests for chunk streams behave as if made one at a time: every request for a single id returns the same stream for that id, whether or not messages for it already arrived. A request for several ids fails, changing nothing, if a stream for any of them already exists because it was handed out or a message for it arrived, and otherwise yields one stream carrying exactly the messages of those ids; an empty request fails.",
  ["schedules", "histories"], "all interleavings of concurrent requests with each other and with routing",
  "Tests call from one goroutine and never with traffic.",
  ["chunk/parser.go"],
  [("registry guarded by a mutex", "chunk/parser.go Stream")],
  ["Parser.Stream results", "Stream.In()"],
  [("streams", "chunk stream id to stream", "chunk/parser.go")])

p("C13", "Closing the parser always completes and ends everything it started",
  "After a close request the parser and its reader stop as soon as any transport read in progress returns, even if nobody is consuming any stream or error channel at that moment and whether or not messages or errors are pending; the close request then returns. Afterwards the channel of every individual stream handed out and the error channel are closed, nothing more is delivered, and neither the routing nor the reading goroutine remains; nothing panics.",
  ["schedules", "crash_points", "fault_sequences"], "close at every instant relative to reading, routing, blocked deliveries and transport failures",
  "The only close test uses a mock reader, with nothing in flight.",
  ["chunk/parser.go", "chunk/default_reader.go"],
  [("closer channels observed wherever the loops can block on a send", "chunk/parser.go Recv, chunk/default_reader.go Recv")],
  ["Parser.Close returning", "stream channels closed", "goroutines left"])

p("C14", "Merging streams loses nothing and closes only when all sources are done",
  "A merged stream delivers every message of every source appended to it exactly once, preserving each source's order, whatever the interleaving and consumer speed. Waiting for its close returns, and its channel closes, only after every source has been closed and every message drained; and always then.",
  ["schedules", "histories"], "all interleavings of sources, appends, closes and consumer",
  "Tests use two sources with one message each, or none, and wall-clock timeouts.",
  ["chunk/multi_stream.go"],
  [("one forwarding goroutine per source, wait group before closing", "chunk/multi_stream.go")],
  ["MultiStream.In()", "MultiStream.AwaitClose returning"])

p("C15", "Each incoming control message yields its value or one error, in order",
  "For every message arriving on a control stream, exactly one outcome is observed, in arrival order: the control value the message encodes, or an error if its type is unknown or its body is malformed or short; trailing bytes never leak into the next message. Bad messages never stop later ones from being handled, and messages written by the local side meanwhile do not disturb this.",
  ["inputs", "schedules", "histories"], "all sequences of valid, unknown and truncated control messages with concurrent outgoing traffic and any consumer timing",
  "Tests use one message with a mock parser.",
  ["control/stream.go", "control/default_parser.go", "control/control_event.go", "control/control_acknowledgement.go", "control/control_abort_message.go", "control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go"],
  [("receive loop parses each chunk and pushes a value or an error", "control/stream.go Recv"), ("type table", "control/default_parser.go")],
  ["control Stream.In()", "control Stream.Errs()"])

p("C16", "Every control message sent reaches the wire once, or its failure is reported",
  "Each control value sent on a control stream is written, in the order accepted, as one message on chunk stream 2, message stream 0, timestamp 0, with its own type id and encoded body, or exactly one error is reported for it; a failed write does not stop later ones. Incoming traffic and concurrent senders never cause an outgoing message to be lost, duplicated or altered.",
  ["schedules", "fault_sequences", "inputs"], "all control values, concurrent senders, transport write failures and incoming traffic, with values and errors collected independently of sending",
  "Tests send one value through a mock chunker and never look at the wire; one of them is itself flaky.",
  ["control/stream.go", "control/default_chunker.go", "control/chunker.go", "chunk/default_writer.go"],
  [("send loop chunks and writes each value, pushing errors", "control/stream.go Recv"), ("control chunker", "control/default_chunker.go")],
  ["bytes written to the transport", "control Stream.Errs()"])

p("C17", "Closing a control stream, or its source, never hangs or crashes",
  "A close request on a control stream completes even if nobody is consuming its values or errors, its inbound and error channels are then closed, and its goroutine has ended. Neither closing it while other goroutines are still sending on it nor the underlying chunk stream being closed first ever panics, produces a bogus value or stops the stream from being closed.",
  ["schedules", "crash_points"], "close at every instant relative to pending deliveries, senders and closing of the chunk parser underneath",
  "No test closes a control stream.",
  ["control/stream.go", "chunk/parser.go"],
  [("closer observed wherever the loop can block; closed source ignored", "control/stream.go Recv")],
  ["control Stream.Close returning", "In() and Errs() closed", "process stays alive"])

p("C18", "The handshake completes with every compliant client, byte-exactly",
  "For every client that offers version 3 and echoes the server's challenge, however its bytes are fragmented or delayed and whether it waits for the server's packets before sending its own next one, the handshake returns success. The server sends exactly version byte 3, a first packet with its challenge and a second packet repeating the client's time and random bytes; it consumes exactly the 3073 handshake bytes, leaving any data sent right after them unread.",
  ["inputs", "schedules", "fault_sequences"], "all client packets, fragmentations (including empty reads), pipelining and waiting orders",
  "Tests drive single steps with complete in-memory buffers; no test runs a whole exchange.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("sequence of read-then-write steps", "handshake/handshaker.go Handshake"), ("exact-length packet reads", "handshake/packet_ack.go")],
  ["Handshake result", "bytes on the wire in both directions"])

p("C19", "A handshake that did not complete correctly is never reported as success",
  "The handshake returns an error, without hanging, if the client offers another version, echoes random bytes that differ from the server's challenge in any position, or the transport ends or fails at any byte read or written. Nothing is sent before a supported version has been received, and nothing further is read or written after the failure.",
  ["fault_sequences", "inputs", "crash_points"], "every byte position of truncation, read or write failure, every version byte and every altered challenge byte",
  "Tests cover an empty read and one random mismatch per step.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("every step's error aborts the handshake", "handshake/handshaker.go Handshake"), ("challenge comparison", "handshake/server_ack_sequence.go Read")],
  ["Handshake result", "bytes on the wire in both directions"])

p("C20", "Concurrent handshakes are independent and each gets its own challenge",
  "Every handshake issues a fresh challenge drawn in full from the secure random source, and the outcome of a handshake depends only on its own connection. A client echoing the challenge issued to another connection, or by an earlier handshake, is rejected, and stalled or failing handshakes never affect others running at the same time.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent handshakes, some crossed, stalled or failing",
  "Each test runs one handshake step alone.",
  ["handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/handshaker.go"],
  [("per-handshake sequence objects; challenge filled from crypto/rand", "handshake/client_ack_sequence.go NewClientAckSequence")],
  ["Handshake results", "challenges on the wire"])

p("C21", "The server hands out every accepted connection once and survives errors",
  "Every connection the listener accepts is handed out exactly once as a client for that very connection, in accept order, however slowly clients are collected. Each accept failure is reported once and accepting goes on; after the server is closed, its accept loop ends, neither clients nor errors keep coming, and a connection it accepted but could not hand out is closed. Closing it more than once, also from several goroutines at once, does no harm.",
  ["schedules", "fault_sequences"], "all interleavings of connects, accept failures, consumer stalls and close",
  "Tests accept a single connection over real TCP.",
  ["server/server.go", "client/client.go"],
  [("accept loop", "server/server.go Accept")],
  ["Server.Clients()", "Server.Errs()", "goroutines left"])

p("C22", "Command messages are dispatched to the right handler in order",
  "Each message arriving on a client's command chunk streams reaches exactly the handler it is meant for, exactly once and in order per chunk stream: connection commands (chunk stream 3, or 8 with message stream 0), stream commands (type 0x14 on chunk stream 4, or on 8 with message stream 1), media and metadata (types 8, 9 and 0x12 on chunk stream 4). Messages meant for no handler are dropped without delaying others.",
  ["schedules", "inputs", "histories"], "all message sequences over the command chunk streams and all interleavings of the handlers",
  "Tests dispatch one chunk to one fake gate.",
  ["cmd/manager.go", "cmd/gate.go"],
  [("gates matched per chunk", "cmd/manager.go Dispatch, cmd/gate.go")],
  ["NetConn.In()", "NetStream.In()", "data Stream.Out()"])

p("C23", "Closing the command dispatcher ends it and its handlers without a crash",
  "After a close request the dispatch loop ends; if it manages its handlers, they end too, and their goroutines with them, and stream and data handlers close the channels they deliver on. Neither a pending message, nor a handler that is not running, nor a source stream that was closed first makes the dispatcher, or a handler closed on its own, panic, hang or deliver a bogus message.",
  ["schedules", "crash_points"], "close at every instant relative to pending messages, blocked handlers and closing of the source",
  "No test closes the dispatcher.",
  ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"],
  [("closer channel ends the loop, handlers closed in turn", "cmd/manager.go Dispatch")],
  ["Manager.Close returning", "goroutines left", "process stays alive"])

p("C24", "Command handlers answer each message with one value or one error, in order",
  "The connection, stream and data handlers turn each incoming message into exactly one parsed value or one error, in order, and write each outgoing value as exactly one message with that value's own bytes (or report one error), in the order accepted. Neither malformed input, failed writes nor concurrent traffic in the other direction stops or disturbs later messages, and values already handed out keep their contents.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of valid and malformed messages, concurrent outgoing values, write failures, with values and errors collected independently of sending",
  "Tests handle one message each through mocks.",
  ["cmd/conn/net_conn.go", "cmd/conn/default_parser.go", "cmd/conn/default_chunker.go", "cmd/stream/net_stream.go", "cmd/stream/default_parser.go", "cmd/stream/status.go", "cmd/data/stream.go", "cmd/data/default_parser.go", "cmd/data/data.go"],
  [("one select loop per handler", "cmd/conn/net_conn.go, cmd/stream/net_stream.go, cmd/data/stream.go")],
  ["In()/Out() channels", "Errs()", "bytes written to the transport"])

p("C25", "Clients of one server are isolated from each other end to end",
  "Each client of a server, from handshake through control and command traffic in both directions, sees exactly what its own connection carries, in order, and its peer receives exactly what was sent to it. What another client does at the same time - sending, stalling, failing, disconnecting or sending garbage - never changes, delays forever or leaks into it.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of several clients with faults injected on some of them, with values and errors collected independently of sending",
  "No test runs a client beyond construction.",
  ["client/client.go", "server/server.go", "cmd/manager.go", "cmd/stream/status.go", "control/stream.go", "chunk/parser.go"],
  [("each client owns its parser, writer and streams", "client/client.go New")],
  ["client streams", "bytes on each connection"])

p("C26", "Shared settings and registries are free of data races",
  "Reading or changing the inbound and outbound chunk size, asking for streams, feeding or inspecting a message builder or a header normalizer, and the reading, routing and writing loops may run concurrently from any goroutines without unsynchronised access to shared memory.",
  ["schedules"], "all interleavings of the public accessors with the library's own goroutines",
  "Tests are single-goroutine for these and do not run under a race detector.",
  ["chunk/default_reader.go", "chunk/default_writer.go", "chunk/builder.go", "chunk/default_normalizer.go", "chunk/parser.go"],
  [("mutexes around sizes, builders, headers and streams", "chunk/*.go")],
  ["happens-before relation over memory accesses in the simulation"])

p("C90", "Audio and video control bytes decode to codec, rate, size and type",
  "The codec, rate, sample size and type reported for a media frame are a function of the frame's first byte as the FLV tables define.",
  ["inputs"], "all 256 control bytes",
  "Tests sample some bytes; for the sample rate and size they pin values that the FLV tables do not give.",
  ["cmd/data/audio.go", "cmd/data/video.go"],
  [("bit masks", "cmd/data/audio.go, cmd/data/video.go")],
  ["Audio and Video accessors"])

p("C91", "Gate combinators are the boolean algebra of their parts",
  "A union gate is open exactly when it has parts and all are open; an any gate exactly when some part is open.",
  ["inputs"], "all gate trees and messages",
  "Tests cover five shapes with constant parts.",
  ["cmd/gate.go"],
  [("boolean folds", "cmd/gate.go")],
  ["Gate.Open"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
