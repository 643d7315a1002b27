// Command a decides the properties of the chunk, control and handshake
// packages.
package main

import "verif/harness/kit"

// either runs one of several scenarios.
func either(fs ...func(*T)) func(*T) {
	return func(t *T) { fs[t.Src.Intn(len(fs))](t) }
}

const (
	simulated  = "Go scheduler, channels, select, locks, wait groups, clock and timers, map iteration order, math/rand and crypto/rand (simulator)"
	bytestream = "transport: simulated byte stream with fragmentation, empty reads, stalls and injected errors"
)

var (
	trust    = "the simulator's channel, mutex and timer semantics match Go's; a goroutine can be preempted between any two statements but not inside one; memory is sequentially consistent (C26 looks for the races this would hide)"
	trustIO  = "the transport obeys the io.Reader/io.Writer contracts, and its Write is atomic with respect to other Writes as net.Conn's is"
	trustRef = "the reference encoder/decoder in harness/ref states the wire format, including this library's 3-byte chunk stream ids (marker 63, big-endian)"
)

// racy are further scenarios in which races are looked for.
var racy []func(*T)

// c26all runs c26 or one of the scenarios of other properties, whose own checks
// then do not matter.
func c26all(t *T) {
	if t.Src.Chance(0.5) {
		c26(t)
		return
	}
	t.OnlyRaces = true
	pick(t, append([]func(*T){c16, c20, fanOut}, racy...)...)(t)
}

// more makes the properties of the packages that need package amf0.
var more = func() []*kit.Prop { return nil }

func prop(id string, scenario func(*T), quick int, real []string, stubs []string, rule, oracle string, assume ...string) *kit.Prop {
	return &kit.Prop{
		ID: id, Scenario: stretched(id, scenario), Quick: quick, Thorough: 1 << 30,
		Real: real, Stubs: append(stubs, simulated), Rule: rule, Oracle: oracle,
		Assume: append([]string{trust}, assume...),
	}
}

func main() {
	reader := []string{"chunk.DefaultReader, Builder, normalizer and header codecs", "spec"}
	parser := append([]string{"chunk.Parser, stream, MultiStream"}, reader...)
	writer := []string{"chunk.DefaultWriter and header codecs", "spec"}
	ctl := append([]string{"control.Stream, DefaultParser, DefaultChunker and all control types"}, parser...)
	hs := []string{"handshake.Handshaker and all its sequences and packets"}
	src := []string{bytestream}
	gen := "Each run draws one or two connections, each with a random well-formed chunk stream (chunk stream ids over all encodings, interleaving, compressed headers, extended timestamps, chunk size changes, aborts, lengths around multiples of the chunk size), a transport that fragments, stalls and delays it, a consumer that stalls, and a schedule."
	model := "The message sequence is computed from the generated stream by the reference model and compared with what was delivered, field by field, including that nothing handed out changes later."

	c06 := prop("C06", c06, 400000, writer, []string{"transport: recording byte sink that yields inside writes"},
		"Each run writes up to 8 messages (ids 2..65599 but 63, lengths up to 200000, normal and extended timestamps) through one writer, while another goroutine may change the write size at any instant. In some runs several writers of different transports write the same messages at once.",
		"The bytes written during each call must decode, by the reference decoder and in full, to that message with one of the write sizes that may have been in force during the call.", trustIO, trustRef)
	c06.Known = []kit.Known{{ID: "csid63", Scenario: csid63}}
	c01p := prop("C01", readerScenario(c01, false, nil), 150000, reader, src, gen, model, trustIO, trustRef)
	c01p.Known = []kit.Known{{ID: "csid-3byte", Scenario: csid3}}
	c26p := prop("C26", c26all, 60000, append(append(append([]string{}, ctl...), writer...), "handshake, client.Client, server.Server, cmd.Manager and the command and data streams"), src,
		"Half of the runs mix size getters and setters, stream requests, builder calls, writes, relaying, control traffic and closing with the reading, routing and control loops, each from its own goroutines. The others are runs of C16, C20, C22, C24 and C25, several clients of a server among them, in which only races count.",
		"Vector-clock race detection over every access of the instrumented packages to variables, fields, elements and maps: two accesses to one location, one of them a write, must be ordered by channel, lock, wait group, once or goroutine-start edges.",
		"only accesses made by library code are tracked")
	c26p.Races = true

	kit.Main(append([]*kit.Prop{
		c01p,
		prop("C02", readerScenario(c02, true, nil), 150000, reader, src, gen+" Most messages start with compressed headers.", model+" Timestamps are compared too.", trustIO, trustRef),
		prop("C03", either(readerScenario(c03reader, true, nil), writeOne(0.7, 0.3)), 200000, append(append([]string{}, reader...), writer...), src,
			gen+" Most messages have extended timestamps. Half of the runs are of the writer instead: see C06.", model+" The writer's bytes are decoded by the reference decoder, which insists on the extended timestamp after every continuation header.", trustIO, trustRef),
		prop("C04", readerScenario(c04, false, nil), 150000, reader, src, gen+" Set Chunk Size messages, valid and invalid, come often, also amid partial messages.", model+" The reference model cuts chunks with the size in force; a wrong size garbles everything after it. Errors are counted and the reported size is compared.", trustIO, trustRef),
		prop("C05", readerScenario(c05, false, nil), 150000, reader, src, gen+" Abort Messages come often, naming partial, complete and unknown chunk streams.", model, trustIO, trustRef),
		c06,
		prop("C07", c07, 300000, writer, []string{"transport: recording byte sink with flow control that yields inside writes and may fail for good"},
			"Each run has 2 to 5 goroutines write up to 5 messages each through one writer over a sink that yields inside writes, applies flow control, and may fail for good; the write size may change meanwhile. In some runs several writers of different transports write the same messages at once.",
			"The recorded bytes must be a concatenation of whole reference encodings, containing each message whose write succeeded exactly once and each goroutine's in order, followed by at most a part of a message whose write failed.", trustIO, trustRef),
		prop("C08", writersScenario(true), 300000, writer, []string{"transport: recording byte sink with permanent errors, single short writes with and without an error, stalls and flow control"},
			"As C07, with 1 to 4 goroutines and 1 to 4 write faults at drawn byte positions.",
			"As C07, with messages cut only where a fault fired; a write reported nil if and only if its message is on the wire whole, and no more writes failed than faults fired unless the transport is gone.", trustIO, trustRef),
		prop("C09", c09, 300000, reader, src,
			"A well-formed stream as for C01 whose transport ends, fails for good, or fails once and recovers, at positions drawn over headers, payloads and boundaries.",
			"Exactly the messages complete before the end are delivered; an error is reported for the end; transient failures are reported and lose nothing.", trustIO, trustRef),
		prop("C10", c10, 250000, reader, src,
			"Well-formed streams with bits, bytes and ranges mutated, inserted and removed, random bytes, and compact hostile messages.",
			"No panic, no livelock, all input consumed and an error reported at its end; every delivered message is as long as its header declares.", trustIO),
		prop("C11", c11, 250000, parser, append([]string{"chunk.Reader: scripted messages and errors in 60% of runs"}, src...),
			"Each run routes messages and errors, from a real reader over a faulty transport or a scripted one, to streams asked for alone, merged or twice, before and while messages arrive, with stalling consumers.",
			"Per chunk stream, the messages delivered are exactly those that arrived, in order (as a set, where two consumers share a stream), on a stream of that id; errors are exactly the reader's, in order.", trustIO, trustRef),
		prop("C12", c12, 300000, parser, []string{"chunk.Reader: scripted"},
			"Each run has 2 to 4 goroutines ask for single, several and no ids, while messages for the same ids arrive.",
			"A brute-force linearizability check of the requests and arrivals, with their real-time intervals, against a sequential registry; identity of the streams handed out; delivery of every message once on a stream of its id."),
		prop("C13", c13, 400000, parser, src,
			"Each run closes a parser over a real reader at a drawn instant: amid messages, errors, blocked reads, absent or stopped consumers, and stream requests.",
			"Once the transport answers, Close has returned, every channel handed out before, during or after it is closed, nothing was delivered after it returned, no library goroutine is left, and the transport is read no more.", trustIO),
		prop("C14", c14, 300000, []string{"chunk.MultiStream"}, []string{"sources: scripted streams, buffered and not"},
			"Each run appends up to 12 sources, in groups, early and late, some merged streams themselves, some never closed, read by one or two consumers.",
			"Each message is delivered once, in its source's order; waiting for close returns and the channel closes only once every source is closed and drained, and then always; no goroutine is left."),
		prop("C15", c15, 300000, ctl, []string{"chunk.Writer: recording, failing at random", "chunk.Stream: scripted in 75% of runs", bytestream},
			"Each run feeds well-formed, short, overlong, unknown and random control messages, from a scripted stream or through a real reader and parser, while values are sent and their writes fail.",
			"The outcomes seen on the value and error channels, in order, are those of an independent decoder; values handed out do not change later.", trustRef),
		prop("C16", c16, 200000, append(append([]string{}, ctl...), writer...), []string{"chunk.Writer: recording and failing at random in 65% of runs", "chunk.Stream: scripted", "transport: recording sink with stalls"},
			"Each run has 1 to 4 goroutines send control values, some of which cannot be encoded, through a writer some of whose writes fail, while messages arrive.",
			"Every message written is one value sent, on chunk stream 2, message stream 0, timestamp 0, in its sender's order; values not written and errors reported match one to one.", trustIO, trustRef),
		prop("C17", c17, 400000, ctl, []string{"chunk.Writer: recording, failing at random", "chunk.Stream: scripted, closed early in some runs"},
			"Each run closes a control stream at a drawn instant, with collectors that stop, senders at work, and a source that is closed before or meanwhile.",
			"Close returned, both channels are closed, no library goroutine is left, nothing panicked, and the outcomes seen are a prefix of the expected ones."),
		prop("C18", c18, 250000, hs, src,
			"Each run has one or two compliant clients that send in pieces with delays, wait for the server's packets or not, apply flow control, and send more data or hang up right after.",
			"Handshake returns nil; the 3073 bytes sent are version 3, a packet, and the client's time and random bytes; exactly 3073 bytes were consumed, none read or sent after the return.", trustIO),
		prop("C19", c19, 400000, hs, src,
			"Each run has one defect: another version, an echo that differs in some way at some position, a client that stops, or a read or write that fails at some byte.",
			"Handshake returns an error; nothing was sent before version 3 arrived; exactly the bytes due before the defect were sent; nothing is read or sent after the failure.", trustIO),
		prop("C20", c20, 160000, hs, src,
			"Each run has 2 to 5 handshakes at once: good, stalling, hanging up, of another version, or echoing another connection's or an earlier challenge.",
			"Each outcome is that of its own client; each challenge is found in the record of what was read from the secure random source, and no two overlap there.", trustIO),
		c26p,
	}, more()...))
}
