//go:build cmd

package main

import "verif/harness/kit"

func init() {
	racy = []func(*T){c22, c24, c25, c25, c25parts}
	more = func() []*kit.Prop {
		cmds := []string{"cmd.Manager and its gates", "cmd/conn.NetConn", "cmd/stream.NetStream", "cmd/data.Stream", "their parsers, chunkers and command types"}
		amf := "package amf0: a stand-in written for this sandbox (stubs/amf0)"
		src := []string{amf, bytestream}
		trustAMF := "the stand-in for package amf0 behaves like the original: values by marker, structs field by field, null leaving a field alone"
		lib := append([]string{"server.Server", "client.Client", "handshake, chunk and control packages"}, cmds...)

		c25p := prop("C25", c25all, 100000, lib, src,
			"Each run has a server accept one to three clients, each with its own handshake, control and command messages, over its own transport, while the application handles all of them, sends to them, and relays media among them. All but one of the clients may stall, hang up, speak another version, send garbage, have its writes fail, stop draining its transport, or have one of its channels not collected. In 40% of the runs, the scenarios of two or three parts of connections (C02, C06, C11, C15, C16, C18, C20, C22, C24) run at once in one world instead.",
			"Each client is handed out once. Per client, the control values and the outcomes of each handler, per chunk stream in order, are those of the messages its peer sent, and the bytes its peer receives decode to the answer to its own handshake and to exactly the values sent to it, in each sender's order. Clients that do not fail get all of it once the others have failed and everything has come to rest. Each of the parts is judged as by its own property.",
			trustIO, trustRef, trustAMF, "values and errors are collected by goroutines that do not wait for sends: answering from the collecting goroutine itself deadlocks by design")
		c25p.Known = []kit.Known{{ID: "csid-other", Scenario: csidOther}, {ID: "client-errors", Scenario: clientErrors}}
		return []*kit.Prop{
			prop("C21", c21, 400000, []string{"server.Server", "client.New"}, []string{amf, "net.Listener: simulated, some Accept calls fail"},
				"Each run has up to 12 connections and accept failures arrive at drawn instants, collectors of clients and errors that stall or stop, an Accept loop started early or late, and in half of the runs a close request at a drawn instant.",
				"Clients are handed out in the order of the connections, each once, for that very connection; errors likewise. Without a close request nothing is lost; after one, the request has returned, the accept loop and the listener have ended, and late collectors get nothing.", trustIO),
			prop("C22", c22, 200000, append([]string{"chunk.Parser, Reader (40% of runs)"}, cmds...), append([]string{"chunk.Stream: scripted in 60% of runs", "chunk.Writer: recording, failing at random"}, src...),
				"Each run has up to 16 messages, well-formed or not, on the command chunk streams and others, with all types and several message streams, arrive at a dispatcher that manages its handlers or not, while values are sent through the handlers.",
				"The outcomes of each handler must be an interleaving, in order per chunk stream, of what the messages routed to it by the property's rules mean to an independent AMF0 decoder, all of them present.", trustRef, trustAMF),
			prop("C23", c23, 400000, append([]string{"chunk.Parser, Reader (30% of the runs of a dispatcher)"}, cmds...), append([]string{"chunk.Stream: scripted, closed early in some runs", "chunk.Writer: recording, failing at random"}, src...),
				"Each run closes a dispatcher (60%) or a handler on its own at a drawn instant, amid pending messages, handlers that run, do not run or are closed themselves, senders, collectors that stop, and a source that is closed before or meanwhile.",
				"Each close request returned, the loops ended, no library goroutine is left, nothing panicked, the outcomes seen are prefixes of those expected, and late collectors get nothing.", trustAMF),
			prop("C24", c24, 200000, cmds[1:], append([]string{"chunk.Writer: real over a recording sink in half of the runs, else recording and failing at random"}, src...),
				"Each run has one to three handlers, of one kind or several, receive well-formed, malformed and unknown messages, while goroutines send values through them, among them relayed media with completed headers and values that do not encode, over writers and transports that fail.",
				"The outcomes seen on the value and error channels, in order, are those of an independent AMF0 decoder; values handed out do not change later. The messages written are the values sent, encoded by an independent AMF0 encoder, each once and in its sender's order; values not written and errors reported match one to one.", trustIO, trustRef, trustAMF),
			c25p,
		}
	}
}
