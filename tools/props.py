#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the statements are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

PK = "packet/"
p("C01", "Any datagram decodes safely to the right packet kind, or to an error",
  "For every byte sequence, decoding a datagram terminates without panicking and without modifying the input, and yields either an error or a packet of exactly the kind its opcode names. It is an error whenever the datagram is shorter than 12 bytes or than the fixed layout of its packet kind, does not start with the Art-Net identifier, carries (except for ArtPollReply) a protocol version below 14 in the low version byte, or has an opcode that is unknown or not implemented. Decoding straight into a specific packet kind likewise rejects datagrams that carry a wrong identifier or the opcode of another kind.",
  ["inputs"], "every byte string: all 65536 opcodes, all lengths 0..1200, every value of every header byte, for each of the 12 decodable kinds",
  "the tests decode about a dozen captured packets; the input space is every datagram any host on the network can send",
  [PK+"packet.go", PK+"header.go", PK+"artdmx.go", PK+"artpollreply.go"],
  [("length, ID, version and opcode validation before and after binary.Read", "packet/header.go, packet/packet.go"), ("per-type validate()", "packet/art*.go")],
  ["packet.Unmarshal", "(*packet.ArtXPacket).UnmarshalBinary"])
p("C02", "Every encoded packet has the Art-Net wire layout",
  "Encoding any of the 12 packet kinds, for every value of its fields, produces exactly the Art-Net layout: the identifier, the opcode of that kind low byte first, version 14 (except ArtPollReply, which has none), then every field at its specified offset with multi-byte values high byte first (the ArtPollReply port is 6454, low byte first), spare bytes zero, and the specified total length. A packet built without setting any header field encodes like any other. Encoding the same packet again gives the same bytes.",
  ["inputs"], "every packet kind, every field, every value of every byte of it, each encoded one to three times in a row",
  "tests encode a few values of three of the twelve kinds, once each",
  [PK+"header.go", PK+"artdmx.go", PK+"artpollreply.go", PK+"artnzs.go", PK+"arttrigger.go"],
  [("finish() then binary.Write of the struct in declaration order", "packet/header.go:marshalPacket"), ("struct field order of each packet", "packet/art*.go")],
  ["(*packet.ArtXPacket).MarshalBinary"])
p("C03", "Decoding recovers every field of a well-formed packet",
  "Every well-formed datagram of one of the 12 kinds is accepted, and every field of the decoded packet has exactly the value found at that field's specified place in the datagram, so decoding an encoded packet gives back the same field values. Spare bytes and bytes after the packet's fixed layout do not influence the result, protocol versions above 14 are accepted, and ArtPollReply is accepted with its port in either byte order. (ArtCommand is accepted only with manufacturer code 0xFFFF, and ArtPollReply only with a known style and port 6454.)",
  ["inputs"], "every packet kind, every value of every byte of the datagram alone and pairs of bytes in the fields that interact, trailing lengths 0..64",
  "tests decode a few captured packets of three of the twelve kinds",
  [PK+"header.go", PK+"packet.go", PK+"artdmx.go", PK+"artpollreply.go"],
  [("binary.Read into the struct, then validate()", "packet/header.go:unmarshalPacket"), ("port byte-order tolerance", "packet/artpollreply.go:validate")],
  ["packet.Unmarshal", "exported packet fields"])
p("C04", "ArtDmx accepts exactly the legal frame lengths and keeps the channels",
  "An ArtDmx datagram is accepted if and only if its stated length is even, between 2 and 512, and that many data bytes are really present; the decoded channel values are then exactly those bytes, in order, and all channels beyond the stated length read zero. Encoding always sends all 512 channels with length 512. Any accepted short frame can be re-encoded without changing sequence, physical port, universe or channel values.",
  ["inputs"], "all 65536 stated lengths x available data sizes around 0, the stated length and 512, all header-field byte values",
  "tests use lengths 512 and one short frame",
  [PK+"artdmx.go"], [("length check and bounded copy", "packet/artdmx.go:UnmarshalBinary"), ("Length=512 in finish()", "packet/artdmx.go:finish")],
  ["packet.Unmarshal", "(*packet.ArtDMXPacket).MarshalBinary"])
p("C05", "Status and flag bytes: what is set is what is read, nothing else moves",
  "For every value of a port-type, status, good-input, good-output, macro, remote or talk-to-me byte, setting a flag to true or false (or a multi-valued field to one of its documented values) makes exactly that flag read back with the value set and leaves every other bit of the byte unchanged; setting an undocumented value changes nothing. Each flag and field occupies the bits the Art-Net specification assigns to it, so the byte sent on the wire means the same to other equipment. The string form reports each flag as it reads.",
  ["inputs"], "all 256 byte values x every setter x every argument (complete enumeration), and all chains of two setters",
  "the tests only ever set flags to true on a zero byte and never read one back",
  [PK+"code/porttype.go", PK+"code/status1.go", PK+"code/status2.go", PK+"code/goodinput.go", PK+"code/goodoutput.go", PK+"code/swmacro.go", PK+"code/swremote.go", PK+"code/talktome.go"],
  [("bit masks in With*/getter pairs", "packet/code/*.go")], ["exported With* and getter methods"])
p("C06", "Code tables: exactly the defined codes are valid and carry their own name",
  "An opcode is reported valid if and only if it is one of the 35 opcodes the library defines, a style code if and only if it is one of the 7 defined styles. Every defined opcode, style, diagnostics priority and node report code prints as its own name and every other value prints as its number, so no two defined codes share a name. Printing never fails for any value.",
  ["inputs"], "all 65536 opcodes and all 256 style, priority and report codes (complete enumeration)",
  "no test calls the name or validity functions",
  [PK+"code/opcode.go", PK+"code/opcode_string.go", PK+"code/stylecode.go", PK+"code/prioritycode_string.go", PK+"code/nodereportcode_string.go"],
  [("generated name tables with hand-written indexes", "packet/code/*_string.go, stylecode.go")], ["code.ValidOp", "code.ValidStyle", "String methods"])
p("C07", "A poll reply is read as the ports and 15-bit addresses it announces",
  "From any ArtPollReply the learned configuration has one output port for each of the first min(port count, 4) channels flagged as output and one input port for each flagged as input, in channel order, with that channel's type and status. Each port's universe address is net = net switch (7 bits), high nibble = sub switch (4 bits), low nibble = that channel's own input or output switch (4 bits), and the base address is the same net and sub-net with low nibble zero. Names, manufacturer, IPs, MAC, versions, OEM, style, status, report and bind index are taken over unchanged, strings ending at the first zero byte.",
  ["inputs"], "all combinations of port count and per-channel direction flags, all values of every switch/status byte, all 65536 port counts",
  "the only test of this conversion is commented out; no running test covers it",
  ["config.go"], [("per-port loop bounded by NumPorts and 4; address composition", "config.go:ConfigFromArtPollReply"), ("decodeString", "config.go")],
  ["artnet.ConfigFromArtPollReply"])
p("C08", "What a node announces about itself is what a controller learns",
  "For every valid node configuration whose ports all lie in the sub-net of its base address, building the ArtPollReply, encoding, decoding and reading it back yields the same ports (count, direction, type, status, universe address), base address, IP, bind IP, bind index, MAC, OEM, versions, manufacturer, style, status bytes and report, and the same name and description (up to 17 and 63 ASCII characters). The announced port count is the larger of the input and output counts. Building the reply does not change the configuration.",
  ["inputs", "configurations"], "all 0..4 x 0..4 input/output port layouts, all low-nibble addresses, all base nets and sub-nets, all byte values of the scalar fields, name lengths 0..24 and description lengths 0..70",
  "no test of the root package exists",
  ["config.go", PK+"artpollreply.go"], [("field by field copy in both directions", "config.go:ArtPollReplyFromConfig, ConfigFromArtPollReply"), ("NumberOfPorts, PortTypes", "config.go")],
  ["artnet.ArtPollReplyFromConfig", "artnet.ConfigFromArtPollReply"])
p("C09", "A node starts exactly when its port configuration can be announced",
  "Starting a node fails, without opening a socket or sending anything, when more than four input or more than four output ports are configured or when an input and an output port of the same index have different protocol types. Every other port configuration starts and announces exactly those ports when polled. A rejected node can be corrected and started afterwards.",
  ["configurations"], "all 0..6 x 0..6 port counts with every pair of the six protocol types at each shared index",
  "no test starts a node",
  ["config.go", "node.go"], [("NodeConfig.validate called first by Start", "config.go:validate, node.go:Start")], ["(*Node).Start", "virtual network log"])
p("C10", "Every ArtPoll heard is answered by exactly one truthful ArtPollReply",
  "A running node (or controller) answers every well-formed ArtPoll that arrives from another host with exactly one ArtPollReply, sent to its configured broadcast address (2.255.255.255:6454 by default), describing its configuration at start. Polls are answered no matter how many arrive in a burst or how its goroutines are scheduled. Nothing is sent in response to anything else: malformed or other packets, and datagrams sent from the node's own IP.",
  ["histories", "schedules", "configurations"], "all short sequences of received datagrams over an alphabet of valid, malformed, foreign and own packets; bursts up to 40 polls; all schedules with at most 2 deviations",
  "no test of the root package exists; a test would see one schedule and one burst size",
  ["node.go"], [("reader goroutine -> recvCh -> handlePacket -> pollCh -> pollReplyLoop -> sendCh -> sendLoop", "node.go")], ["virtual network log"],
  [{"name": "pollCh, sendCh, recvCh", "meaning": "bounded queues between the goroutines", "where": "node.go"}])
p("C11", "Callbacks get every matching packet once, intact, and never block others",
  "Each well-formed packet arriving from another host is passed exactly once to the callback registered for its opcode, with the contents that were on the wire, however many packets follow it and however goroutines are scheduled; without a registered callback it is ignored. Malformed datagrams and those sent from the node's own IP are never passed to a callback. The callback that counts is the one last registered, and not deregistered, before start; registering or deregistering while the node runs changes nothing. A callback that blocks does not keep later packets from being handled.",
  ["histories", "schedules"], "all register/deregister/replace sequences up to length 4 around start, all packet kinds, bursts up to 30 packets of shrinking size, blocked callbacks, all schedules with at most 2 deviations",
  "no test of the root package exists; buffer reuse and blocking only show under particular interleavings",
  ["node.go"], [("private copy of each datagram before queueing it", "node.go:recvLoop"), ("one goroutine per packet", "node.go:recvLoop"), ("isShutdown guard in RegisterCallback/DeregisterCallback", "node.go")], ["NodeCallbackFn invocations"],
  [{"name": "callbacks", "meaning": "opcode to callback table", "where": "node.go"}])
p("C12", "Bad datagrams and socket errors never take a node or controller down",
  "After any sequence of malformed datagrams, failed socket reads and failed socket writes, a running node or controller has not panicked, still answers the next well-formed ArtPoll with one ArtPollReply, still delivers packets to its callbacks, and can still be stopped. A failed write loses only the packet being written. A controller hit by such faults still keeps track of nodes and keeps sending their universes.",
  ["fault_sequences", "histories", "schedules"], "all sequences up to length 3 over malformed datagram shapes, read errors and write errors, at every position, followed by a liveness probe; schedules with at most 1 deviation",
  "no test injects a socket error or a bad datagram into a running node",
  ["node.go", PK+"packet.go"], [("error branches in the reader goroutine, sendLoop and recvLoop that continue", "node.go")], ["virtual network log", "panics", "callbacks"])
p("C13", "Stopping a node is final, prompt and complete",
  "Stop on a running node always returns, whatever traffic is queued or in flight; after it has returned the socket is closed and nothing more is sent. Once callbacks have finished, no goroutine of the node remains. This holds for every moment at which Stop is called, also from within a callback.",
  ["schedules", "histories"], "bursts of 0..30 polls/packets pending at Stop, write errors, Stop from the main goroutine or a callback, all schedules with at most 2 deviations",
  "blocked-forever goroutines only appear in particular interleavings of Stop with full internal queues",
  ["node.go"], [("shutdownCh select in every loop", "node.go"), ("conn.Close unblocks the reader", "node.go:Stop")], ["live goroutine set", "virtual network log"],
  [{"name": "shutdown, shutdownCh", "meaning": "stop request", "where": "node.go"}])
p("C14", "Any order of Start and Stop calls is safe and ends in the requested state",
  "For a node and for a controller, no sequence of Start and Stop calls (Stop before Start, repeated or concurrent calls, Start that fails because the address is taken, Start again after Stop or after a failed Start) panics, blocks forever or leaves goroutines behind. Start reports an error exactly when it did not start; calling it on a running object is such an error and leaves the object running. A restarted controller begins with empty tables. After the last call the object works exactly if it was a successful Start: it answers a poll once, or not at all.",
  ["histories", "schedules", "fault_sequences"], "all Start/failing-Start/Stop sequences up to length 5 (4 for controllers) followed by a probe, concurrent pairs of calls, all schedules with at most 1 deviation (2 for short ones)",
  "no test calls Start or Stop",
  ["node.go", "controller.go"], [("shutdown flag and shutdownCh", "node.go:Start, Stop"), ("shutdownCh, tickers", "controller.go:Start, Stop")], ["panics", "live goroutine set", "virtual network log"])
p("C15", "A running controller polls the network at least every three seconds",
  "A controller broadcasts an ArtPoll (asking for replies on change) to its configured broadcast address as soon as it starts and then at least once every 3 seconds and no more often than once per 2.5 seconds, for as long as it runs, whatever nodes, traffic and DMX updates it is busy with. It also answers each of its own polls with one ArtPollReply describing itself to the same broadcast address. No poll is sent after it was stopped.",
  ["schedules", "histories", "configurations"], "virtual runs of 30+ seconds over broadcast-address and FPS options, node populations and traffic patterns; schedules with at most 1 deviation",
  "no test runs a controller; cadence needs seconds of real time",
  ["controller.go", "options.go"], [("initial send, then pollTicker", "controller.go:pollLoop"), ("BroadcastAddr option", "options.go")], ["virtual network log with virtual time"])
p("C16", "The controller's node and address tables follow the poll replies",
  "After any sequence of poll replies, the controller knows each node or output-capable controller (by IP) exactly once, with the configuration of its latest reply, and other device styles not at all. Its output and input address tables map each address in the latest announcements to the node that announced it - the most recent announcer if several did - and contain no address that no known node currently announces. (When the most recent announcer of an address withdraws it or is forgotten, an address that another known node also announces may be missing until that node's next reply.)",
  ["histories"], "all reply sequences up to length 4 over several nodes with adding, moving, dropping, swapping and colliding ports, styles and directions, in every order",
  "no test of the root package exists; errors need several replies in a particular order",
  ["controller.go"], [("remove old ports, store config, add new ports under nodeLock", "controller.go:updateNode"), ("style filter", "controller.go:pollLoop")], ["Controller.Nodes", "Controller.OutputAddress", "Controller.InputAddress"],
  [{"name": "Nodes, OutputAddress, InputAddress", "meaning": "node table", "where": "controller.go"}])
p("C17", "Silent nodes are forgotten in 7 to 10 seconds, live ones never",
  "A node whose poll replies keep coming less than 7 seconds apart stays known; one that has been silent for more than 10 seconds is no longer known, its addresses are gone from the tables, and nothing is sent to it any more. Forgetting a node does not affect any other node or its addresses. A forgotten node that replies again is known again at once, starting with a blackout frame.",
  ["histories", "schedules"], "all reply/silence histories over three nodes with steps between 0.5 and 8 seconds, including several nodes expiring at once, with colliding addresses",
  "needs many seconds of time and particular expiry orders; no test of the root package exists",
  ["controller.go"], [("LastSeen + 7s checked every poll interval", "controller.go:gcNode")], ["Controller tables", "virtual network log with virtual time"])
p("C18", "DMX set for a universe reaches its node: right data, place and order",
  "After SendDMXToAddress for an address in the output table, the 512 values given are sent in an ArtDmx packet for that address to port 6454 of the node that announced it, within one frame interval when goroutines are not starved. Every ArtDmx packet sent carries, whole, the values most recently set for that address of that node (zeros before the first), never a mixture, an older value after a newer one, or another universe's data. Setting data for an unknown address has no effect, nothing is sent for an address the node does not announce, and re-announcements of the node keep the data.",
  ["schedules", "histories"], "1-3 nodes, up to 5 universes, 1-2 writer goroutines racing with replies that add, move and keep ports and with the update ticks; all schedules with at most 2 deviations, timers firing early included",
  "lost or torn updates need a particular interleaving of writer, reply and tick",
  ["controller.go"], [("nodeLock around tables and buffers", "controller.go:SendDMXToAddress, dmxUpdateLoop, updateNode"), ("Stale flag", "controller.go:dmxUpdateLoop")], ["virtual network log"],
  [{"name": "dmxBuffer", "meaning": "per-universe data, Stale, LastUpdate", "where": "controller.go"}])
p("C19", "Universes are refreshed four times a second and never above the frame limit",
  "While a node is known, each of its output universes is sent at least once every 250 ms plus one frame interval, changed or not, starting with a blackout frame within one interval of discovery. When goroutines are not starved no universe is sent more than once per frame interval of the MaxFPS limit, however often it is set. Setting MaxFPS to a value that is not positive (or above 1e9) is refused with an error, keeps the earlier limit and does not crash or silence the controller.",
  ["histories", "configurations", "schedules"], "FPS limits from 1 to 1000 (and invalid ones), update patterns faster and slower than the limit, several universes and nodes, virtual time",
  "timing property over all configurations; no test runs a controller",
  ["controller.go", "options.go"], [("ticker at 1s/maxFPS, Stale or 250 ms age condition", "controller.go:dmxUpdateLoop"), ("MaxFPS option", "options.go")], ["virtual network log with virtual time"])
p("C20", "ArtDmx sequence numbers count 1 to 255 per node and never are zero",
  "The ArtDmx packets sent to one node carry sequence numbers that start at 1 and increase by one from packet to packet in the order they are sent, going from 255 back to 1; 0 is never used since it disables resequencing. Re-announcements, other nodes and writers do not disturb the count.",
  ["histories", "schedules"], "runs of more than 600 packets per node with one to three nodes and several universes; schedules with at most 2 deviations in short runs",
  "the wrap needs 255 packets; no test sends one",
  ["controller.go"], [("Sequence increment under node lock", "controller.go:dmxUpdate"), ("single sendLoop preserves order", "node.go")], ["virtual network log"])
p("C21", "Stopping a controller is complete and never leaves callers blocked",
  "Stop on a running controller always returns, whatever nodes, universes, replies and DMX updates are in progress; after it nothing more is sent and no goroutine of the controller remains. SendDMXToAddress always returns, also when called concurrently with Stop or afterwards.",
  ["schedules", "histories"], "up to 16 universes on 4 nodes, reply bursts, writers racing with Stop at every step, all schedules with at most 2 deviations, timers firing early included",
  "the hang needs Stop to hit a tick with more universes than queue slots",
  ["controller.go", "node.go"], [("shutdownCh selects", "controller.go"), ("order of shutdown", "controller.go:Stop")], ["live goroutine set", "blocked calls", "virtual network log"])
p("C22", "Concurrent use is free of data races",
  "Between Start and Stop, no schedule of the library's own goroutines, incoming traffic, timers, callbacks and concurrent SendDMXToAddress and Stop calls (and, for a node, callback registration and another Start after Stop has returned) makes two goroutines access the same memory without synchronisation, at least one of them writing.",
  ["schedules"], "all schedules with at most 1 deviation (2 in the thorough tier) of compact node and controller scenarios, each judged by happens-before analysis",
  "the race detector judges one schedule per run, and the repository has no concurrent test at all",
  ["controller.go", "node.go"], [("nodeLock, shutdownLock, channels", "controller.go, node.go")], ["happens-before race reports"])
p("C23", "Universe addresses number and print uniquely",
  "The integer form of an address is net * 256 + sub-net/universe byte, so distinct addresses have distinct integers, in address order. The string form is net:subnet.universe with the two nibbles of the universe byte in decimal, so distinct addresses print differently.",
  ["inputs"], "all 65536 addresses (complete enumeration)", "no test of the root package exists",
  ["config.go"], [("shift/or and nibble formatting", "config.go:Address")], ["Address.Integer", "Address.String"])
p("C24", "A controller and a node of this library work together end to end",
  "On a network that delivers datagrams, a running controller learns of every running node in the same network within one poll interval of both being up, in whichever order they start, with all its ports; DMX values then set for any of the node's output addresses arrive, intact and for that address, at the callback the node registered for ArtDmx packets. When the node stops, the controller stops sending to it within 10 seconds, and finds it again after a restart.",
  ["schedules", "histories", "configurations"], "one controller with one or two nodes, all port layouts 1..4 outputs, all start orders, schedules with at most 1 deviation",
  "no test runs a node or a controller",
  ["controller.go", "node.go", "config.go", PK+"artpollreply.go"], [("ArtPoll, ArtPollReply, ArtDmx exchange", "controller.go, node.go")], ["node callbacks", "virtual network log"])

p("C25", "Nodes and controllers listen and send where their options say",
  "A running node or controller listens on exactly one UDP socket, bound to the address its options set: all interfaces, port 6454, unless a listen address (IP and port) or a listen IP (then port 6454) was given. Everything it sends leaves from that socket: polls and poll replies to the configured broadcast address (2.255.255.255:6454 by default), DMX to port 6454 of the IP the node announced, wherever its reply came from. Of several settings for the same thing the last one counts; options given to the constructor and options set later, before Start or between Stop and the next Start, count alike, do not disturb each other, and a refused one changes nothing. A node's Connection is the socket in use, and no socket is left open after Stop.",
  ["configurations", "histories"], "all sequences of up to 3 of 7 node options (2, in the thorough tier 3, of 9 controller options), split in every way between constructor and SetOption, each followed by start, traffic, stop, a further option, and the same again; schedules with at most 1 deviation",
  "no test starts a node or a controller or sets an option",
  ["options.go", "node.go", "controller.go"], [("options write listenAddr and broadcastAddr; Start binds listenAddr", "options.go, node.go:Start"), ("node address from the announced IP", "controller.go:updateNode")], ["virtual network log", "(*Node).Connection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
