#!/usr/bin/env python3
# Source of /verif/properties.jsonl; run it after editing.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Reliable messages survive a lossy, slow line: complete, in order, intact",
 "Two peers that talk over the general-purpose automatic-repeat-request layer deliver every message the other side queued, byte for byte, in the order queued and without gaps, whatever frames the FIFO line underneath loses or delays and however often or seldom the application retransmits. A message is delivered twice only if the connection was (re)initialised in between. Once the line stops losing frames and the application keeps flushing, everything queued is delivered and acknowledged within a bounded number of flushes.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of sends, partial sends, retransmits, deliveries and losses in both directions, over histories long enough to wrap the 6-bit sequence number several times",
 "The tests lose a handful of hand-picked frames on one schedule each; the guarantee is over all loss/delay patterns, retransmit timings and sequence-number wrap-arounds.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("stop-and-wait sequence numbers, acks, encode queue", "src/protocol.cpp ArqLayer::decode/encode/transmit/keepAlive")],
 [("m_encodeQueue", "messages not yet acknowledged, front is in flight", "include/libstored/protocol.h ArqLayer"),
  ("m_sendSeq/m_recvSeq", "next sequence numbers", "include/libstored/protocol.h ArqLayer")],
 ["messages decoded by the layer on top of the ARQ layer at either peer", "frames handed to the line"])

prop("P02", "A restarted or reset peer resynchronises and loses no queued message",
 "When one peer of a reliable connection restarts or is reset, the other peer notices, both resynchronise without endless reset ping-pong, and the surviving peer's queued messages are still delivered completely and in order, with at most a repeat of the ones around the reset. After the faults stop, messages queued afterwards by either side are delivered exactly once, in bounded time, and the reconnect and excessive-retransmit notifications have been raised when they apply.",
 ["crash_points", "schedules", "fault_sequences"],
 "a restart or reset of either peer, or both, at any point of the exchange, combined with frame loss",
 "The tests reset an idle or almost idle connection once; a reset can hit at any in-flight state, during another reset, and with any frame of the resynchronisation lost.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("reset frame with seq 0, ack and reset response in one frame, re-encoding of the queue", "src/protocol.cpp ArqLayer::decode/reset"),
  ("retransmit event", "src/protocol.cpp ArqLayer::transmit")],
 None,
 ["decoded messages after the restart", "event callback"])

prop("P03", "Retransmitted debug requests are answered, never executed twice",
 "Over a line that loses or delays frames, a debug client that retransmits its request until answered gets, for every request, exactly the response of that request; a request whose response must be preserved is executed exactly once, however often it is retransmitted, and only one whose response may be regenerated is executed again. A client or target restart resynchronises with the next request.",
 ["schedules", "fault_sequences", "histories"],
 "every pattern of lost and delayed request/response segments and retransmits, single and multi-segment requests and responses, with and without buffer overflow, for sequence numbers of every encoded length",
 "The tests (and a small Promela model) cover a few losses of short exchanges; the number of segment/loss/retransmit combinations, buffer overflows and sequence-number encodings is out of reach of examples.",
 ["src/protocol.cpp", "include/libstored/protocol.h", "python/libstored/protocol.py"],
 [("request/response sequence numbers, response buffer and purgeable responses", "src/protocol.cpp DebugArqLayer"),
  ("client-side retransmit", "python/libstored/protocol.py DebugArqLayer")],
 None,
 ["requests executed by the layer above at the target", "response messages received by the client"])

prop("P04", "Corrupted frames are dropped, never delivered",
 "A frame protected by an 8-bit or 16-bit checksum layer is delivered unchanged when the line delivers it intact, and is silently dropped when the line flips one or two bits or corrupts a burst shorter than the checksum, within the advertised frame size, or truncates it to nothing; later frames are unaffected. A corrupted frame never reaches the layer above as a valid message and never disturbs the peer's state.",
 ["inputs", "fault_sequences"],
 "every message content and length within the frame limit, every partial-encode split, every corruption of up to that many bits, at any point in a stream of frames",
 "The tests corrupt three or four literal frames; the claim is over all messages, lengths and corruption positions.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("CRC over the message, appended at the end of the frame", "src/protocol.cpp Crc8Layer, Crc16Layer")],
 None, ["messages decoded above the checksum layer"])

prop("P05", "Messages of any size cross frame-limited transports unchanged",
 "A message of any size, handed over in any number of pieces, that is segmented to fit a transport's maximum frame size arrives as exactly one identical message, and no frame handed to the transport exceeds that maximum. Messages are never merged, split or reordered, and a reset in the middle of a message affects no message that is encoded afterwards.",
 ["inputs", "configurations", "histories"],
 "every maximum frame size from the smallest up, every stack of layers that reserves bytes, every message size and every split in partial encodes, any interleaving of the two directions and resets",
 "Tests use one MTU and messages of a few bytes; off-by-one errors at size boundaries and state left over between messages need the whole grid.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("segmentation, continuation markers, mtu() propagation", "src/protocol.cpp SegmentationLayer"), ("mtu of each layer", "src/protocol.cpp")],
 None, ["frames at the transport", "messages decoded at the receiving side"])

prop("P06", "Debug messages are recovered from a shared terminal byte stream",
 "Frames embedded in a terminal byte stream are recovered exactly, in order, and everything outside the frames reaches the terminal side unchanged and in order, regardless of how the stream is cut into reads, of carriage returns inserted by the terminal driver, and of other output written between the frames. What is put on the line inside a frame contains no characters that the terminal acts on (no control characters at all when full escaping is selected), and noise or an incomplete frame never hides a later complete frame for good.",
 ["inputs", "schedules", "fault_sequences"],
 "every chunking of the stream, including cuts inside the frame delimiters, every byte value in messages and in terminal output, noise and truncated frames at any point",
 "Tests feed whole frames in one call with a few literal strings; chunk boundaries and byte combinations multiply beyond examples.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("frame delimiters and state machine", "src/protocol.cpp TerminalLayer"), ("control-character escaping", "src/protocol.cpp AsciiEscapeLayer"), ("frame assembly", "src/protocol.cpp BufferLayer")],
 None, ["messages decoded above, non-debug output handed to the terminal"])

prop("P07", "Debugging over a noisy serial line behaves as over a perfect one",
 "A debug client connected through a complete recommended stack (escaping, framing, checksum, retransmission, segmentation) over a byte line that drops and corrupts bytes, cuts reads anywhere and stalls, observes the same responses and causes the same effects on the target's store and streams as over a perfect line. When the line works again every outstanding request completes within a bounded number of retransmits.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of debug requests and every sequence of byte loss, corruption, chunking, stalls and target-side output within the checksum's detection limits",
 "Tests exercise layers in isolation; only the assembled stack shows interactions between retransmission, purgeable responses, segmentation limits and frame resynchronisation.",
 ["src/protocol.cpp", "src/debugger.cpp", "python/libstored/protocol.py"],
 [("layer composition", "include/libstored/protocol.h ProtocolLayer::wrap"), ("lossy stack", "examples/terminal, examples/7_protocol")],
 None, ["client responses", "target store contents", "stream contents"])

prop("P08", "Synchronised stores converge to identical contents",
 "Stores of the same type that are connected through synchronisation links in a tree become equal in every variable once writing stops and the links keep being serviced, for any timing of messages and any order of servicing, when every variable is written at one place only. A change made anywhere is passed on to every other replica exactly as written, whichever byte order the stores use, over links that fragment, delay, or (with retransmission) lose frames.",
 ["schedules", "histories", "configurations"],
 "every tree of nodes, store mix, every history of writes of any type and size, every interleaving of writes, link servicing and frame delivery",
 "The tests synchronise two to three stores in lock-step with one write at a time; convergence is a statement over all interleavings and topologies.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h", "doc/rst/libstored_synchronizer.rst"],
 [("per-store change journal with sequence numbers", "src/synchronizer.cpp StoreJournal"), ("hello/welcome/update protocol", "src/synchronizer.cpp SyncConnection")],
 [("m_seqLower", "last journal sequence exchanged per connection and store", "include/libstored/synchronizer.h SyncConnection")],
 ["store buffers of all nodes at quiescence"])

prop("P09", "Replicas only ever see values that were written, in writing order",
 "Every value a replica of a synchronised store takes on was written by the variable's writer (or is its value at connection time), a replica never goes back to an older value of a variable once it has seen a newer one, and values written together before one servicing of a link become visible together. No update is sent back to where it came from and a link with nothing new to tell stays silent.",
 ["schedules", "histories"],
 "every history of writes and every interleaving of link servicing and frame delivery in every tree topology",
 "A test sees one schedule; stale values, echoes and torn values show only when updates cross each other in flight or when the journal is pruned in between.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h"],
 [("journal sequence numbers and iteration of changes", "src/synchronizer.cpp StoreJournal::encodeUpdates/decodeUpdates"), ("echo suppression", "src/synchronizer.cpp Synchronizer::process")],
 None, ["every store after every delivered message", "messages on the links"])

prop("P10", "Links and nodes may come and go; surviving replicas stay consistent",
 "When a link is disconnected, reset or re-established, or a node restarts with fresh contents, the replicas below the link that has the up-to-date store end up equal to it again after the connection is restored, and other stores and other links of the same nodes are not disturbed. Messages of a previous session that arrive late neither corrupt a store nor stop it from synchronising again.",
 ["crash_points", "fault_sequences", "schedules"],
 "a disconnect, reconnect, link reset, restart or goodbye at any point of a synchronising multi-store tree, with frames of the old session still in flight or lost",
 "The tests connect once; reconnecting in the middle of a handshake or with stale messages in flight is never exercised.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h"],
 [("session ids, hello/welcome/bye", "src/synchronizer.cpp SyncConnection"), ("reset and reconnect handling", "src/synchronizer.cpp SyncConnection::reset/connected")],
 None, ["store buffers after reconnection", "messages on other links"])

prop("P11", "A misbehaving synchronisation peer cannot corrupt a node",
 "Whatever bytes arrive over a synchronisation link - truncated, corrupted, duplicated or made-up messages - a node never reads or writes outside the synchronised stores, never crashes, and never modifies stores that the link has no established session for; afterwards a well-behaved peer can still synchronise over other links.",
 ["inputs", "fault_sequences", "histories"],
 "every mutation of valid message sequences and arbitrary messages, in every state of the session",
 "Unit tests only send well-formed messages; the fuzz harness in the tree is not run as a test and checks crashes of a fresh session only.",
 ["src/synchronizer.cpp"],
 [("bounds checks when decoding keys, lengths and ids", "src/synchronizer.cpp StoreJournal::decodeBuffer/decodeUpdates, SyncConnection::decode")],
 None, ["sanitizers", "guard bytes around stores", "store contents"])

prop("P12", "The change journal never misses or resurrects a change",
 "For every point in a store's history that a link may still ask for, the journal reports as changed exactly the objects changed since then (a superset only within its documented precision), no matter how many changes and sequence numbers lie in between or how often the history is cleaned. Answers do not depend on whether the short representation of a sequence number has wrapped.",
 ["histories"],
 "every history of changes, sequence-number advances and queries, across many wrap-arounds of the 16-bit short sequence number and cleanups",
 "The existing test walks one history around one wrap; a miss appears only for certain ages of an entry relative to the cleanup window.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h"],
 [("short sequence numbers, safety margin, clean()", "src/synchronizer.cpp StoreJournal")],
 [("ObjectInfo", "key, length, short sequence, highest sequence in subtree", "include/libstored/synchronizer.h StoreJournal")],
 ["StoreJournal::hasChanged, iterateChanged"])

prop("P13", "Every debug request gets one response that reflects the store",
 "A debugger answers every request it is given, valid or not, with exactly one complete response message, in request order; reads return the last value written by the application or a client, writes either take effect completely and are acknowledged or leave everything unchanged and are refused, and listing, aliases, macros and identification behave as a plain model of them says, under their configured limits. Stores mapped into the same debugger do not influence each other.",
 ["histories", "inputs", "schedules"],
 "every history of requests from a client interleaved with application writes, mapping and unmapping of stores, up to and over the limits for aliases and macros",
 "Tests issue fixed requests against a fresh debugger; the guarantee is over histories where aliases, macros, streams and stores interact.",
 ["src/debugger.cpp", "include/libstored/debugger.h"],
 [("request dispatch and response", "src/debugger.cpp Debugger::process/processApplication")],
 None, ["responses", "store contents"])

prop("P14", "Remote memory reads and writes touch exactly the requested bytes",
 "A remote memory write changes exactly the addressed bytes to exactly the given values, a remote memory read returns exactly the addressed bytes, for any length that fits a message, and a malformed request is refused without touching memory.",
 ["inputs", "histories"],
 "every address, length and content of reads and writes, well-formed and malformed, in any order, transported in any number of segments",
 "Tests read and write a few bytes at one address.",
 ["src/debugger.cpp"],
 [("memory commands", "src/debugger.cpp Debugger::processApplication CmdReadMem/CmdWriteMem")],
 None, ["a guarded memory arena before and after each request"])

prop("P15", "Stream data reaches the client exactly once and in order",
 "What an application writes to a debug stream is what the client reads from it: the concatenation of all received chunks is the written data in order, without loss, repetition or mixing between streams, whether or not chunks are compressed, as long as the documented buffer limits are respected; what does not fit is not accepted, and the application is told how much was. Flushing and the fixed number of streams never break this, and memory use stays bounded.",
 ["schedules", "histories", "configurations"],
 "every interleaving of application writes and flushes with client requests, response losses and retransmits, for every stream, buffer size and compression setting",
 "Tests write a few short strings and read them at once; loss at buffer limits, blocking after flush and interaction with retransmits need interleavings.",
 ["src/debugger.cpp", "src/compress.cpp", "include/libstored/debugger.h", "include/libstored/compress.h"],
 [("stream buffer, double buffering, flush and block", "include/libstored/debugger.h Stream, src/debugger.cpp Debugger::stream/streams"), ("compression", "src/compress.cpp CompressLayer")],
 None, ["stream responses, decompressed"])

prop("P16", "Traces hold complete samples at the configured rate",
 "A configured trace appends the complete output of its macro to its stream once per configured number of trace invocations, never a truncated or interleaved sample, and drops whole samples only when the stream buffer is full. Reconfiguring, disabling or draining the trace at any moment leaves every other stream and later samples intact.",
 ["schedules", "histories"],
 "every interleaving of trace invocations, trace configuration, macro redefinition and stream reads, with every decimation factor and buffer fill level",
 "Tests take a few samples into an empty buffer; truncation shows only at particular fill levels.",
 ["src/debugger.cpp", "include/libstored/debugger.h"],
 [("trace()", "src/debugger.cpp Debugger::trace"), ("stream swap and capacity checks", "include/libstored/debugger.h Stream")],
 None, ["trace stream contents"])

prop("P17", "Garbage on any debug transport is survived",
 "Arbitrary bytes arriving at any protocol stack, debugger or client-facing transport, at any moment, never crash the target, never make it access memory outside its buffers, never block it, and never stop it from serving later valid requests after resynchronisation.",
 ["inputs", "fault_sequences", "histories"],
 "every mutation, truncation, duplication and insertion of frames in every state of every stack composition",
 "The fuzz targets in the tree are not run by the test suite and check a single decode into a fresh object.",
 ["src/protocol.cpp", "src/debugger.cpp", "src/compress.cpp"],
 [("length checks in every decode()", "src/protocol.cpp, src/debugger.cpp")],
 None, ["sanitizers, response to a valid request afterwards"])

prop("P18", "The single-producer single-consumer FIFO is linearizable",
 "With one thread producing and one consuming, the element FIFO behaves as an atomic bounded queue under every interleaving of the two threads' memory operations permitted by the memory model: each element is received exactly once, in order, fully constructed, never before it was pushed; a full FIFO refuses, an empty one yields nothing. The reported fill level is never more than the capacity and an observer never sees elements that are not there.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the individual atomic and buffer accesses of producer and consumer, for every capacity, bulk and single operations, including stale reads permitted by the used memory orders",
 "The tests run the FIFO on one thread (or two free-running threads for a moment); the dangerous interleavings are between two particular memory accesses.",
 ["include/libstored/fifo.h"],
 [("release/acquire publication of read and write pointers", "include/libstored/fifo.h Fifo")],
 [("m_wp/m_rp", "write and read index", "include/libstored/fifo.h Fifo")],
 ["sequence of values popped"], None)

prop("P19", "The message FIFO and loopback keep messages whole across two threads",
 "With one thread producing and one consuming, messages pushed into the message FIFO or a FIFO loopback come out whole, unmodified, in order and exactly once under every interleaving, a message under construction is invisible until completed and can be dropped, and a push only fails when the message does not fit now, raising the overflow handler. After any history the space becomes fully available again when drained.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the individual memory accesses of producer and consumer, for every capacity, message size pattern, partial append and wrap-around",
 "As for the element FIFO; in addition the wrap-around cases depend on the pattern of message sizes.",
 ["include/libstored/fifo.h"],
 [("message descriptors in an inner FIFO, buffer pointers", "include/libstored/fifo.h MessageFifo, FifoLoopback")],
 None, ["messages popped or decoded"], None)

prop("P20", "File, pipe and stdio transports deliver the byte stream unchanged",
 "Data encoded into a file, named-pipe, double-pipe or stdio transport comes out at the other side complete, in order and unchanged, whatever partial reads and writes, would-block conditions, interruptions, and open/close timing the operating system produces; a permanent error is reported through the last error and closes the transport instead of losing data silently. Receiving with a zero timeout never blocks and reports whether data was handled.",
 ["fault_sequences", "schedules"],
 "every sequence of short reads and writes, EINTR, EAGAIN, EOF, broken pipes and hard errors returned by the system calls, at every call",
 "The tests use real pipes, which never produce short writes, interruptions or errors for such small messages.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("write/read loops and error handling", "src/protocol.cpp FileLayer, NamedPipeLayer, DoublePipeLayer, StdioLayer")],
 None, ["bytes at the simulated file descriptors", "messages decoded", "lastError()"])

prop("P21", "Pollers report exactly the sources that are ready",
 "A poller returns every registered source that is ready for an event it asked for, with the right event flags and its own user data, and no other source, for every history of additions and removals and every outcome of the underlying system call; timeouts, interruptions and errors are reported as such and leave the set of registered sources intact.",
 ["schedules", "histories", "fault_sequences"],
 "every history of add/remove/poll and every readiness pattern, order of ready sources, interruption and failure of the system call or of memory allocation",
 "Tests poll one or two descriptors with one ready at a time.",
 ["src/poller.cpp", "include/libstored/poller.h"],
 [("item bookkeeping and event mapping", "include/libstored/poller.h InheritablePoller, src/poller.cpp")],
 None, ["poll results"])

prop("P22", "Message transports over sockets keep message boundaries and report errors",
 "A message handed to the socket-based message transports, in one or several parts, arrives as exactly one message with the same bytes; parts of different messages are never mixed, would-block conditions are retried, and errors are reported through the last error, success only when the message was really handed over. A debug server that gets out of step with its client recovers by answering.",
 ["fault_sequences", "schedules"],
 "every outcome of the socket calls (would-block, interruption, failure, multi-part delivery, out-of-state) at every call",
 "The tests have no socket-based transport test in C++; the Python test only runs the fault-free path.",
 ["src/zmq.cpp", "include/libstored/zmq.h"],
 [("multi-part receive and blocking retry", "src/zmq.cpp ZmqLayer")],
 None, ["messages at the simulated socket", "lastError()"])

prop("P23", "The Python protocol stack and the target understand each other",
 "The Python client stack and the target's stack, built from corresponding layers and connected by a line that loses, delays, cuts or corrupts data, agree: each request sent by the client is executed by the target as if sent over a perfect line and its response is returned to the client intact, after retransmits triggered by timeouts.",
 ["fault_sequences", "configurations", "histories"],
 "every corresponding pair of stacks, every request and response size, every sequence of loss, delay, chunking and timeouts",
 "The Python tests run one loss-free connection over a local socket.",
 ["python/libstored/protocol.py", "src/protocol.cpp"],
 [("Python layers", "python/libstored/protocol.py"), ("C++ layers", "src/protocol.cpp")],
 None, ["responses received by the Python side", "requests executed by the target"])

prop("P24", "Pipes pass exactly the injected values, in order and at the configured rate",
 "Only injected values come out of a network of pipe segments, in order of injection, and unchanged unless a segment's function changes them: buffering, change-detecting, triggered, branching, multiplexing and connected segments each pass what they should, at the moment they should. A rate-limiting segment lets values through at injection no more often than the configured interval, whatever the clock does; of the values it held back only the latest comes out, at a trigger no earlier than that interval, and none is lost by then. What a segment holds survives moving and connecting it.",
 ["schedules", "histories"],
 "every network of the standard segments, every sequence of injections and triggers, at any clock readings (also jumping back)",
 "Tests use a few fixed networks and one fixed sequence of injections in real time; wrong state after a specific order of injections, triggers and clock readings is not sampled.",
 ["include/libstored/pipes.h"],
 [("RateLimit", "include/libstored/pipes.h RateLimit"), ("Triggered, Changes, Buffer, Mux, Tee", "include/libstored/pipes.h")],
 None, ["values leaving the pipe"])
prop("P25", "An application is told about every change of its variables, once it is there",
 "Whenever a variable gets another value, by a local write or by a synchronisation message from another node, the store's change notification of exactly that variable is called, at most once for every write or message, and the new value can be read from within it. A local write that does not change the value gives no notification or signal, and a message does not notify variables it does not contain. Access to a variable is announced before and released after every read or write by the synchroniser or the application, in pairs, and exclusive access is never given while there is other access to the same variable.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every store size and layout, every network, every interleaving of local writes and messages, and every connection, reset and crash",
 "Tests check one notification of one small store; the list of changed variables is assembled in the received message itself, and depends on key size, alignment, number and size of the updates.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h", "include/libstored/store.h.tmpl", "include/libstored/signal.h"],
 [("notifications while applying a message", "src/synchronizer.cpp StoreJournal::decodeUpdates, decodeBuffer"),
  ("hooks of generated stores", "include/libstored/store.h.tmpl"), ("Synchronizable", "include/libstored/synchronizer.h"), ("signals", "include/libstored/signal.h Signalling")],
 None, ["change, entry and exit hooks of the stores", "contents of the stores"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
