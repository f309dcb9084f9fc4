"""What check.py has to know about each property."""

class Prop:
    def __init__(self, binary, technique, rule, real, stubs, assumptions=(), quick=25, thorough=600):
        self.binaries = [binary] if isinstance(binary, str) else list(binary)
        self.technique, self.rule = technique, rule
        self.real, self.stubs = list(real), list(stubs)
        self.assumptions, self.quick, self.thorough = list(assumptions), quick, thorough

    def argv(self, B):
        """Command per variant."""
        b = B.build(self.binaries)
        return {n: [b[n]] for n in self.binaries}

NOT_APPLICABLE = {}

ARQ = dict(
    real=["ArqLayer, ProtocolLayer (src/protocol.cpp, include/libstored/protocol.h)"],
    stubs=["line between the peers (FIFO, loses and delays frames)", "application and its retransmit timers", "peer crashes"])

SYNC = dict(
    real=["Synchronizer, SyncConnection, StoreJournal, Synchronizable stores generated from .st files, SegmentationLayer and ArqLayer "
          "on some links"],
    stubs=["links between the nodes (FIFO)", "applications that write to the stores"])

DBG = dict(
    real=["Debugger (all commands, aliases, macros, streams, traces), CompressLayer, generated stores, Variant, directory lookup and listing"],
    stubs=["client that sends requests", "application that writes to the stores and streams", "heatshrink decoder at the client (the real library)"])

FULLREAL = ["Debugger, DebugArqLayer, ArqLayer, Crc8Layer, Crc16Layer, AsciiEscapeLayer, TerminalLayer, SegmentationLayer, BufferLayer, "
            "CompressLayer, a generated store"]

PROPS = {
    "P01": Prop("arq", "two real ARQ peers over a simulated lossy FIFO line against a sequence oracle",
        "A fault is a lost frame or a frame that is delivered late; abstract state is the first bytes of the frames on both "
        "lines, ack/retransmit state and backlog of both peers.",
        assumptions=["the line keeps frame order and does not duplicate or corrupt frames (layers below do that)",
                     "no retransmit while the reset handshake is in flight (listed as a known finding)"], **ARQ),
    "P02": Prop("arq", "two real ARQ peers, restarted and reset at arbitrary steps, over a simulated lossy FIFO line against a sequence oracle",
        "A fault is a lost or late frame, a restart (construction of a new peer), or a reset of a peer.",
        assumptions=["frames on the line are lost when a peer restarts or is reset (otherwise: listed as a known finding)",
                     "no retransmit while the reset handshake is in flight (listed as a known finding)"], **ARQ),
    "P03": Prop("dbgarq", "real target-side debug ARQ stack against an executable reference client over a simulated lossy, delaying FIFO line",
        "A fault is a lost frame, a retransmit (early or not), or a client or target restart; abstract state is the head of the frames "
        "on both lines and the client's progress.",
        real=["DebugArqLayer, SegmentationLayer, ProtocolLayer (target side)"],
        stubs=["reference client, written from the protocol documentation", "line (FIFO, loses and delays frames)", "command executor above the stack"],
        assumptions=["the line keeps frame order and does not corrupt frames (layers below do that)",
                     "a client only retransmits before the line is silent when responses need not be regenerated (a late and a "
                     "regenerated response cannot be told apart in this protocol)",
                     "frames of the previous session are lost when a client or target restarts"]),
    "P04": Prop("stack", "real checksum layers over a line that flips bits, bursts, loses and truncates frames, against a bitwise reference checksum",
        "A fault is a corrupted, truncated or lost frame, or a reset of both stacks; abstract state is the frame length, kind of "
        "corruption and last byte.",
        real=["Crc8Layer, Crc16Layer, ProtocolLayer"], stubs=["line (corrupts, drops)", "application"],
        assumptions=["messages are at most 256 bytes, which is the frame size the layers advertise",
                     "8-bit: two flipped bits at a multiple of 127 bits are a known finding"]),
    "P05": Prop(["stack", "dbgarq"], "two real layer stacks of random composition over a simulated frame-limited transport, with delays and resets",
        "A fault is a reset of both stacks, possibly mid-message and with frames in flight; abstract state is the layer composition "
        "and what is on the lines.",
        real=["SegmentationLayer, CompressLayer, ArqLayer, Crc8Layer, Crc16Layer, AsciiEscapeLayer, TerminalLayer, BufferLayer, "
              "IdleCheckLayer, CallbackLayer, PrintLayer, Loopback, DebugArqLayer"],
        stubs=["transport with a maximum frame size (FIFO, no loss)", "application"],
        assumptions=["the maximum frame size leaves room for data in every layer", "the terminal layer only carries escaped data"]),
    "P06": Prop("stack", "real terminal and escape layers over a simulated byte stream that is cut anywhere, gets carriage returns, noise and truncated frames",
        "A fault is noise or an incomplete frame on the line; abstract state is the bytes around every cut.",
        real=["TerminalLayer, AsciiEscapeLayer, BufferLayer"], stubs=["terminal driver and byte line", "application, terminal output"],
        assumptions=["output between frames does not contain the start-of-frame sequence itself"]),
    "P08": Prop(["sync", "syncbe"], "trees of real synchronizers over simulated delaying and lossy links against exact snapshots of the sender",
        "A fault is a lost frame or a retransmit on a link; abstract state is what is sent over which link with how many frames in flight.",
        assumptions=["every variable has one writer, which writes once its replica got the contents of the source; before a node exchanged any contents, anyone writes anything",
                     "with several writers, a link is processed at least every 30000 changes of the journal (beyond 49152, more is sent than changed, as documented)",
                     "all replicas of a store use the same byte order, and links keep the order of messages"], **SYNC),
    "P09": Prop(["sync", "syncbe"], "trees of real synchronizers with a per-message monitor for echoes, empty updates and traffic without changes",
        "A fault is a lost frame or a retransmit on a link; abstract state is what is sent over which link with how many frames in flight.",
        assumptions=["every variable has one writer, which writes once its replica got the contents of the source; before a node exchanged any contents, anyone writes anything",
                     "with several writers, a link is processed at least every 30000 changes of the journal (beyond 49152, more is sent than changed, as documented)"], **SYNC),
    "P10": Prop(["sync", "syncbe"], "trees of real synchronizers with connections, nodes and links that fail and come back, checked for convergence",
        "A fault is a disconnect, reconnect, link reset, node restart, node crash, unmapped store, line cut or lost frame.",
        assumptions=["every variable has one writer", "after faults, connections are set up again and one end resets the link"], **SYNC),
    "P11": Prop(["sync", "syncbe"], "a real synchronizer attacked by a hostile peer over one of its links, under address and undefined behaviour sanitizers",
        "A fault is a crafted, mutated or damaged message of the hostile peer.",
        assumptions=["a hostile peer may write any variable of the stores it has a session for"], **SYNC),
    "P12": Prop(["sync", "syncbe"], "the real journal driven through long simulated histories against an exact reference model",
        "A fault is the passing of many sequence numbers or a clean-up; abstract state is the epoch of the sequence number and the number of entries.",
        real=["StoreJournal"], stubs=["store buffer, connections"]),
    "P13": Prop(["dbg", "dbgalt"], "a real debugger driven by interleaved client, application and (un)mapping events against an executable reference model",
        "A fault is a store that is mapped, replaced, unmapped or destroyed; abstract state is the request, kind of response, and number "
        "of stores, aliases and macros.",
        assumptions=["an empty frame is no request", "names that are not a proper (abbreviated) name may be refused or resolve to any object",
                     "values longer than a string or blob are truncated and acknowledged"], **DBG),
    "P14": Prop(["dbg", "dbgalt"], "a real debugger that reads and writes a guarded arena, interleaved with other requests, against a byte model",
        "Abstract state is the request and length and kind of response; there are no faults but malformed requests.",
        assumptions=["the address range of a well-formed request is memory of the application"], **DBG),
    "P15": Prop(["dbg", "dbgalt", "dbgdyn"], "a real debugger with application writes interleaved with (and within) client requests, against a model of the streams",
        "A fault is a write by the application while the debugger sends a response.",
        assumptions=["data is lost when the client does not retrieve a response (see P03 and P07)"], **DBG),
    "P16": Prop(["dbg", "dbgalt", "dbgdyn"], "a real debugger with trace invocations interleaved with client requests and application writes, against a model of the trace",
        "Abstract state is the request and kind of response.",
        assumptions=["the trace macro does not read or write streams itself",
                     "the sample that follows (re)configuration may come at any of the first invocations of the decimation period"], **DBG),
    "P07": Prop(["full", "fullalt"], "a real debugger behind the complete real stack, on a simulated byte line with bit flips, lost, inserted and changed bytes, "
                "bursts, cut frames, arbitrary read sizes and stalls; a reference client written from the documentation retransmits on timeouts and "
                "restarts; a twin target executes every request once, at the moment the target does: responses, store, function calls and streams are compared",
        "Abstract state is the request kind, the fault that hit it, the retransmit count and the phase.",
        real=FULLREAL, stubs=["serial line", "client (reference implementation of the documented protocol)", "application"],
        assumptions=["runs in which corruption is undetectable by the checksum are not judged (counted as probe undetectable)",
                     "responses the target marks as purgeable may be executed again when they are retransmitted",
                     "the client retransmits only after it has heard nothing for the time the line needs to get silent"]),
    "P17": Prop(["full", "fullalt"], "a real debugger behind random stacks of the real layers, fed with random bytes, mutated, replayed and truncated frames composed at every "
                "level of the stack, under AddressSanitizer and UndefinedBehaviorSanitizer with exactly sized buffers and a time limit per step; "
                "afterwards resynchronisation and a valid request that has to be answered",
        "Abstract state is the stack, the number and size of the responses, the number of macros and aliases, and whether a trace is active.",
        real=FULLREAL, stubs=["transport", "client that sends the valid requests", "application"],
        assumptions=["macros that call macros are not generated: their run time may legitimately be exponential",
                     "well-formed requests to read or write raw memory are intercepted, as these access arbitrary memory by design; malformed ones are processed"]),
    "P18": Prop("fifo", "the real Fifo, for several capacities and element types, between two simulated threads: every memory access of the real code goes through a "
                "simulated memory (instrumentation of the compiler, own runtime) that decides every preemption and gives atomic loads any value the "
                "C++ memory model allows, with vector clocks to detect unordered accesses; received elements and reported levels against the pushed sequence",
        "Abstract state is the element type, capacity, fill level, write position and number of preemptions.",
        real=["Fifo, Buffer, BufferView, PopIterator (include/libstored/fifo.h), compiled with -fsanitize=thread instrumentation"],
        stubs=["threads (coroutines)", "ThreadSanitizer's runtime, replaced by the simulated memory", "producer and consumer"],
        assumptions=["at most one producer and one consumer; clear() is called by the consumer", "a push is only attempted when space() says it fits (precondition)",
                     "consume is treated as acquire, as compilers do"]),
    "P19": Prop("fifo", "the real MessageFifo and FifoLoopback (both directions) between two simulated threads with simulated preemptions and weak memory (as P18); "
                "received messages against the pushed sequence, refusals against the space",
        "Abstract state is the kind, capacity, number of messages in the FIFO, size of the message under construction and number of preemptions.",
        real=["MessageFifo, FifoLoopback1, FifoLoopback, Fifo (include/libstored/fifo.h), PolledLayer, ProtocolLayer, compiled with -fsanitize=thread instrumentation"],
        stubs=["threads (coroutines)", "ThreadSanitizer's runtime, replaced by the simulated memory", "producers, consumers, overflow handlers"],
        assumptions=["one producer and one consumer per FIFO", "messages that never fit the capacity are not pushed (they throw by design)"]),
    "P21": Prop(["os", "osnz"], "the real Poller (on zmq_poll() and on poll()), the LoopPoller and PollPoller, and the deprecated interface, on a simulated poll(), "
                "zmq_poll() and poll_once(): readiness, arrivals while blocking, interruptions, errors, invalid descriptors, throwing callbacks and allocation "
                "failures; the results against a reference set of sources",
        "Abstract state is the number of reported sources, the kind of poller, the timeout and the error.",
        real=["Poller, CustomPoller, PollPoller, ZmqPoller, LoopPoller (src/poller.cpp, include/libstored/poller.h), ZmqLayer as a source"],
        stubs=["poll()", "libzmq", "the application's poll_once() and callbacks"],
        assumptions=["a source is not added twice", "how an invalid descriptor (POLLNVAL) is reported is not specified: as error, or not at all",
                     "the events of a callback are a subset of what is asked for"]),
    "P20": Prop(["os", "osnz"], "the real file, pipe, serial and polled transports on a simulated operating system: read(), write(), open(), close(), poll() and the "
                "terminal calls return short counts, EAGAIN, EINTR and errors, and time passes while blocked; bytes received against bytes written, "
                "and the errors reported against those injected",
        "Abstract state is the kind of layer, the operation and its outcome.",
        real=["FileLayer, NamedPipeLayer, DoublePipeLayer, StdioLayer, SerialLayer, PolledFileLayer (src/protocol.cpp), Poller"],
        stubs=["operating system calls (linker --wrap)", "the other end of every file"],
        assumptions=["zero bytes read means the end of the file, which may grow (documented as EAGAIN)", "an inbound named pipe stays closed after a permanent error",
                     "the keep-alive bytes of the Xsim transport may block when the pipe is full"]),
    "P22": Prop("os", "the real ZeroMQ transports on a simulated libzmq: parts, would-block, high-water marks, interruptions, errors, failing allocations, "
                "and a REQ/REP server that is out of step; messages received against messages sent, and the errors reported against those injected",
        "Abstract state is the kind of socket, the last error, the fill of both queues, and the state of the socket.",
        real=["ZmqLayer, DebugZmqLayer, SyncZmqLayer (src/zmq.cpp), ZmqPoller, Poller"], stubs=["libzmq", "the peer", "the layer on top"],
        assumptions=["libzmq delivers all parts of a message at once, and does not report a temporary error within a message"]),
    "P24": Prop("pipes", "random networks of the real pipe segments with a simulated clock that stands still, advances and jumps back, and seeded injections, "
                "triggers, group triggers, connections, copies and moves, against a reference model of every segment; values at the sinks, return values, "
                "results of triggers and held values are compared",
        "Abstract state is the kind of segment, the operation, whether it passed a value, and whether it holds one.",
        real=["pipes (include/libstored/pipes.h): Entry, Exit, Ref, Group, Buffer, Call, Changes, Triggered, RateLimit, Tee, Mux, Identity, open pipes"],
        stubs=["clock (the Clock template parameter)", "sinks"],
        assumptions=["what happens when the interval is over exactly now is not specified", "the clock does not go before its epoch",
                     "a value passed by a trigger does not start a new interval (as the existing tests require)"]),
    "P25": Prop(["sync", "syncbe"], "trees of real synchronizers with connections, nodes and links that fail and come back, of which the stores report every change, "
                "entry and exit; contents before and after every write and message are compared with what was reported",
        "A fault is a disconnect, reconnect, link reset, node restart, node crash, unmapped store, line cut or lost or late frame.",
        assumptions=["every variable has one writer, hence every variable occurs once in a message", "whether a signal is given when a message changes a variable is not specified",
                     "what belongs to which store is not judged while one end reuses ids the other end does not know of"],
        real=SYNC["real"] + ["Signalling, change, entry and exit hooks of generated stores and of plain journals"], stubs=SYNC["stubs"]),
    "P23": Prop("py", "the real Python client stack (embedded interpreter) and the real target stack of corresponding layers with a real debugger, on a simulated "
                "line that loses, damages, cuts and delays bytes or frames, with seeded timeouts and restarts; a twin target executes every request once: responses, "
                "store, function calls and terminal text are compared",
        "Abstract state is the request kind, the kind of line, layers, and the load of the line in both directions.",
        real=["python/libstored/protocol.py: all layers but LoopbackLayer; Debugger, DebugArqLayer, Crc8Layer, Crc16Layer, AsciiEscapeLayer, TerminalLayer, "
              "SegmentationLayer, BufferLayer, a generated store"],
        stubs=["line", "ZeroMQ and clock (Python)", "application", "the owner of the stack that decides when to time out"],
        assumptions=["runs in which corruption is undetectable by the checksum are not judged (counted as probe undetectable)",
                     "responses the target marks as purgeable may be executed again when they are retransmitted",
                     "the client only times out before the line is silent when the response need not be regenerated",
                     "damage only occurs when there is a checksum, loss only when there is automatic repeat", "a restart finds the line silent"]),
}
