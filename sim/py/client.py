# Glue between the simulator (C++, which embeds Python) and the real Python protocol stack.
# Only documented entry points of the package are used: buildStack(), registerLayerType(), and the interface of a layer.
import importlib.util, logging, os, struct, sys, types
import crcmod

sys.dont_write_bytecode = True

class SimTime(types.ModuleType):
    """The clock is simulated."""
    def __init__(self):
        super().__init__("time")
        self.now = 1000.0
    def time(self): return self.now
    monotonic = perf_counter = time
    def sleep(self, s): self.now += s

class PubSocket:
    def __init__(self): self.closed = False
    def bind(self, *a): pass
    def setsockopt(self, *a): pass
    def send(self, data, *a, **k): Pub.out += data
    def close(self, *a): self.closed = True

class Pub:
    out = bytearray()

class ZContext:
    def socket(self, kind): return PubSocket()
    @classmethod
    def instance(cls): return cls()
    def term(self): pass

sim_time = SimTime()

def load(repo):
    zmq = types.ModuleType("zmq")
    zmq.Context = ZContext
    zmq.PUB, zmq.REP, zmq.POLLIN, zmq.NOBLOCK = 1, 4, 1, 1
    zmq.ZMQError = type("ZMQError", (Exception,), {})
    sys.modules["zmq"] = zmq
    real_time = sys.modules["time"]
    sys.modules["time"] = sim_time
    spec = importlib.util.spec_from_file_location("libstored_protocol", os.path.join(repo, "python/libstored/protocol.py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules["libstored_protocol"] = m
    spec.loader.exec_module(m)
    sys.modules["time"] = real_time



    class Port(m.ProtocolLayer):
        """The driver of the line; has an MTU, and is at the bottom."""
        name = "simport"
        def __init__(self, mtu="0"):
            super().__init__()
            self._mtu = int(mtu)
        @property
        def mtu(self):
            return self._mtu

    class Spy(m.ProtocolLayer):
        name = "simspy"
        def __init__(self, which="0"):
            super().__init__()
            self.which = int(which)
            self.sink = None
        def encode(self, data):
            if isinstance(data, str):
                data = data.encode()
            self.sink(self.which, 0, bytes(data))
            super().encode(data)
        def decode(self, data):
            self.sink(self.which, 1, bytes(data))
            super().decode(data)

    m.registerLayerType(Port)
    m.registerLayerType(Spy)
    global protocol
    protocol = m
    return m

class Client:
    def __init__(self, description, sink):
        """sink(what, data): 0: frame to the line, 1: response, 2: text; 10+2*which+dir: spied data."""
        self.sink = sink
        Pub.out = bytearray()
        self.stack = protocol.buildStack(description)
        self.stack.down = lambda d: sink(0, d.encode() if isinstance(d, str) else bytes(d))
        self.stack.up = lambda d: sink(1, bytes(d))
        for l in self.stack:
            if isinstance(l, protocol.TerminalLayer):
                l.fdout = lambda d: sink(2, bytes(d))
            elif l.name == "simspy":
                l.sink = lambda which, d, data: sink(10 + 2 * which + d, data)

    def request(self, data):
        self.stack.encode(bytearray(data) if len(data) % 3 == 0 else data)

    def deliver(self, data):
        self.stack.decode(bytearray(data) if len(data) % 2 else data)

    def timeout(self): self.stack.timeout()
    def mtu(self): return self.stack.mtu
    def inject(self, data):
        for l in self.stack:
            if isinstance(l, protocol.TerminalLayer):
                l.inject(data)
                return
    def seqs(self, seq):
        """The encoding of a sequence number, if there are (still) functions for that."""
        for l in self.stack:
            e, d = getattr(l, "encode_seq", None), getattr(l, "decode_seq", None)
            if e and d:
                x = e(seq)
                n = getattr(l, "nextSeq", None)
                return bytes(x), d(x + b"xyz") == (seq, b"xyz") and (not n or n(seq) == (1 if seq == 0x7ffffff else seq + 1))
        return None

    def published(self): return bytes(Pub.out)
    def tick(self, us): sim_time.now += us / 1e6
    def now(self): return sim_time.now
    def last(self): return self.stack.lastActivity()

    def close(self):
        for l in self.stack:
            l.close()
        self.stack = None
