#!/usr/bin/env python3
"""Y01: every awaited call of the Python client ends, with the outcome of its own exchange.

The real async_client.py runs on the real engine (the UniFFI module built from the working tree) under an event
loop whose clock and network belong to this program.  Every history of the moves below, to the stated depth, is run
from each start; after each move the calls that have ended, their outcomes, the messages handed to the user and the
packets on the wire are compared with a model of the exchanges."""
import argparse, asyncio, contextvars, ctypes, gc, hashlib, heapq, importlib, itertools, json, logging, multiprocessing, os, ssl, struct, subprocess, sys, time
from asyncio import events

A = argparse.ArgumentParser()
for o in ("tier", "evidence", "known", "replays", "repo", "lib", "mc", "replay"):
    A.add_argument("--" + o)
A = A.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(A.repo, "python/package"), A.lib]
VC = ctypes.CDLL(os.path.join(A.lib, "vclock.so"))
VC.vclock_set.argtypes = [ctypes.c_longlong]
logging.disable(logging.CRITICAL)
MOD = importlib.import_module("flowsdk.async_client")
TT = MOD.TransportType


class Bad(Exception):
    pass


class Loop(asyncio.AbstractEventLoop):
    """Callbacks in order, timers on the virtual clock, connections to the scripted server."""

    def __init__(self, w):
        self.w, self.ready, self.timers, self.n, self.now = w, [], [], 0, 1000 * 10**9
        VC.vclock_set(self.now)

    def time(self):
        return self.now / 1e9

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def call_soon(self, cb, *args, context=None):
        h = asyncio.Handle(cb, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self.time() + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        h = asyncio.TimerHandle(when, cb, args, self, context)
        self.n += 1
        heapq.heappush(self.timers, (when, self.n, h))
        return h

    def _timer_handle_cancelled(self, h):
        pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def call_exception_handler(self, c):
        e = c.get("exception")
        if "never retrieved" not in c.get("message", ""):
            self.w.problem = "%s: %r" % (c.get("message"), e)

    async def getaddrinfo(self, host, port, **k):
        return [(2, 2, 17, "", ("127.0.0.1", port))]

    async def create_connection(self, factory, host=None, port=None, **k):
        if self.w.net == "hang":
            await self.create_future()
        if self.w.net == "down":
            raise ConnectionRefusedError(111, "refused")
        p = factory()
        t = Transport(self, p)
        self.w.accepted(t)
        self.call_soon(p.connection_made, t)
        if self.w.net == "ends":
            self.call_soon(t.gone, None)
        f = self.create_future()
        self.call_soon(lambda: f.done() or f.set_result(None))
        await f
        return t, p

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, **k):
        p = factory()
        t = Datagrams(self, p)
        self.w.accepted(t)
        self.call_soon(p.connection_made, t)
        f = self.create_future()
        self.call_soon(lambda: f.done() or f.set_result(None))
        await f
        return t, p

    def run(self):
        n = 0
        while self.ready or self.timers and self.timers[0][0] * 1e9 <= self.now:
            h = self.ready.pop(0) if self.ready else heapq.heappop(self.timers)[2]
            if not h.cancelled():
                h._run()
            n += 1
            if n > 5000:
                raise Bad("the loop never comes to rest")

    def advance(self, sec, after):
        end = self.now + int(sec * 1e9)
        self.run()
        n = 0
        while self.timers and self.timers[0][0] * 1e9 <= end:
            when, _, h = heapq.heappop(self.timers)
            if h.cancelled():
                continue
            n += 1
            if n > 40 + sec * 450:
                raise Bad("%d timers in %d s" % (n, sec))
            self.now = max(self.now, int(when * 1e9))
            VC.vclock_set(self.now)
            self.ready.append(h)
            self.run()
            after()
            self.run()
        self.now = end
        VC.vclock_set(end)


class Transport:
    def __init__(self, loop, proto):
        self.loop, self.proto, self.out, self.closing, self.lost = loop, proto, bytearray(), False, False

    def write(self, b):
        if not self.closing and not self.lost:
            self.out += bytes(b)

    def writelines(self, l):
        for b in l:
            self.write(b)

    def is_closing(self):
        return self.closing or self.lost

    def get_extra_info(self, n, default=None):
        return default

    def close(self):
        if not self.closing and not self.lost:
            self.closing = True
            self.loop.call_soon(self.gone, None)

    abort = close

    def gone(self, e):
        if not self.lost:
            self.lost = True
            self.proto.connection_lost(e)


class Datagrams(Transport):
    """A UDP socket that leads to a real QUIC server in a process of its own."""
    server = None

    def __init__(self, loop, proto):
        Transport.__init__(self, loop, proto)
        self.q, self.sid, self.rests = [], {}, {}
        self.hole = loop.w.net != "up"

    def sendto(self, b, a=None):
        if not self.closing and not self.lost and not self.hole:
            self.q.append(bytes(b))

    def rx(self, got):
        for sid, b in got.items():
            self.rests[sid] = self.rests.get(sid, b"") + b
        return len(got)

    def arrived(self):
        out = []
        for sid, b in list(self.rests.items()):
            ps, self.rests[sid] = packets(b)
            if ps:
                out.append((sid, ps))
        return out

    def ask(self, op, data=b""):
        """One request to the server; what it sends is delivered, what arrived is returned by stream."""
        if Datagrams.server is None:
            Datagrams.server = subprocess.Popen([A.mc, "quicserver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        s = Datagrams.server
        s.stdin.write(struct.pack("<cQI", op, self.loop.now, len(data)) + data)
        s.stdin.flush()
        b = s.stdout.read(struct.unpack("<I", s.stdout.read(4))[0])
        n, at = struct.unpack_from("<I", b)[0], 4
        out, rx = [], {}
        for _ in range(n):
            k = struct.unpack_from("<I", b, at)[0]
            out.append(b[at + 4:at + 4 + k])
            at += 4 + k
        n, at = struct.unpack_from("<I", b, at + 2)[0], at + 6
        for _ in range(n):
            sid, k = struct.unpack_from("<QI", b, at)
            rx[sid] = b[at + 12:at + 12 + k]
            at += 12 + k
        for d in out:
            if not self.closing and not self.lost and not self.hole:
                self.proto.datagram_received(d, ("127.0.0.1", 1883))
        return rx


def frame(t, b):
    n, l = len(b), b""
    while True:
        l += bytes([n % 128 | (128 if n > 127 else 0)])
        n //= 128
        if not n:
            return bytes([t]) + l + b


def packets(b):
    """(first byte, body) of the whole packets in b, and the rest."""
    out = []
    while len(b) >= 2:
        n = i = 0
        while True:
            if 1 + i >= len(b):
                return out, b
            n |= (b[1 + i] & 127) << 7 * i
            i += 1
            if not b[i] & 128:
                break
        if len(b) < 1 + i + n:
            break
        out.append((b[0], bytes(b[1 + i:1 + i + n])))
        b = b[1 + i + n:]
    return out, b


def server_ctx():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(os.path.join(V, "mc/certs/server.pem"), os.path.join(V, "mc/certs/server.key"))
    c.set_alpn_protocols(["mqtt"])
    return c


SCTX = server_ctx()
PENDING, ERR = "pending", "error"
MOVES = [
    "connect", "publish q0", "publish q1", "publish q2", "subscribe", "unsubscribe", "disconnect",
    "answer the oldest", "refuse the oldest", "answer the newest", "message q1", "two messages, the handler raises at the first",
    "server closes", "not MQTT", "DISCONNECT from the server", "answer the oldest and close at once", "1 s", "12 s", "100 s",
    "network down/up", "cancel the oldest call", "publish to a topic that is too long", "server ignores pings", "message and close at once",
    "publish q1 and connection reset in the same step",
    "network hangs/up", "server ends connections at once/accepts them",
]
K = len(MOVES)
# transport, MQTT version, clean start
CONFIGS = [(TT.TCP, 5, True), (TT.TCP, 3, False), (TT.TLS, 5, False), (TT.QUIC, 5, True)]
STARTS = ["new", "CONNACK outstanding", "connected", "connected long after the client was made"]


class Op:
    def __init__(self, kind, task, text=b""):
        self.kind, self.task, self.text, self.want, self.pid, self.sent = kind, task, text, PENDING, None, False


class W:
    def __init__(self, cfg, start):
        self.problem = None
        self.loop = Loop(self)
        events._set_running_loop(self.loop)
        self.tr, self.v, self.clean = CONFIGS[cfg]
        self.v5 = self.v == 5
        # the TLS client looks every 10 ms
        self.unit = 1 if self.tr == TT.TCP else 1 / 15
        self.got, self.want_got, self.raises = [], [], False
        self.net, self.conn, self.pings_ok = "up", None, True
        self.ops, self.n = [], 0
        self.server_pid = 0
        self.stale = {}  # identifier -> kind, of exchanges an earlier connection left
        self.c = MOD.FlowMqttClient("c", transport=self.tr, mqtt_version=self.v, clean_start=self.clean, keep_alive=int(30 * self.unit), on_message=self.message,
                                    ca_cert_file=os.path.join(V, "mc/certs/ca.pem"), server_name="localhost" if self.tr == TT.TLS else None)
        self.fresh = True
        if start == 3:
            self.loop.advance(100 * self.unit, lambda: None)
        if start:
            self.op(0)
            self.settle()
        if start >= 2:
            self.op(7)
            self.settle()

    def message(self, topic, payload, qos):
        self.got.append((topic, bytes(payload), qos))
        if self.raises:
            self.raises = False
            raise ValueError("the user's handler")

    # --- the server
    def accepted(self, t):
        t.up = t.accepted = t.mqtt = False  # the client has seen an accepting CONNACK; CONNECT has arrived
        t.todo = []  # (kind, identifier, operation) to be answered
        t.rest = b""
        t.owed = []  # acknowledgements of the client that are due
        t.dead = False  # nothing that the server sends counts any more
        if self.tr == TT.TLS:
            t.i, t.o = ssl.MemoryBIO(), ssl.MemoryBIO()
            t.tls = SCTX.wrap_bio(t.i, t.o, server_side=True)
            t.plain = b""
        if self.tr == TT.QUIC and self.fresh:
            self.fresh = False
            t.ask(b"R")
        self.conn = t
        t.dead = t.closing_due = self.net == "ends" and self.tr != TT.QUIC

    def read(self, t):
        b = bytes(t.out)
        t.out.clear()
        if self.tr != TT.TLS:
            return b
        t.i.write(b)
        out = b""
        while True:
            try:
                d = t.tls.read(65536)
                if not d:
                    break
                out += d
            except ssl.SSLWantReadError:
                break
            except ssl.SSLError:
                break
        self.flush(t)
        return out

    def flush(self, t):
        b = t.o.read()
        if b and not t.is_closing():
            t.proto.data_received(b)

    def send(self, b, sid=0):
        t = self.conn
        if self.tr == TT.QUIC:
            t.rx(t.ask(b"S", struct.pack("<Q", sid) + b))
            return
        if self.tr == TT.TLS:
            t.tls.write(b)
            self.flush(t)
        else:
            t.proto.data_received(b)

    def serve(self):
        t = self.conn
        if t is None:
            return
        if self.tr == TT.QUIC:
            for _ in range(40):
                q, t.q = t.q, []
                got = 0
                for d in q:
                    got += t.rx(t.ask(b"D", d))
                got += t.rx(t.ask(b"T"))
                for sid, ps in t.arrived():
                    for f, body in ps:
                        t.at = sid
                        self.packet(t, f, body)
                self.loop.run()
                if not t.q and not got:
                    return
            raise Bad("datagrams without end")
        for _ in range(20):
            if not t.out:
                break
            b = self.read(t)
            ps, t.rest = packets(t.rest + b)
            for f, body in ps:
                self.packet(t, f, body)
            self.loop.run()

    def packet(self, t, f, body):
        k = f >> 4
        if self.tr == TT.QUIC:
            # answers go where the request came from
            t.sid[(k, int.from_bytes(body[:2], "big"))] = t.at
            if k == 3 and f & 6:
                n = int.from_bytes(body[:2], "big") + 2
                t.sid[(3, int.from_bytes(body[n:n + 2], "big"))] = t.at
            if k in (1, 12, 14) and t.at:
                raise Bad("%02x on stream %d" % (f, t.at))
        if not t.mqtt and k != 1:
            raise Bad("the first packet is %02x" % f)
        if k not in (1, 14) and not t.accepted:
            raise Bad("%02x before the CONNACK" % f)
        if k == 1:
            if t.mqtt:
                raise Bad("a second CONNECT")
            t.mqtt = True
            o = next((o for o in self.ops if o.kind == "connect" and o.want == PENDING), None)
            t.todo.append((1, 0, o))
            return
        if k == 12:
            if t.pingable():
                self.send(b"\xd0\0")
            return
        if k == 14:
            if not t.bye:
                raise Bad("a DISCONNECT nobody asked for")
            t.bye = False
            return
        if k == 3:
            q = f >> 1 & 3
            n = int.from_bytes(body[:2], "big") + 2
            pid = int.from_bytes(body[n:n + 2], "big") if q else 0
            text = body[n + (2 if q else 0) + (1 if self.v5 else 0):]
            o = next((o for o in self.ops if o.text == text), None)
            if o is None or o.kind != "publish q%d" % q:
                raise Bad("a PUBLISH nobody asked for: %02x %r" % (f, text))
            again = o.sent and o.pid == pid and (pid in self.stale or not self.v5)
            if o.sent and not (f & 8 and again):
                raise Bad("%r is published twice" % text)
            if f & 8 and not again:
                raise Bad("a duplicate of %r" % text)
            if f & 8 and any(x[1] == pid for x in t.todo):
                return
            o.sent, o.pid = True, pid
            if q:
                t.todo.append((3 + q, pid, o))  # 4: PUBACK, 5: PUBREC
            return
        pid = int.from_bytes(body[:2], "big")
        if k in (8, 10):
            text = body[(3 if self.v5 else 2) + 2:]
            text = text[:-1] if k == 8 else text
            o = next((o for o in self.ops if o.text == text), None)
            if o is None or o.kind != ("subscribe" if k == 8 else "unsubscribe"):
                raise Bad("%02x nobody asked for: %r" % (f, text))
            if o.sent and pid not in self.stale and self.v5:
                raise Bad("%r is sent twice" % text)
            if any(x[1] == pid for x in t.todo):
                return
            o.sent, o.pid = True, pid
            t.todo.append((k, pid, o))
            return
        if k == 6:
            o = next((o for kk, p, o in t.owed if (kk, p) == (6, pid)), None)
            if any(x[:2] == (6, pid) for x in t.todo) and not self.v5:
                return
            if o is None and pid not in self.stale:
                raise Bad("a PUBREL nobody waits for")
            t.owed = [x for x in t.owed if x[:2] != (6, pid)]
            t.todo.append((6, pid, o))
            return
        if (k, pid) in [x[:2] for x in t.owed]:
            t.owed = [x for x in t.owed if x[:2] != (k, pid)]
            return
        raise Bad("%02x for %d" % (f, pid))

    def answer(self, i, ok):
        t = self.conn
        kind, pid, o = t.todo.pop(i)
        p = pid.to_bytes(2, "big")
        rc = 0 if ok else 0x87
        if kind == 1:
            present = int(ok and not self.clean)
            rc = 0 if ok else (0x87 if self.v5 else 5)
            if self.tr == TT.QUIC:
                t.sid = {}
            b = frame(0x20, bytes([present, rc]) + (b"\0" if self.v5 else b""))
            if o:
                o.want = None if ok else ConnectionError
            t.up = t.accepted = ok
            if not ok:
                self.end(t, False)
        elif kind in (4, 6):
            b = frame({4: 0x40, 6: 0x70}[kind], p + (bytes([rc]) if self.v5 and rc else b""))
            self.finish(o, pid, ok)
        elif kind == 5:
            b = frame(0x50, p + (bytes([rc]) if self.v5 and rc else b""))
            if ok:
                t.owed.append((6, pid, o))
            else:
                self.finish(o, pid, False)
        elif kind == 8:
            b = frame(0x90, p + (b"\0" if self.v5 else b"") + bytes([1 if ok else 0x80]))
            self.finish(o, pid, ok)
        else:
            b = frame(0xb0, p + (b"\0" + bytes([rc]) if self.v5 else b""))
            self.finish(o, pid, ok)
        if self.tr == TT.QUIC and kind != 1:
            self.send(b, t.sid[({4: 3, 5: 3}.get(kind, kind), pid)])
        else:
            self.send(b)

    def hangup(self, t, e):
        """The server ends the connection."""
        if self.tr == TT.QUIC:
            t.ask(b"C")
            t.closing_due = True
        else:
            t.gone(e)

    def finish(self, o, pid, ok):
        if o is not None and o.want == PENDING:
            o.want = pid if ok else ERR
        self.stale.pop(pid, None)

    def end(self, t, clean_close):
        """The connection is over, as far as the client can tell; what waits fails."""
        t.dead = True
        t.up = False
        for o in self.ops:
            if o.want == PENDING:
                o.want = ConnectionError
            if o.sent and o.pid:
                self.stale[o.pid] = o.kind

    def live(self):
        return self.conn is not None and not self.conn.is_closing() and not self.conn.dead

    def call(self, kind, coro, text=b""):
        o = Op(kind, self.loop.create_task(coro), text)
        self.ops.append(o)
        return o

    def op(self, m):
        c, live = self.c, self.live()
        hole = live and getattr(self.conn, "hole", False)
        # over QUIC nothing is accepted before the CONNACK
        able = live and (self.tr != TT.QUIC or self.conn.up)
        if hole and m in (12, 13, 24):
            return False
        connecting = any(o.kind == "connect" and o.want == PENDING for o in self.ops)
        if m == 0:
            if live or connecting:
                return False
            o = self.call("connect", c.connect("localhost", 1883, timeout=10 * self.unit))
            if self.net == "down" and self.tr != TT.QUIC:
                o.want = OSError
            if self.net == "ends" and self.tr != TT.QUIC:
                o.want = ConnectionError
        elif m in (1, 2, 3):
            self.n += 1
            t = b"c%d" % self.n
            o = self.call("publish q%d" % (m - 1), c.publish("t", t, m - 1), t)
            if not able:
                o.want = RuntimeError
            elif m == 1:
                o.want = 0
        elif m in (4, 5):
            self.n += 1
            t = b"f%d" % self.n
            o = self.call(MOVES[m], c.subscribe(t.decode(), 1) if m == 4 else c.unsubscribe(t.decode()), t)
            if not able:
                o.want = RuntimeError
        elif m == 6:
            o = self.call("disconnect", c.disconnect())
            o.want = None
            if live:
                self.conn.bye = self.conn.up
                self.must_bye = self.conn.up
                self.end(self.conn, True)
                self.conn.closing_due = True
            elif connecting:
                # the connection attempt goes on
                return False
        elif m in (7, 8, 9, 15):
            if not live or not self.conn.todo:
                return False
            i = len(self.conn.todo) - 1 if m == 9 else 0
            if m == 9 and i == 0:
                return False
            k = self.conn.todo[i][0]
            if k == 6 and m == 8 and not self.v5:
                return False
            if m == 8 and not self.v5 and k not in (1, 8):
                return False
            self.answer(i, m != 8)
            if m == 15:
                t = self.conn
                self.hangup(t, None)
                self.end(t, True)
        elif m in (10, 11, 23):
            if not live or not self.conn.up:
                return False
            b = b""
            for i in range(2 if m == 11 else 1):
                self.server_pid += 1
                self.n += 1
                t = b"m%d" % self.n
                b += frame(0x32, b"\0\1t" + self.server_pid.to_bytes(2, "big") + (b"\0" if self.v5 else b"") + t)
                self.want_got.append(("t", t, 1))
                if m != 23:
                    self.conn.owed.append((4, self.server_pid, None))
            self.raises = m == 11
            self.send(b)
            if m == 23:
                self.conn.owed.append((4, self.server_pid, None))
                t = self.conn
                self.hangup(t, None)
                self.end(t, True)
        elif m == 12:
            if not live:
                return False
            self.hangup(self.conn, ConnectionResetError(104, "reset"))
            self.end(self.conn, True)
        elif m == 13:
            if not live:
                return False
            if self.tr == TT.TLS:
                self.conn.proto.data_received(b"\x17\3\3\0\5hello")
            else:
                self.send(b"\0\0\0\0")
            self.end(self.conn, False)
            self.conn.closing_due = True
        elif m == 14:
            if not live or not self.conn.up or not self.v5:
                return False
            self.send(b"\xe0\1\x8b")
            self.end(self.conn, False)
            self.conn.closing_due = True
        elif m in (16, 17, 18):
            self.time({16: 1, 17: 12, 18: 100}[m] * self.unit)
        elif m == 19:
            self.net = "up" if self.net == "down" else "down"
        elif m == 25:
            self.net = "up" if self.net == "hang" else "hang"
        elif m == 26:
            self.net = "up" if self.net == "ends" else "ends"
        elif m == 20:
            o = next((o for o in self.ops if not o.task.done()), None)
            if o is None or o.kind == "connect":
                return False
            o.task.cancel()
            o.want = asyncio.CancelledError
        elif m == 21:
            o = self.call("invalid", c.publish("a" * 65536, b"x", 1), b"\0")
            o.want = RuntimeError if not live else Exception
        elif m == 22:
            self.pings_ok = not self.pings_ok
        elif m == 24:
            if not live:
                return False
            self.n += 1
            t = b"c%d" % self.n
            self.call("publish q1", c.publish("t", t, 1), t).want = Exception
            self.hangup(self.conn, ConnectionResetError(104, "reset"))
            self.end(self.conn, True)
        return True

    def time(self, sec):
        o = next((o for o in self.ops if o.kind == "connect" and o.want == PENDING), None)
        since = getattr(o, "at", None)
        start = self.loop.now
        if o is not None and start + sec * 10**9 >= o.since + self.unit * 10 * 10**9:
            live = self.live()
            if live:
                self.end(self.conn, False)
                self.conn.closing_due = True
            o.want = asyncio.TimeoutError
        t = self.conn
        self.loop.advance(sec, self.serve)
        if t is not None and t.up and t.ignored and self.loop.now >= t.ignored + self.unit * 60 * 10**9:
            # one that is not answered within twice the keep-alive time
            self.end(t, False)
            t.closing_due = True

    def settle(self):
        self.loop.run()
        self.serve()
        if self.tr == TT.QUIC:
            # the client looks for what to send every 10 ms
            self.loop.advance(0.02, self.serve)
        self.loop.run()
        # exchanges of earlier connections end by themselves
        t = self.conn
        if t is not None and self.live():
            for _ in range(20):
                i = next((i for i, x in enumerate(t.todo) if x[0] != 1 and x[1] in self.stale and (x[2] is None or x[2].want != PENDING)), None)
                if i is None or not t.up:
                    break
                self.answer(i, True)
                self.loop.run()
                self.serve()
        self.check()

    def check(self):
        if self.problem:
            raise Bad(self.problem)
        for o in self.ops:
            if not hasattr(o, "since"):
                o.since = self.loop.now
            d = o.task.done()
            w = o.want
            name = "%s %s" % (o.kind, o.text.decode("latin1"))
            if w == PENDING:
                if d:
                    raise Bad("%s has ended early: %s" % (name, self.res(o.task)))
                continue
            if not d:
                raise Bad("%s never ends (%s is due)" % (name, getattr(w, "__name__", w)))
            if getattr(o, "seen", False):
                continue
            o.seen = True
            r = asyncio.CancelledError() if o.task.cancelled() else o.task.exception()
            if w is ERR or (isinstance(w, type) and issubclass(w, BaseException)):
                if r is None:
                    raise Bad("%s succeeds, %s is due" % (name, getattr(w, "__name__", w)))
                w = Exception if w is ERR else w
                if not isinstance(r, w):
                    raise Bad("%s fails with %r, %s is due" % (name, r, w.__name__))
            else:
                if r is not None:
                    raise Bad("%s fails with %r" % (name, r))
                if o.kind not in ("connect", "disconnect") and o.task.result() != w:
                    raise Bad("%s returns %r, sent as %r" % (name, o.task.result(), w))
        if self.got != self.want_got:
            raise Bad("messages handed over: %r, sent: %r" % (self.got[-3:], self.want_got[-3:]))
        t = self.conn
        if t is None:
            return
        if getattr(t, "closing_due", False) and not t.is_closing():
            raise Bad("the connection stays open")
        if t.is_closing() and not t.dead:
            raise Bad("the client has closed the connection")
        if t.bye:
            raise Bad("no DISCONNECT")
        if self.live():
            if not t.mqtt and not getattr(t, "hole", False):
                raise Bad("no CONNECT")
            if t.owed:
                raise Bad("no acknowledgement for %r" % [x[:2] for x in t.owed])
            if t.up:
                for o in self.ops:
                    if o.text[:1] in (b"c", b"f") and not o.sent and o.want not in (RuntimeError, ConnectionError, Exception) :
                        raise Bad("%s %s has not been sent" % (o.kind, o.text))

    def res(self, t):
        return "cancelled" if t.cancelled() else repr(t.exception() or t.result())

    def state(self):
        t = self.conn
        return (self.net, self.pings_ok, t and (t.up, t.mqtt, t.dead, len(t.todo)), tuple((o.kind, str(o.want)) for o in self.ops))

    def close(self):
        for o in self.ops:
            if not o.task.done():
                o.task.cancel()
        self.loop.run()
        events._set_running_loop(None)


def _pingable(t):
    return t.proto_w()


Transport.bye = False
Transport.ignored = None


def run(case):
    """None, the index of a move that cannot be made, or (index, what is wrong)."""
    cfg, start, h = case[0], case[1], case[2:]
    i = -1
    w = None
    try:
        w = W.__new__(W)

        def pingable(t):
            if w.pings_ok:
                return True
            t.ignored = t.ignored or w.loop.now
            return False

        Transport.pingable = pingable
        w.__init__(cfg, start)
        for i, m in enumerate(h):
            if not w.op(m):
                return i, None, None
            w.settle()
        # at the end, a user who gives up
        i = len(h)
        st = w.state()
        if w.live():
            w.op(6)
            w.settle()
        return None, None, st
    except Bad as e:
        return i, str(e), None
    except Exception as e:
        import traceback
        return i, "%r at %s" % (e, traceback.format_exc().splitlines()[-3:-1]), None
    finally:
        try:
            w.close()
        except Exception:
            events._set_running_loop(None)


def job(a):
    """All histories of `depth` moves that begin with `prefix`."""
    cfg, start, prefix, depth = a
    bad, n, steps, states = {}, 0, 0, set()
    h = list(prefix) + [0] * (depth - len(prefix))
    lo = len(prefix)
    while True:
        n += 1
        i, e, st = run([cfg, start] + h)
        steps += depth if i is None else i + 1
        if st is not None:
            states.add(hashlib.md5(repr((cfg, st)).encode()).digest()[:8])
        cut = depth - 1
        if i is not None:
            cut = min(max(i, 0), depth - 1)
            if e:
                sig = "%s / %s" % (MOVES[h[cut]] if i >= 0 and i < depth else "end", "".join(c for c in e if not c.isdigit())[:60])
                k = [cfg, start] + h[:max(i, 0) + 1]
                if sig not in bad or len(k) < len(bad[sig][0]):
                    bad[sig] = (k, e)
        if i == -1:
            break
        # the next history that differs at or before `cut`
        while cut >= lo and h[cut] == K - 1:
            cut -= 1
        if cut < lo:
            break
        h[cut] += 1
        h[cut + 1:] = [0] * (depth - cut - 1)
    return bad, n, steps, states


def text(c):
    return "%s, MQTT %d, %s; %s" % (CONFIGS[c[0]][0].value, CONFIGS[c[0]][1], STARTS[c[1]], "; ".join(MOVES[m] for m in c[2:]))


def main():
    if A.replay:
        c = list(bytes.fromhex(next(l for l in open(A.replay) if l.startswith("case_hex="))[9:].strip()))
        i, e, _ = run(c)
        print("REPRODUCED " + e if e else "holds")
        return 1 if e else 0
    t0 = time.time()
    depth = 4 if A.tier == "thorough" else 3
    gc.disable()
    jobs = []
    for d in range(1, depth + 1):
        for cfg in range(len(CONFIGS)):
            for start in range(len(STARTS)):
                for p in itertools.product(range(K), repeat=min(d, 2)):
                    jobs.append((cfg, start, p, d))
    bad, n, steps, states = {}, 0, 0, set()
    with multiprocessing.Pool(8, initializer=gc.enable, maxtasksperchild=400) as pool:
        for b, a, s, st in pool.imap_unordered(job, jobs, 8):
            n += a
            steps += s
            states |= st
            for k, v in b.items():
                if k not in bad or len(v[0]) < len(bad[k][0]):
                    bad[k] = v
    known = {}
    for l in open(A.known):
        if l.startswith("known: property=Y01 sig="):
            s, _, d = l[24:].partition(" | ")
            known[s.strip()] = d.strip()
    rc = 0
    os.makedirs(A.replays, exist_ok=True)
    for j, (s, (c, e)) in enumerate(sorted(bad.items())):
        if s in known:
            print("KNOWN-FINDING: property=Y01 " + known[s])
            continue
        p = os.path.join(A.replays, "Y01-%d.txt" % j)
        open(p, "w").write("property=Y01\nsignature=%s\ncase=%s\ndetail=%s\ncase_hex=%s\n" % (s, text(c), e, bytes(c).hex()))
        print("VIOLATION property=Y01 replay=" + p)
        print("  %s -> %s" % (text(c), e))
        rc = 1
    wall = time.time() - t0
    json.dump({"property": "Y01", "tier": A.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": {
        "states": len(states), "transitions": steps, "traces_validated_against_impl": n, "samples": [text([0, 2, 2, 7, 12])],
        "bounds": "%d moves, depth %d, from %d starts, in %d configurations" % (K, depth, len(STARTS), len(CONFIGS))},
        "wall_s": round(wall, 1)}, open(A.evidence, "w"))
    print("Y01: %d histories, %d steps, %d states, %.1f s, %d violation(s)" % (n, steps, len(states), wall, len(bad)))
    return rc


sys.exit(main())
