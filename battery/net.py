"""In-process network: stands in for tornado's IOStream (real event loop, no
sockets used), with simulated brokers at the other end of the wire.

Import this before anything of kiel."""
import asyncio
import logging
import os
import struct
import sys
import warnings

import tornado.iostream
from tornado.iostream import StreamClosedError
from tornado.concurrent import Future
from . import wire

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ.get("KV_REPO", "/repo"))

WORLD = None


class FakeStream:
    def __init__(self, socket=None, *a, **k):
        self.socket = socket
        self.buf = b""
        self.want = None
        self.is_closed = False
        self.writes = []
        self.unwritten = []
        self.peer = None
        self.error = None
        self.close_cb = None
        self.fail_writes = None
        self.max_write_buffer_size = None
        WORLD.streams.append(self)

    # -- kiel's side
    def connect(self, address, server_hostname=None):
        f = Future()
        how = WORLD.connecting(self, address)

        def done():
            if f.done():
                return
            if how == "ok":
                f.set_result(self)
            elif isinstance(how, BaseException):
                f.set_exception(how)
            else:
                self.is_closed = True
                f.set_exception(StreamClosedError(real_error=ConnectionRefusedError()))
        later(WORLD.slow() if WORLD.slow else 1, done)
        return f

    def write(self, data):
        if self.is_closed:
            raise StreamClosedError(real_error=self.error)
        f = Future()
        f.add_done_callback(lambda x: x.exception())
        self.unwritten = [x for x in self.unwritten if not x.done()] + [f]
        how = self.fail_writes(bytes(data)) if self.fail_writes else None
        if how is not None and how[0] == "now":
            if isinstance(how[1], StreamClosedError):
                self.shut()
            raise how[1]
        if how is not None:
            if isinstance(how[1], StreamClosedError):
                soon(lambda: (self.shut(), f.done() or f.set_exception(how[1])))
            else:
                soon(lambda: f.done() or f.set_exception(how[1]))
            return f
        self.writes.append(bytes(data))
        soon(lambda: f.done() or f.set_result(None))
        if self.peer is not None:
            self.peer.received(bytes(data))
        return f

    def read_bytes(self, num_bytes, partial=False):
        if self.want is not None:
            raise AssertionError("Already reading")
        f = Future()
        f.add_done_callback(lambda x: x.cancelled() or x.exception())
        self.want = (num_bytes, partial, f)
        self._feed()
        if self.want is not None and self.is_closed:
            self.want = None
            raise StreamClosedError(real_error=self.error)
        return f

    def read_into(self, *a, **k):
        raise NotImplementedError

    def _feed(self):
        if self.want is None:
            return
        n, partial, f = self.want
        if f.done():
            self.want = None
            return
        if len(self.buf) >= n or (partial and self.buf):
            n = min(n, len(self.buf))
            d, self.buf = self.buf[:n], self.buf[n:]
            self.want = None
            f.set_result(d)

    def close(self, exc_info=False):
        self.shut()

    def shut(self):
        if self.is_closed:
            return
        self.is_closed = True
        if self.want is not None and not self.want[2].done():
            f, self.want = self.want[2], None
            f.set_exception(StreamClosedError(real_error=self.error))
        if self.socket is not None:
            try:
                self.socket.close()
            except Exception:
                pass
        if self.close_cb is not None:
            cb, self.close_cb = self.close_cb, None
            soon(cb)
        if self.peer is not None:
            self.peer.gone = True

    def closed(self):
        return self.is_closed

    def reading(self):
        return self.want is not None

    def writing(self):
        return not self.is_closed and any(not x.done() for x in self.unwritten)

    def set_close_callback(self, cb):
        self.close_cb = cb

    def set_nodelay(self, value):
        pass

    def fileno(self):
        return self.socket

    # -- the other side
    def feed(self, data):
        if self.is_closed:
            return
        self.buf += data
        self._feed()


tornado.iostream.IOStream = FakeStream


def soon(f):
    asyncio.get_event_loop().call_soon(f)


def later(n, f):
    """f after n turns of the event loop"""
    soon(f if n <= 1 else lambda: later(n - 1, f))


class Peer:
    """A broker's end of one connection."""

    def __init__(self, stream, broker):
        self.stream, self.broker = stream, broker
        self.buf = b""
        self.gone = False

    def received(self, data):
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack("!i", self.buf[:4])[0]
            if n < 0 or len(self.buf) < 4 + n:
                return
            payload, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
            self.broker.world.frame(self, payload)

    def reply(self, corr, payload):
        d = struct.pack("!ii", len(payload) + 4, corr) + payload
        self.stream.feed(d)

    def close(self):
        self.stream.shut()


class Broker:
    def __init__(self, world, node, host, port):
        self.world, self.node, self.host, self.port = world, node, host, port
        self.up = True
        self.connects = 0


class World:
    """Brokers, the metadata they give, and the log of what reached them."""

    def __init__(self):
        global WORLD
        WORLD = self
        self.streams = []
        self.brokers = {}           # (host, port) -> Broker
        self.nodes = {}
        self.log = []               # (node, api, corr, value, peer)
        self.bad = []               # frames that are not requests of the grammar
        self.on = {}                # api -> fn(broker, value, peer, corr) -> reply
        self.attempts = []          # (host, port) in order
        self.meta = None            # fn() -> metadata response value
        self.topics = {}            # name -> {partition: leader}
        self.listed = None
        self.slow = None            # fn() -> turns of the loop until a connection is made

    def broker(self, node, host=None, port=None):
        b = Broker(self, node, host or "b%d" % node, port or 9000 + node)
        self.brokers[(b.host, b.port)] = b
        self.nodes[node] = b
        return b

    def connecting(self, stream, address):
        address = tuple(address[:2])
        self.attempts.append(address)
        b = self.brokers.get(address)
        if b is None or not b.up:
            return "refused"
        if isinstance(b.up, BaseException):
            return b.up
        b.connects += 1
        stream.peer = Peer(stream, b)
        return "ok"

    def metadata(self):
        return {"brokers": [{"broker_id": b.node, "host": b.host, "port": b.port}
                            for n, b in self.nodes.items() if self.listed is None or n in self.listed],
                "topics": [{"error_code": 0, "name": t,
                            "partitions": [{"error_code": 0, "partition_id": p, "leader": l,
                                            "replicas": [l], "isrs": [l]} for p, l in ps.items()]}
                           for t, ps in self.topics.items()]}

    def frame(self, peer, payload):
        try:
            api, corr, v = wire.request(payload)
        except Exception as e:
            self.bad.append((repr(e), payload))
            return
        self.log.append((peer.broker.node, api, corr, v, peer))
        fn = self.on.get(api)
        if fn is not None:
            r = fn(peer.broker, v, peer, corr)
        elif api == "metadata":
            r = (self.meta or self.metadata)()
        else:
            r = None
        self.answer(peer, corr, api, r)

    def answer(self, peer, corr, api, r):
        if r is None:
            return
        if r == "close":
            soon(peer.close)
        elif isinstance(r, (bytes, bytearray)):
            soon(lambda: peer.reply(corr, bytes(r)))
        else:
            soon(lambda: peer.reply(corr, wire.enc(wire.RESPONSES[api], r)))

    def of(self, api):
        return [x for x in self.log if x[1] == api]


class Pending(Exception):
    pass


async def settle(n=60):
    for _ in range(n):
        await asyncio.sleep(0)


async def finish(f, steps=1500):
    """Result of a future; Pending if it is not completed when nothing moves."""
    for _ in range(steps):
        if f.done():
            return f.result()
        await asyncio.sleep(0)
    for _ in range(60):
        if f.done():
            return f.result()
        await asyncio.sleep(0.002)
    if f.done():
        return f.result()
    raise Pending("never completed")


def run(main):
    """Runs the coroutine function main() on a fresh event loop."""
    import tornado.ioloop
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda l, c: None)
    try:
        return loop.run_until_complete(main())
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        if WORLD is not None:
            for s in WORLD.streams:
                if s.socket is not None:
                    try:
                        s.socket.close()
                    except Exception:
                        pass
        try:
            tornado.ioloop.IOLoop.clear_current()
        except Exception:
            pass
        loop.close()
        asyncio.set_event_loop(None)
