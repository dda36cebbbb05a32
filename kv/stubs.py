"""Contracts of the libraries kiel uses, as executable stand-ins.

What each stand-in promises is what is *assumed* of the real library; the
evidence of every check lists them (ASSUMED)."""
import collections as _collections
import contextlib as _contextlib
import types
import z3
from . import core, values, rt, loops
from .core import Unsupported, PathEnd, V
from .values import SDict, SList, SVal, SInt, lift

ASSUMED = {
    "tornado.gen": "gen.coroutine runs the generator to the end, sending each yielded future's outcome back in; "
                   "gen.Return carries the result; WaitIterator yields every future exactly once, in any order",
    "tornado.concurrent": "a Future holds one result or exception; completing it twice raises InvalidStateError",
    "tornado.iostream": "read_bytes(n) gives the next n bytes of the stream or raises StreamClosedError; "
                        "write(b) appends b to the output in call order",
    "kazoo": "the client performs the operation named, watches call back with the current data",
    "json": "loads(dumps(x)) == x for JSON values",
    "struct/zlib/gzip/python-snappy": "pack/unpack_from per the format grammar; crc32 is a function of its "
                                      "argument; decompress(compress(x)) == x",
    "logging": "has no effect",
}


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------------ logging
class NullLog:
    def __getattr__(self, n):
        if n in ("isEnabledFor",):
            return lambda *a: False
        return lambda *a, **k: None


NULL = NullLog()
logging = mod("logging", getLogger=lambda *a: NULL, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
              StreamHandler=lambda *a: NULL, Formatter=lambda *a: NULL, NullHandler=lambda *a: NULL,
              warning=NULL.warning, error=NULL.error, info=NULL.info, debug=NULL.debug,
              exception=NULL.exception)


# ------------------------------------------------------------------ collections
def defaultdict(factory=None, *a, **k):
    if rt.loading():
        return _collections.defaultdict(factory, *a, **k)
    d = rt._dict(*a, **k)
    d.factory = factory
    return d


def ordereddict(*a, **k):
    return rt._dict(*a, **k)


def deque(xs=(), maxlen=None):
    raise Unsupported("collections.deque")


collections = mod("collections", defaultdict=defaultdict, OrderedDict=ordereddict, deque=deque,
                  namedtuple=_collections.namedtuple, Counter=lambda *a: _uns("collections.Counter"))


def _uns(what):
    raise Unsupported(what)


# ------------------------------------------------------------------ itertools
class Cycle:
    def __init__(self, xs):
        self.xs = xs
        self.pos = 0
        core.E.register(self)

    def _kv_lift(self):
        raise Unsupported("itertools.cycle as a value")

    def __iter__(self):
        return self

    def __next__(self):
        if core.E.fork(self._kv_len() == 0):
            raise StopIteration
        i = values.iterm(self.pos)
        x = self._kv_cycle0(i)
        self.pos = SInt.mk(i + 1)
        core.E.mutated(self, "pos")
        return x

    def _kv_cycle(self, i):
        if self.pos != 0:
            raise Unsupported("partly used cycle")
        return self._kv_cycle0(i)

    def _kv_cycle0(self, i):
        L = self.xs if isinstance(self.xs, SList) else SList.of(list(self.xs))
        n = values.iterm(L.length())
        return L[SInt.mk(values.imod(i, n))]

    def _kv_len(self):
        L = self.xs if isinstance(self.xs, SList) else SList.of(list(self.xs))
        n = values.iterm(L.length())
        return z3.IntVal(n) if isinstance(n, int) else n

    def _kv_iter(self):
        e = core.E
        n = self._kv_len()
        # an empty cycle ends at once; any other never does
        lim = e.fresh(z3.IntSort(), "cyc")
        e.add(z3.If(n == 0, lim == 0, lim == -1))
        sp = loops.IterSpec("cycle", lim, self._kv_cycle)
        return sp


itertools = mod("itertools", cycle=Cycle, repeat=lambda *a: _uns("itertools.repeat"),
                count=lambda *a: _uns("itertools.count"), islice=lambda *a: _uns("itertools.islice"),
                groupby=lambda *a: _uns("itertools.groupby"))


# ------------------------------------------------------------------ six
def ropes_simp(x):
    from . import ropes
    return ropes.of(x).simp()


class BytesIO:
    """An in-memory file; positions other than its two ends are not followed."""

    def __init__(self, data=b""):
        from . import ropes
        self.data = ropes.of(data)
        self.pos = "start" if self.data.pieces else "end"
        core.E.register(self)

    def write(self, b):
        from . import ropes
        if self.pos != "end":
            raise Unsupported("overwriting a buffer")
        core.E.mutated(self, "data")
        self.data = ropes.of(self.data) + ropes.of(b)
        return rt.b_len(b)

    def getvalue(self):
        return ropes_simp(self.data)

    getbuffer = getvalue

    def seek(self, n, whence=0):
        if n != 0 or whence not in (0, 2):
            raise Unsupported("seek in a buffer")
        p = "end" if whence == 2 else "start"
        if p != self.pos:
            core.E.mutated(self, "pos")
            self.pos = p

    def read(self, *a):
        if a and a[0] not in (None, -1):
            raise Unsupported("read(n) of a buffer")
        if self.pos == "end":
            return b""
        self.seek(0, 2)
        return ropes_simp(self.data)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


six = mod("six", PY2=False, PY3=True, iteritems=lambda d, **k: rt.callm(d, "items"),
          itervalues=lambda d, **k: rt.callm(d, "values"), iterkeys=lambda d, **k: rt.callm(d, "keys"),
          string_types=(rt.b_str,), text_type=rt.b_str, binary_type=rt.b_bytes, integer_types=(rt.b_int,),
          BytesIO=BytesIO, StringIO=lambda *a: _uns("StringIO"), next=rt.b_next)
six.moves = mod("six.moves", range=rt.b_range, zip=rt.b_zip)


# ------------------------------------------------------------------ futures
class InvalidStateError(Exception):
    pass


class Future:
    """One-shot result cell."""

    def __init__(self):
        self.state = None
        self.value = None
        self.cbs = []
        if not rt.loading():
            core.E.register(self)

    def _kv_lift(self):
        return values.obj_const(self)

    def done(self):
        return self.state is not None

    def cancelled(self):
        return False

    def _set(self, st, v):
        if self.state is not None:
            raise InvalidStateError("invalid state")
        core.E.mutated(self, "state")
        core.E.mutated(self, "value")
        self.state, self.value = st, v
        cbs, self.cbs = self.cbs, []
        for cb in cbs:
            cb(self)

    def set_result(self, v):
        self._set("ok", v)

    def set_exception(self, e):
        if isinstance(e, type):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        self._set("exc", e)

    def set_exc_info(self, ei):
        raise AttributeError("'Future' object has no attribute 'set_exc_info'")

    awaited = True

    def exception(self, *a):
        self._need()
        self.awaited = True
        return self.value if self.state == "exc" else None

    def _need(self):
        if self.state is None:
            raise InvalidStateError("Result is not set.")

    def result(self, *a):
        self._need()
        self.awaited = True
        if self.state == "exc":
            raise self.value
        return self.value

    def add_done_callback(self, cb):
        self.awaited = True
        if self.state is not None:
            cb(self)
        else:
            self.cbs.append(cb)


Future.set_exc_info.__name__ = "set_exc_info"
del Future.set_exc_info


def resolved(v):
    f = Future()
    f.set_result(v)
    return f


def failed(e):
    f = Future()
    f.set_exception(e)
    return f


class Return(Exception):
    def __init__(self, value=None):
        super().__init__()
        self.value = value


class Deadlock(Exception):
    pass


def on_yield(x):
    h = core.E.ghost.get("on_yield")
    if h:
        h(x)


def started(f):
    """A coroutine was started: whoever did is expected to wait for it."""
    f.awaited = False
    core.E.ghost.setdefault("_started", []).append(f)
    return f


def drive(gen):
    f = started(Future())
    send, exc = None, None
    while True:
        try:
            y = gen.throw(exc) if exc is not None else gen.send(send)
        except StopIteration as e:
            f.set_result(e.value)
            return f
        except Return as e:
            f.set_result(e.value)
            return f
        except Exception as e:
            f.set_exception(e)
            return f
        send = exc = None
        on_yield(y)
        try:
            send = outcome(y)
        except Exception as e:
            exc = e


def outcome(y):
    if y is None:
        return None
    if hasattr(y, "_kv_outcome"):
        return y._kv_outcome()
    if isinstance(y, Future):
        y.awaited = True
        if not y.done():
            h = core.E.ghost.get("pending_yield")
            if h:
                h(y)
            if not y.done():
                raise Unsupported("waiting on a future nothing completes")
        return y.result()
    if isinstance(y, SList) and y.concrete():
        return SList.of([outcome(i) for i in y.tail])
    if isinstance(y, (list, tuple)):
        return SList.of([outcome(i) for i in y])
    if isinstance(y, SDict) and y.concrete():
        return SDict.of([(k, outcome(x)) for k, _, x in y.entries])
    if isinstance(y, (SList, SDict)):
        raise Unsupported("waiting on a symbolic collection of futures")
    raise BadYieldError("yielded unknown object %r" % (y,))


class BadYieldError(Exception):
    pass


def coroutine(fn):
    def wrapper(*a, **k):
        try:
            r = fn(*a, **k)
        except Return as e:
            return resolved(e.value)
        except Exception as e:
            return failed(e)
        if isinstance(r, types.GeneratorType):
            return drive(r)
        return resolved(r)
    wrapper.__name__ = getattr(fn, "__name__", "coroutine")
    wrapper.__doc__ = fn.__doc__
    wrapper.__wrapped__ = fn
    return wrapper


def maybe_future(x):
    if isinstance(x, Future) or hasattr(x, "_kv_outcome"):
        return x
    return resolved(x)


class WaitIterator:
    """Replaced by the unit that needs it."""

    def __init__(self, *a, **k):
        raise Unsupported("WaitIterator outside its unit")


class _WI:
    def __call__(self, *a, **k):
        h = core.E.ghost.get("WaitIterator")
        if h is None:
            raise Unsupported("WaitIterator outside its unit")
        return h(SDict.of(k) if k else SList.of(a))

    def _kv_symkw(self, **k):
        h = core.E.ghost.get("WaitIterator")
        if h is None:
            raise Unsupported("WaitIterator outside its unit")
        return h(k["_kv_map"])


class StreamClosedError(IOError):
    def __init__(self, real_error=None):
        super().__init__("Stream is closed")
        self.real_error = real_error


def IOStream(*a, **k):
    h = core.E.ghost.get("IOStream")
    if h is None:
        raise Unsupported("IOStream outside its unit")
    return h(*a, **k)


class _Loop:
    def add_callback(self, cb, *a, **k):
        h = core.E.ghost.get("add_callback")
        if h:
            h(cb, *a, **k)

    spawn_callback = add_callback

    def add_timeout(self, *a, **k):
        raise Unsupported("IOLoop.add_timeout")
    call_later = add_timeout


class IOLoop:
    @staticmethod
    def current(*a):
        return _Loop()
    instance = current


gen = mod("tornado.gen", coroutine=coroutine, Return=Return, maybe_future=maybe_future, WaitIterator=_WI(),
          moment=None, sleep=lambda *a: resolved(None), multi=lambda x: resolved(outcome(x)),
          Future=Future, is_future=lambda x: isinstance(x, Future), convert_yielded=lambda x: x,
          BadYieldError=BadYieldError)
iostream = mod("tornado.iostream", StreamClosedError=StreamClosedError, IOStream=IOStream,
               BaseIOStream=IOStream)
ioloop = mod("tornado.ioloop", IOLoop=IOLoop)
concurrent = mod("tornado.concurrent", Future=Future)
tornado = mod("tornado", gen=gen, iostream=iostream, ioloop=ioloop, concurrent=concurrent)


# ------------------------------------------------------------------ kazoo
class KazooException(Exception):
    pass


class ZookeeperError(KazooException):
    pass


class NoNodeError(ZookeeperError):
    pass


class NodeExistsError(ZookeeperError):
    pass


class ConnectionLoss(ZookeeperError):
    pass


class SessionExpiredError(ZookeeperError):
    pass


class OperationTimeoutError(ZookeeperError):
    pass


class NotEmptyError(ZookeeperError):
    pass


class BadVersionError(ZookeeperError):
    pass


class ConnectionClosedError(SessionExpiredError):
    pass


class KazooState:
    SUSPENDED, CONNECTED, LOST = "SUSPENDED", "CONNECTED", "LOST"


def KazooClient(*a, **k):
    h = core.E.ghost.get("KazooClient")
    if h is None:
        return core.E.ghost.setdefault("zk", object())
    return h(*a, **k)


kz_exceptions = mod("kazoo.exceptions", **{x.__name__: x for x in (
    KazooException, ZookeeperError, NoNodeError, NodeExistsError, ConnectionLoss, SessionExpiredError,
    OperationTimeoutError, NotEmptyError, BadVersionError, ConnectionClosedError)})
kz_client = mod("kazoo.client", KazooClient=KazooClient, KazooState=KazooState)
kazoo = mod("kazoo", client=kz_client, exceptions=kz_exceptions)


# ------------------------------------------------------------------ others
class Event:
    def __init__(self):
        self.flag = False
        if not rt.loading():
            core.E.register(self)

    def set(self):
        core.E.mutated(self, "flag")
        self.flag = True

    def clear(self):
        core.E.mutated(self, "flag")
        self.flag = False

    def is_set(self):
        return self.flag
    isSet = is_set

    def wait(self, timeout=None):
        h = core.E.ghost.get("event_wait")
        if h:
            h(self, timeout)
        elif not self.flag:
            raise Unsupported("waiting on an event nothing sets")
        return True


threading = mod("threading", Event=Event, Lock=lambda: NULLCTX, RLock=lambda: NULLCTX,
                Thread=lambda *a, **k: _uns("threads"))


class _NullCtx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a):
        return True

    def release(self):
        pass


NULLCTX = _NullCtx()


def hook(name):
    def f(*a, **k):
        h = core.E.ghost.get(name)
        if h is None:
            raise Unsupported("%s outside a unit that specifies it" % name)
        return h(*a, **k)
    f.__name__ = name
    return f


class JSON:
    @staticmethod
    def dumps(*a, **k):
        h = core.E.ghost.get("json.dumps")
        if h is None:
            raise Unsupported("json.dumps outside a unit that specifies it")
        return h(*a, **k)

    @staticmethod
    def loads(*a, **k):
        h = core.E.ghost.get("json.loads")
        if h is None:
            raise Unsupported("json.loads outside a unit that specifies it")
        return h(*a, **k)


json = mod("json", dumps=JSON.dumps, loads=JSON.loads, JSONDecodeError=ValueError)
random = mod("random", choice=hook("random.choice"), random=hook("random.random"),
             randint=hook("random.randint"), shuffle=hook("random.shuffle"))
socket = mod("socket", socket=lambda *a: object(), gethostname=lambda: "host", AF_INET=2, SOCK_STREAM=1,
             error=OSError, timeout=TimeoutError, gaierror=OSError)
import os as _os
import hashlib
import binascii
import datetime
import calendar as _calendar
import time as _time
import sys as _sys
os = mod("os", getpid=lambda: 4242, environ={}, path=_os.path)
time = mod("time", gmtime=hook("time.gmtime"), time=hook("time.time"), sleep=lambda *a: None)
calendar = mod("calendar", timegm=hook("calendar.timegm"))
sys = mod("sys", exc_info=_sys.exc_info, maxsize=_sys.maxsize, version_info=_sys.version_info,
          stdout=None, stderr=None, version=_sys.version)
gzipm = mod("gzip", GzipFile=hook("gzip.GzipFile"), compress=hook("gzip.compress"),
            decompress=hook("gzip.decompress"))
snappy = mod("snappy", compress=hook("snappy.compress"), uncompress=hook("snappy.uncompress"),
             decompress=hook("snappy.uncompress"))
zlib = mod("zlib", crc32=hook("zlib.crc32"))
binascii_m = mod("binascii", hexlify=binascii.hexlify, crc32=hook("zlib.crc32"))
functools = mod("functools", wraps=lambda f: (lambda g: g), lru_cache=lambda *a, **k: _uns("lru_cache"))


@_contextlib.contextmanager
def suppress(*excs):
    try:
        yield
    except excs:
        pass


contextlib = mod("contextlib", contextmanager=_contextlib.contextmanager, suppress=suppress,
                 closing=_contextlib.closing)


class _Gen(object):
    pass


MODULES = {
    "logging": logging, "collections": collections, "itertools": itertools, "six": six, "six.moves": six.moves,
    "tornado": tornado, "tornado.gen": gen, "tornado.iostream": iostream, "tornado.ioloop": ioloop,
    "tornado.concurrent": concurrent, "kazoo": kazoo, "kazoo.client": kz_client,
    "kazoo.exceptions": kz_exceptions, "threading": threading, "json": json, "random": random,
    "socket": socket, "os": os, "hashlib": hashlib, "binascii": binascii_m, "datetime": datetime,
    "calendar": calendar, "time": time, "sys": sys, "gzip": gzipm, "snappy": snappy, "zlib": zlib,
    "functools": functools, "contextlib": contextlib, "math": None, "struct": None, "io": None,
    "__future__": mod("__future__", absolute_import=None, generator_stop=None, division=None,
                      print_function=None, unicode_literals=None, annotations=None),
    "types": types, "operator": None, "typing": None, "abc": None, "enum": None, "numbers": None,
    "copy": None, "string": None, "re": None, "errno": None, "warnings": None, "weakref": None,
}
io = mod("io", BytesIO=BytesIO)
MODULES["io"] = io


def _copy(x):
    if isinstance(x, (SList, SDict, values.SSet)):
        return x.copy()
    raise Unsupported("copy of %s" % type(x).__name__)


MODULES["copy"] = mod("copy", copy=_copy, deepcopy=lambda x: _uns("deepcopy"))
import math as _math


def _floor(x):
    if isinstance(x, values.SRatio):
        return x.floor()
    if isinstance(x, SInt):
        return x
    return _math.floor(x)


MODULES["math"] = mod("math", floor=_floor, ceil=lambda x: _uns("math.ceil") if rt.is_sym(x) else _math.ceil(x))
import operator as _operator
import types as _types
import typing as _typing
import abc as _abc
import errno as _errno
import re as _re
import string as _string
for _k, _m in (("operator", _operator), ("types", _types), ("typing", _typing), ("abc", _abc),
               ("errno", _errno), ("re", _re), ("string", _string)):
    MODULES[_k] = _m
