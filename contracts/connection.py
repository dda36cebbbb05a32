"""Contracts of kiel/connection.py and of the correlation ids of requests.

State: the requests a connection was given (reg), the table of those that wait
(pending), what each request's future was completed with (done, 1 an error, 0
a response), the table of apis.  fut(k) is the future of the request with
correlation id k.  The invariant, for every k:
  what is in pending is fut(k), undone; every registered request waits or is
  done; while the connection is not closing, the api of what waits is known.
Between two steps of the reading coroutine anything the other methods'
contracts allow may happen (env).  Everything is shown for an arbitrary id W0.
"""
from .base import *
from .codec import be, counter, parse_env, prefix_of, chars, kind, cat
from kv import ropes
from kv.core import SeqV

W0 = z3.Const("w0", V)
fut_f = z3.Function("fut", V, V)
id_f = z3.Function("id_of_fut", V, V)
api_f = z3.Function("api_of", V, V)

# the documented responses, by api
RESPONSES = {"metadata": ("metadata", "MetadataResponse"), "produce": ("produce", "ProduceResponse"),
             "fetch": ("fetch", "FetchResponse"), "offset": ("offset", "OffsetResponse"),
             "offset_commit": ("offset_commit", "OffsetCommitResponse"),
             "offset_fetch": ("offset_fetch", "OffsetFetchResponse"),
             "group_coordinator": ("coordinator", "GroupCoordinatorResponse")}


class Other(Exception):
    """Any error other than a closed stream."""


class Ghost:
    """What the specification keeps about a connection."""

    def __init__(self):
        self.done = self.reg = vdict_empty()
        core.E.register(self)
        self.put(done=fresh_term("done"), reg=fresh_term("registered"))

    def put(self, **kw):
        for k, t in kw.items():
            core.E.mutated(self, k)
            self.__dict__[k] = SVal(t)

    def is_done(self, v):
        return vdict_has(lift(self.done), v)

    def registered(self, k):
        return vdict_has(lift(self.reg), k)


class SFuture:
    """The future of a request."""

    def __init__(self, v=None, ghost_=None):
        self.v = v if v is not None else fut_f(lift(core.E.ghost["new_id"]))
        self.error = None
        core.E.add(id_f(self.v) == (self.v.arg(0) if self.v.decl().name() == "fut" else id_f(self.v)))

    def _kv_lift(self):
        return self.v

    def _kv_type(self):
        return TFUT

    def _complete(self, flag):
        g = core.E.ghost["conn"]
        if core.E.fork(g.is_done(self.v)):
            raise stubs.InvalidStateError("invalid state")
        g.put(done=vdict_set(lift(g.done), self.v, mk_int(flag)))

    def set_result(self, v):
        core.E.ghost["on_result"](self, v)
        self._complete(0)

    def set_exception(self, x):
        if isinstance(x, type):
            x = x()
        if not isinstance(x, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        self._complete(1)
        self.error = x

    def done(self):
        return core.E.fork(core.E.ghost["conn"].is_done(self.v))

    def cancelled(self):
        return False

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("Future.%s" % n)


TFUT = TObj(SFuture)


def the_api(v):
    """One of the seven apis."""
    names = sorted(RESPONSES)
    for a in names[:-1]:
        if core.E.fork(v == lift(a)):
            return a
    core.E.add(v == lift(names[-1]))
    return names[-1]


TAPI = TObj(the_api)
TP, TA = TDict(TInt, TFUT), TDict(TInt, TAPI)


class Stream:
    """A tornado IOStream of whole frames that may fail at any time."""

    def __init__(self, env=None):
        self.closed_, self.rest, self.out, self.failed = SBool.mk(fresh_term("stream_closed", B)), [], [], False
        self.env, self.frames, self.frame, self.writes = env, 0, None, []
        self.unknown = False
        core.E.register(self)

    def _kv_lift(self):
        return values.obj_const(self)

    def close(self, *a):
        core.E.mutated(self, "closed_")
        self.closed_ = True

    def closed(self):
        return self.closed_

    def writing(self):
        """Whether there is something left to write."""
        return False if self.closed_ else core.E.choose(2) == 1

    reading = writing

    def fail(self, real=True):
        self.failed = True
        self.closed_error = core.E.fork(core.E.fresh(B, "stream_is_closed"))
        if self.closed_error:
            self.close()
            raise stubs.StreamClosedError()
        raise Other()

    def read_bytes(self, n, partial=False):
        if partial is not False:
            raise Unsupported("partial reads")
        return Read(self, n)

    def take(self, n):
        if not self.rest:
            self.frame = k = Frame(self.frames)
            self.frames += 1
            if k.n >= len(IDS):
                raise Unsupported("many frames in one step")
            self.rest = [be("i", 4 + z3.Length(k.payload)), be("i", int_of(k.cid)), k.payload]
        got = prefix_of(self.rest, iterm(n))
        if got is None:
            core.E.fail("C06.frame: what is read are the whole parts of one frame",
                        "%s bytes of %s" % (n, self.rest))
            raise PathEnd()
        left = iterm(n)
        k = 0
        for k in range(len(self.rest) + 1):
            if core.E.valid(left == 0):
                break
            left = left - z3.Length(self.rest[k])
        self.rest = self.rest[k:]
        # nothing is left of an empty payload
        if len(self.rest) == 1 and core.E.valid(z3.Length(self.rest[0]) == 0):
            self.rest = []
        return got

    def write(self, data):
        if core.E.fork(core.E.fresh(B, "write_fails")):
            self.fail()
        self.out.append(ropes.of(data))
        f = Write()
        self.writes.append(f)
        return f

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("IOStream.%s" % n)


from kv.core import PathEnd                                   # noqa: E402


class Write:
    """The pending outcome of a write."""

    def __init__(self):
        self.cbs = []

    def add_done_callback(self, cb):
        self.cbs.append(cb)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("Future.%s" % n)


class Read:
    def __init__(self, stream, n):
        self.stream, self.n = stream, n

    def _kv_outcome(self):
        s = self.stream
        s.env()
        if core.E.fork(core.E.fresh(B, "read_fails")):
            s.fail()
        got = s.take(self.n)
        if not s.rest:
            # the frame is complete: was somebody waiting for it?
            c = core.E.ghost["c"]
            s.frame.awaited = vdict_has(lift(c.pending), s.frame.cid)
            s.frame.open = z3.Not(truth(c.closing))
            s.frame.complete = True
        return got


IDS = [z3.Const("frame_id%d" % j, V) for j in range(2)]
POPPED = [z3.Const("popped%d" % j, V) for j in range(2)]


class Frame:
    """The next frame: arbitrary."""

    def __init__(self, n):
        self.n, self.cid = n, IDS[min(n, len(IDS) - 1)]
        self.payload = fresh_term("payload", SeqV)
        self.complete, self.awaited, self.open = False, z3.BoolVal(False), z3.BoolVal(False)
        core.E.add(z3.Length(self.payload) < (1 << 31) - 4)


class Decoded:
    """A response of an api, decoded from some bytes."""
    _kv_record = False

    def __init__(self, api, raw):
        self.api, self.raw = api, raw
        self.correlation_id = None
        core.E.register(self)

    def _kv_lift(self):
        return values.obj_const(self)


def facts(c, g, k):
    """The invariant at k."""
    P, A, R = lift(c.pending), lift(c.api_correlation), lift(g.reg)
    f = fut_f(k)
    return [
        ("waits", z3.Implies(vdict_has(P, k), z3.And(vdict_get(P, k) == f, z3.Not(g.is_done(f)), g.registered(k)))),
        ("kept", z3.Implies(g.registered(k), z3.Or(vdict_has(P, k), g.is_done(f)))),
        ("unknown", z3.Implies(z3.Not(g.registered(k)), z3.Not(g.is_done(f)))),
        ("known", z3.Implies(z3.And(z3.Not(truth(c.closing)), vdict_has(P, k)), vdict_has(A, k))),
        ("tables", z3.Implies(z3.And(z3.Not(truth(c.closing)), vdict_has(A, k)), vdict_has(P, k))),
        ("api", z3.Implies(vdict_has(A, k), z3.And(vdict_get(A, k) == api_f(k), g.registered(k))))]


def connection(e, opened=None):
    """A connection in any state the invariant allows."""
    parse_env(e)
    m = need(M("kiel.connection"), "Connection")
    patch_futures(m)
    host = fresh("host")
    c = m.Connection(host, fresh_int("port"))
    need(c, "pending", "api_correlation", "closing", "stream", "host", "port")
    ids = [W0] + IDS + POPPED
    g = Ghost()
    c.pending, c.api_correlation = wrap(fresh_term("pending"), TP), wrap(fresh_term("apis"), TA)
    c.closing = SBool.mk(fresh_term("closing", B))
    c.stream = Stream(lambda: env(c, g))
    ghost(conn=g, c=c, popkeys=list(POPPED), on_result=lambda f, v: e.fail(
        "C07.error: only a received response completes a request without an error", "set_result"))
    for k in ids:
        e.add(k == mk_int(int_of(k)), int_of(k) >= -(1 << 31), int_of(k) < (1 << 31))
        e.add(id_f(fut_f(k)) == k)
        for _, f in facts(c, g, k):
            e.add(f)

    def rels(loop):
        def inst(L):
            ks = [(k,) for k in IDS + POPPED]
            if L.spec is not None and hasattr(L.spec, "K"):
                ks.append((core.nth(L.spec.K, L.i),))
                e.add(id_f(fut_f(ks[-1][0])) == ks[-1][0])
            return ks

        def of(n):
            def f(i, w):
                return facts(c, g, w)[n][1]
            return f

        def table(sp, w):
            """What a loop over the waiting requests has not passed yet, and its future."""
            def left(i):
                return z3.And(z3.Select(sp.dom, w), z3.Not(z3.Select(sp.vis(i), w)))
            vals = getattr(sp, "vals", None)
            if vals is None and sp.base is not None and sp.base.decl().name() == "mk_dict":
                vals = sp.base.arg(1)
            return left, None if vals is None else z3.Select(vals, w)

        def walk(n):
            """Invariants of loops over a table of waiting requests; those that
            do not hold for a loop are dropped."""
            def f(i, w):
                sp = loop.spec
                if sp is None or not hasattr(sp, "vis"):
                    return None
                left, val = table(sp, w)
                fut = fut_f(w)
                R, P = g.registered(w), vdict_has(lift(c.pending), w)
                if n == "passed":
                    return z3.Implies(z3.Select(sp.vis(i), w), g.is_done(fut))
                if n == "left":
                    return z3.Implies(left(i), z3.And(z3.Not(g.is_done(fut)), R))
                if n == "left value":
                    return None if val is None else z3.Implies(left(i), val == fut)
                if n == "left waits":
                    return z3.Implies(left(i), z3.And(P, vdict_get(lift(c.pending), w) == fut))
                if n == "kept here":
                    return z3.Implies(R, z3.Or(P, g.is_done(fut), left(i)))
                if n == "all here":
                    return z3.Implies(P, left(i))
                return z3.Implies(P, z3.And(vdict_get(lift(c.pending), w) == fut, R, z3.Or(
                    z3.Not(g.is_done(fut)), z3.Select(sp.vis(i), w))))
            return f
        return [((n, j), of(j), 1, inst) for j, (n, _) in enumerate(facts(c, g, W0))] + [
            ((n,), walk(n), 1, inst) for n in ("passed", "left", "left value", "left waits", "kept here", "all here",
                                               "right")]
    ghost(rels=[rels])
    return c, g


def patch_futures(m):
    """Futures the connection makes are those of its requests."""
    for n, x in list(m.__dict__.items()):
        if x is stubs.Future:
            m.__dict__[n] = SFuture
        elif x is stubs.concurrent or x is stubs.gen:
            d = dict(x.__dict__, Future=SFuture)
            d.pop("__name__", None)
            m.__dict__[n] = stubs.mod(x.__name__, **d)


def env(c, g):
    """Other methods run while this coroutine waits."""
    e = core.E
    P, A, D, R, cl = lift(c.pending), lift(c.api_correlation), lift(g.done), lift(g.reg), truth(c.closing)
    st = truth(c.stream.closed_)
    for d, n, t in ((c.pending, "pending", TP), (c.api_correlation, "apis", TA)):
        d.havoc(fresh_term(n), t)
        d.mark()
    c.closing = SBool.mk(fresh_term("closing", B))
    core.E.mutated(c.stream, "closed_")
    c.stream.closed_ = SBool.mk(fresh_term("stream_closed", B))
    g.put(done=fresh_term("done"), reg=fresh_term("registered"))
    P2, A2, D2, R2, cl2 = lift(c.pending), lift(c.api_correlation), lift(g.done), lift(g.reg), truth(c.closing)
    e.add(z3.Implies(cl, cl2), z3.Implies(st, truth(c.stream.closed_)))
    for k in [W0] + IDS + POPPED:
        f = fut_f(k)
        e.add(z3.Implies(vdict_has(D, f), vdict_has(D2, f)))
        e.add(z3.Implies(vdict_has(R, k), vdict_has(R2, k)))
        old, new = vdict_has(R, k), z3.And(z3.Not(vdict_has(R, k)), vdict_has(R2, k))
        e.add(z3.Implies(z3.And(old, z3.Not(cl2)), z3.And(
            vdict_has(P2, k) == vdict_has(P, k), vdict_has(A2, k) == vdict_has(A, k), vdict_has(D2, f) == vdict_has(D, f))))
        e.add(z3.Implies(z3.And(old, vdict_has(P2, k)), vdict_has(P, k)))
        e.add(z3.Implies(z3.And(vdict_has(P, k), z3.Not(vdict_has(P2, k))), vdict_has(D2, f)))
        e.add(z3.Implies(z3.And(new, z3.Not(cl2)), z3.And(
            vdict_has(P2, k), vdict_has(A2, k), z3.Not(vdict_has(D2, f)))))
        e.add(z3.Implies(new, z3.Or(vdict_has(P2, k), vdict_has(D2, f))))
        e.add(z3.Implies(vdict_has(P2, k), z3.And(vdict_get(P2, k) == f, z3.Not(vdict_has(D2, f)), vdict_has(R2, k))))
        e.add(z3.Implies(vdict_has(A2, k), z3.And(vdict_get(A2, k) == api_f(k), vdict_has(R2, k))))
        e.add(z3.Implies(z3.Not(vdict_has(R2, k)), z3.Not(vdict_has(D2, f))))


def invariant(c, g, what):
    for n, f in facts(c, g, W0):
        prove("C07.state: every request given to the connection waits in its table or is done (after %s)" % what, f) \
            if n in ("waits", "kept") else prove("C06.state: the tables agree (after %s)" % what, f)


def all_failed(c, g, R, what):
    """Every registered request is done."""
    # with an error: a response is what on_result looks at
    prove("C07.complete: no request is left waiting (%s)" % what, z3.And(
        z3.Not(vdict_has(lift(c.pending), W0)), z3.Implies(vdict_has(R, W0), g.is_done(fut_f(W0)))))


# ---------------------------------------------------------------- send
class Request:
    """A request of any api, by the contract of its class (C01)."""
    _kv_record = False

    def __init__(self, cid):
        self.correlation_id, self.cid = SInt(int_of(cid)), cid
        self.api = wrap(api_f(cid), TStr)
        self.payload = fresh_term("payload")
        core.E.add(kind(self.payload) == core.K_BYTES, z3.Length(chars(self.payload)) < (1 << 31))
        core.E.register(self)

    def serialize(self):
        return ropes.SBytes.atom(self.payload)


@unit("C06", "C07", functions=["kiel.connection.Connection.send", "kiel.connection.Connection.socket_error_handling",
                               "kiel.connection.Connection.abort", "kiel.connection.Connection.fail_pending"])
def connection_send(e):
    """send, in every state of the connection, for every request and outcome
    of the write."""
    c, g = connection(e)
    cid = IDS[0]
    e.assume(z3.Not(g.registered(cid)))
    e.add(z3.Not(vdict_has(lift(c.api_correlation), cid)))
    ghost(new_id=wrap(cid, TInt))
    req = Request(cid)
    closing = truth(c.closing)
    P, A, D, R = lift(c.pending), lift(c.api_correlation), lift(g.done), lift(g.reg)
    closed = e.fork(closing)
    if not closed:
        g.put(reg=vdict_set(R, cid, mk_int(1)))
    host, port = lift(c.host), lift(c.port)
    # until the request is in the table it counts as registered by nobody
    res = call_sync(c.send, req)
    if not ok("C06.completes: sending raises nothing", res, "send"):
        return
    f = res[1]
    prove("C06.future: send returns a future", z3.BoolVal(type(f) is SFuture))
    frame = cat(be("i", z3.Length(chars(req.payload))), chars(req.payload))
    out = [x for r in c.stream.out for x in r.pieces]
    written = ropes.SBytes(out).seq()
    if closed:
        prove("C07.closing: a request on a closing connection fails at once, naming the broker", z3.BoolVal(
            type(f.error).__name__ == "BrokerConnectionError"))
        prove("C07.names: the error names host and port", z3.And(
            eqv(getattr(f.error, "host", None), host), eqv(getattr(f.error, "port", None), port)))
        prove("C07.silent: nothing is written on a closing connection", z3.BoolVal(not c.stream.out))
        prove("C07.frame: the waiting requests are left alone", z3.And(eqv(c.pending, P), eqv(c.api_correlation, A)))
        e.cover("C07.closing")
        return
    if c.stream.failed:
        prove("C07.marked: a failed write marks the connection closing", truth(c.closing))
        invariant(c, g, "a failed write")
        prove("C07.sent: the request that could not be written waits or has failed", z3.Or(
            vdict_has(lift(c.pending), cid), g.is_done(fut_f(cid))))
        if core.E.valid(z3.Not(truth(c.stream.closed_))) or not e.fork(truth(c.stream.closed_)):
            prove("C07.closes: the stream is closed", z3.BoolVal(False))
        # what still waits is failed by the reading loop, which a closed stream ends (connection_read)
        e.cover("C07.write_failed")
        return
    prove("C06.wire: one frame, its exact length in front", written == frame)
    prove("C06.pending: the request waits under its id, all others as before",
          lift(c.pending) == vdict_set(P, cid, fut_f(cid)))
    prove("C06.api: its api is remembered under its id", lift(c.api_correlation) == vdict_set(A, cid, api_f(cid)))
    prove("C06.open: nothing is completed by sending", z3.And(lift(g.done) == D, z3.Not(truth(c.closing))))
    e.cover("C06.sent")
    # later: the outcome of the write
    for w in list(c.stream.writes):
        env(c, g)
        was = truth(c.closing)
        R, D = lift(g.reg), lift(g.done)
        P, A = lift(c.pending), lift(c.api_correlation)
        out = stubs.Future()
        kind_ = "fine" if e.fork(fresh_term("written", B)) else "closed" if e.fork(fresh_term("lost", B)) else "other"
        if kind_ == "fine":
            out.set_result(None)
        else:
            if kind_ == "closed":
                c.stream.close()
            out.set_exception(stubs.StreamClosedError() if kind_ == "closed" else Other())
        for cb in w.cbs:
            r = call(cb, out)
            ok("C07.callback: the outcome of a write raises nothing", r, "the write's callback")
        if kind_ == "fine":
            prove("C06.written: a finished write changes nothing", z3.And(
                eqv(c.pending, P), eqv(c.api_correlation, A), lift(g.done) == D, truth(c.closing) == was))
            e.cover("C06.written")
            continue
        prove("C07.noticed: a write that fails later marks the connection closing", truth(c.closing))
        invariant(c, g, "a write that failed later")
        if kind_ == "other" and e.fork(z3.Not(was)):
            prove("C07.shut: the stream is closed", truth(c.stream.closed_))
            e.cover("C07.written_later")


def call_sync(f, *a):
    """A call whose result may be a future of the program."""
    try:
        return ("ok", f(*a))
    except Signal:
        raise
    except Exception as x:
        return ("exc", check_exc(x))


# ---------------------------------------------------------------- abort, close
@unit("C07", functions=["kiel.connection.Connection.abort", "kiel.connection.Connection.fail_pending"])
def connection_abort(e):
    """abort, in every state, inside an exception handler or not."""
    c, g = connection(e)
    D, R = lift(g.done), lift(g.reg)
    was = e.fork(truth(c.closing))

    def inside():
        try:
            raise Other()
        except Other:
            c.abort()
    res = call(inside if e.fork(fresh_term("handling", B)) else c.abort)
    if not ok("C07.aborts: aborting raises nothing", res, "abort"):
        return
    invariant(c, g, "abort")
    prove("C07.marked: an aborted connection is closing", truth(c.closing))
    if not was:
        prove("C07.shut: the stream is closed", truth(c.stream.closed_))
        all_failed(c, g, R, "abort")
        e.cover("C07.aborted")


@unit("C07", functions=["kiel.connection.Connection.close"])
def connection_close(e):
    """close, in every state."""
    c, g = connection(e)
    res = call(c.close)
    if not ok("C07.closes: closing raises nothing", res, "close"):
        return
    invariant(c, g, "close")
    prove("C07.marked: a closed connection is closing", truth(c.closing))
    prove("C07.shut: the stream is closed", truth(c.stream.closed_))
    e.cover("C07.closed")


# ---------------------------------------------------------------- reading
def connection_read(e, api):
    """The reading coroutine, for every number of waiting requests, order of
    the responses and failure at any point; the next response is for this api."""
    c, g = connection(e)
    s = c.stream
    e.add(api_f(IDS[0]) == lift(api))
    for api, (mod, cls) in RESPONSES.items():
        C = getattr(need(M("kiel.protocol." + mod), cls), cls)

        def deserialize(raw, api=api):
            if e.fork(fresh_term("undecodable", B)):
                s.failed = True
                raise Other("undecodable")
            return Decoded(api, raw)
        e.repo.patch(C, "deserialize", staticmethod(deserialize))

    def on_result(f, v):
        k = s.frame
        if k is None or not k.complete:
            e.fail("C06.right: only a received response completes a request", "no whole frame was read")
            return
        prove("C06.right: a response completes the request with its correlation id", f.v == fut_f(k.cid))
        prove("C06.decoded: as a response of that request's api, from exactly that frame's bytes", z3.And(
            z3.BoolVal(type(v) is Decoded), lift(v.api) == api_f(k.cid), ropes.of(v.raw).seq() == k.payload)
            if type(v) is Decoded else z3.BoolVal(False))
        prove("C06.id: and carries that correlation id", eqv(v.correlation_id, k.cid)
              if type(v) is Decoded else z3.BoolVal(False))

    def end(loop=None):
        closing = truth(c.closing)
        prove("C06.boundary: the next frame is read from its start", z3.Or(closing, z3.BoolVal(not s.rest)))
        if s.failed:
            prove("C07.noticed: any failure marks the connection closing", closing)
        k = s.frame
        if k is not None and k.complete:
            prove("C06.delivered: a response somebody waits for is handed over", z3.Implies(
                z3.And(k.awaited, z3.Not(closing)), g.is_done(fut_f(k.cid))))
            prove("C06.unknown: a response nobody waits for is a failure", z3.Implies(
                z3.And(k.open, z3.Not(k.awaited)), closing))
    ghost(on_result=on_result, iteration_end=[end])
    res = call(c.read_loop)
    if not ok("C07.ends: reading ends without an exception", res, "read_loop"):
        return
    prove("C07.marked: reading ends only when the connection is closing", truth(c.closing))
    end()
    prove("C07.complete: no request is left waiting when reading has ended", z3.And(
        z3.Not(vdict_has(lift(c.pending), W0)), z3.Implies(g.registered(W0), g.is_done(fut_f(W0)))))
    e.cover("C07.ended")


for _api in RESPONSES:
    UNITS.append(Unit("connection_read:" + _api, ("C06", "C07"), lambda e, a=_api: connection_read(e, a), [
        "kiel.connection.Connection." + n for n in ("read_loop", "read_message", "socket_error_handling", "abort",
                                                    "fail_pending")], connection_read.__doc__, seconds=100))


# ---------------------------------------------------------------- connecting
@unit("C06", "C07", functions=["kiel.connection.Connection.connect"])
def connection_connect(e):
    """connect: reading starts exactly when connected."""
    m = need(M("kiel.connection"), "Connection")
    cls = need(m.Connection, "read_loop")
    started, addr = [], []

    class S:
        def connect(self, a, *k, **kw):
            addr.append(a)

            class O:
                awaited = True

                def _kv_outcome(o):
                    o.awaited = True
                    if e.fork(fresh_term("refused", B)):
                        raise stubs.StreamClosedError() if e.fork(fresh_term("closed", B)) else Other()
                    return self
            return stubs.started(O())

        def _kv_lift(self):
            return values.obj_const(self)
    e.repo.patch(cls, "read_loop", lambda self: started.append(self))
    queue = []
    ghost(IOStream=lambda *a, **k: S(), add_callback=lambda cb, *a, **k: queue.append((cb, a, k)))
    host, port = fresh("host"), fresh_int("port")
    c = cls(host, port)
    res = call(c.connect)
    for cb, a, k in queue:
        cb(*a, **k)
    prove("C06.address: the broker's host and port are connected to", z3.And(
        z3.BoolVal(len(addr) == 1), eqv(addr[0][0], host), eqv(addr[0][1], port)))
    if res[0] == "ok":
        prove("C06.reading: responses are read from then on, once", z3.BoolVal(started == [c]))
        prove("C07.usable: the connection is not closing", z3.Not(truth(c.closing)))
        e.cover("C06.connected")
    else:
        prove("C06.refused: an attempt that failed starts no reading", z3.BoolVal(not started))
        e.cover("C06.refused")


# ---------------------------------------------------------------- correlation ids
@unit("C06", functions=["kiel.protocol.request.generate_correlation_id", "kiel.protocol.request.Request.__init__"])
def correlation_ids(e):
    """Every new request's id is larger than all before: none is used twice."""
    m = need(M("kiel.protocol.request"), "generate_correlation_id", "Request")
    last = fresh_int("last")
    _, name = counter()
    setattr(m, name, last)
    res = call(m.generate_correlation_id)
    if not ok("C06.ids: an id is made", res, "generate_correlation_id"):
        return
    x = iterm(res[1])
    prove("C06.fresh: a new id is larger than every id before", x > last.t)
    prove("C06.counted: and counts as one of those from then on", iterm(getattr(m, name)) >= x)
    ids = []

    def gen():
        ids.append(fresh_int("id"))
        return ids[-1]
    m.generate_correlation_id = gen
    seen = []
    for mod in sorted({mod for mod, _ in RESPONSES.values()}):
        for C in list(M("kiel.protocol." + mod).__dict__.values()):
            if isinstance(C, type) and issubclass(C, m.Request) and C is not m.Request and C not in seen:
                seen.append(C)
    apis = []
    for C in seen:
        del ids[:]
        r = call(lambda: C(**{n: fresh(n) for n, _ in C.parts}))
        if not ok("C06.made: a request is made of its fields", r, C.__name__):
            return
        prove("C06.own: every request has a new id of its own", z3.And(
            z3.BoolVal(len(ids) == 1), eqv(r[1].correlation_id, lift(ids[-1]) if ids else NONE)))
        apis.append(r[1].api)
    prove("C06.named: there are requests of all apis", z3.BoolVal(set(RESPONSES) <= set(apis)))
    e.cover("C06.ids")
