"""Contracts of kiel/cluster.py."""
from .base import *
from kv import ropes
from .producer import list_factory, dict_factory

# the documented codes
UNKNOWN_TOPIC, NO_LEADER, NO_REPLICA = 3, 5, 9
TM, PM = "metadata.TopicMetadata", "metadata.PartitionMetadata"


def make_cluster(hosts=("b:1",)):
    m = need(M("kiel.cluster"), "Cluster")
    c = m.Cluster(SList.of(list(hosts)))
    need(c, "conns", "topics", "leaders")
    return c


@unit("C19", functions=["kiel.cluster.Cluster.process_topics"])
def process_topics(e):
    """process_topics, for every metadata response and every set of connections."""
    c = make_cluster()
    md = need(M("kiel.protocol.metadata"), "TopicMetadata", "PartitionMetadata")
    C0 = fresh_term("conns")
    c.conns = wrap(C0, TDict(TInt, TAny))
    c.topics = wrap(fresh_term("topics"), TDict(TAny, TList(TInt), factory=list_factory))
    c.leaders = wrap(fresh_term("leaders"), TDict(TAny, TDict(TInt, TInt), factory=dict_factory))
    resp = fresh("topics_md", TList(part_type(md.TopicMetadata)))
    RS = seq_of(lift(resp))

    def usable(p):
        return z3.And(fint(PM, "error_code", p) != NO_LEADER, vdict_has(C0, fld(PM, "leader", p)))

    def inner(loop):
        p = over_field(TM, "partitions")(loop)
        return p

    def parts(t):
        return seq_of(fld(TM, "partitions", t))

    def outer(loop):
        return over_seq(RS)(loop)
    name = lambda t: fld(TM, "name", t)
    pid = lambda p: fld(PM, "partition_id", p)

    def tp(t, D, p):
        return z3.If(usable(p), ext_list(D, name(t), mk_list(z3.Unit(pid(p)))), D)

    def ld(t, D, p):
        return z3.If(usable(p), vdict_set(D, name(t), vdict_set(get_or(D, name(t), vdict_empty()), pid(p),
                                                                fld(PM, "leader", p))), D)

    def ms(t, S, p):
        return z3.If(usable(p), S, core.vset_add(S, name(t)))
    TP = Fold("known_partitions", inner, tp, kinds=("dict",), seq=parts)
    LD = Fold("known_leaders", inner, ld, kinds=("dict",), seq=parts)
    MS = Fold("incomplete", inner, ms, kinds=("set",), seq=parts)

    def out(f, missing):
        def step(D, t):
            code = fint(TM, "error_code", t)
            return z3.If(code == UNKNOWN_TOPIC, D, z3.If(
                code == NO_REPLICA, core.vset_add(D, name(t)) if missing else D, f.total((t,), D)))
        return step
    seq = lambda: RS
    TPO = Fold("topics_of", outer, out(TP, False), kinds=("dict",), seq=seq)
    LDO = Fold("leaders_of", outer, out(LD, False), kinds=("dict",), seq=seq)
    MSO = Fold("incomplete_of", outer, out(MS, True), kinds=("set",), seq=seq)
    ghost(folds=[TP, LD, MS, TPO, LDO, MSO])
    res = call(c.process_topics, resp)
    if not ok("C19.no-exception: no metadata makes it raise", res, "process_topics"):
        return
    T, L = lift(c.topics), lift(c.leaders)
    D0 = vdict_empty()
    prove("C19.partitions: exactly the reported partitions with a connected leader are known, in order, nothing else",
          T == TPO.total((), D0))
    prove("C19.leaders: each of them is mapped to its leader, nothing else", L == LDO.total((), D0))
    prove("C19.missing: exactly the incomplete topics are reported", eqv(res[1], MSO.total((), core.vset_empty())))
    prove("C19.frame: connections are left alone", eqv(c.conns, C0))
    e.cover("C19.processed")


@unit("C19", functions=["kiel.cluster.Cluster.get_leader"])
def get_leader(e):
    """get_leader, for every view: the leader recorded for this partition of this topic."""
    c = make_cluster()
    L0, t, q = fresh_term("leaders"), fresh("topic"), fresh_int("partition")
    c.leaders = wrap(L0, TDict(TAny, TDict(TInt, TInt), factory=dict_factory))
    e.add(vdict_has(L0, t.v), vdict_has(vdict_get(L0, t.v), lift(q)))
    res = call(c.get_leader, t, q)
    if ok("C19.leader-known: asking for the leader of a known partition raises nothing", res, "get_leader"):
        prove("C19.leader: it is the leader recorded for exactly this partition",
              eqv(res[1], vdict_get(vdict_get(L0, t.v), lift(q))))
        prove("C19.leader-frame: asking changes nothing", eqv(c.leaders, L0))


# ---------------------------------------------------------------- connections
closing_f = z3.Function("is_closing", V, B)
host_of = z3.Function("host_of", V, V)
port_of = z3.Function("port_of", V, V)
new_conn = z3.Function("new_connection", V, V, V)
okk = z3.Function("connect_outcome", I, I)       # 0 connects, 1 stream closed, else any other error


class Other(Exception):
    """Any other error of a connection."""


class Conn:
    """An existing connection."""
    _kv_record = False
    unit = None

    def __init__(self, v):
        self.v = v

    def _kv_lift(self):
        return self.v

    def _kv_type(self):
        return TObj(Conn)

    closing = property(lambda self: SBool(closing_f(self.v)))
    host = property(lambda self: wrap(host_of(self.v), TAny))
    port = property(lambda self: wrap(port_of(self.v), TAny))

    def connect(self):
        return Conn.unit.connect(self)

    def send(self, request):
        return Conn.unit.send(self, request)

    def abort(self):
        return Conn.unit.abort(self)

    def close(self):
        return Conn.unit.close(self)


class Env:
    """What connections do in a unit; everything else is outside its contract."""

    def __init__(self):
        Conn.unit = self

    def connect(self, c):
        raise Unsupported("connect is not part of this contract")

    def send(self, c, r):
        raise Unsupported("send is not part of this contract")

    def abort(self, c):
        raise Unsupported("abort is not part of this contract")

    def close(self, c):
        raise Unsupported("close is not part of this contract")


TC = TDict(TInt, TObj(Conn))
W0 = z3.Const("w0", V)


class IFold(Fold):
    """A fold whose step also knows the position."""

    def step_at(self, params, init, i):
        s = self.at(params, init, i)
        core.E.add(self.at(params, init, i + 1) == self.pstep(*(list(params) + [s, self.elem(params, i), i])))


@unit("C20", functions=["kiel.cluster.Cluster.process_brokers"])
def process_brokers(e):
    """process_brokers, for every broker list, set of connections and pattern of failures."""
    brokers_round(e, False)


@unit("C20", functions=["kiel.cluster.Cluster.process_brokers"])
def process_brokers_overlap(e):
    """process_brokers, when other rounds of healing change the connections while it waits for one."""
    brokers_round(e, True)


def brokers_round(e, overlap):
    c = make_cluster()
    md = need(M("kiel.protocol.metadata"), "Broker")
    BM = "metadata.Broker"
    C0 = fresh_term("conns")
    c.conns = wrap(C0, TC)
    brokers = fresh("brokers", TList(part_type(md.Broker)))
    BS = seq_of(lift(brokers))
    it = {}
    bid = lambda b: fld(BM, "broker_id", b)
    att = z3.Function("tries_to_connect", I, B)          # at this position of the list

    def over(loop):
        return over_seq(BS)(loop)

    def conn_of(b):
        return new_conn(fld(BM, "host", b), fld(BM, "port", b))
    seq = lambda: BS
    CF = IFold("connections", over, None, kinds=("dict",), seq=seq)
    CF.pstep = lambda D, b, i: z3.If(z3.And(z3.Not(vdict_has(D, bid(b))), okk(i) == 0),
                                     vdict_set(D, bid(b), conn_of(b)), D)
    tried = (lambda b, i: att(i)) if overlap else (lambda b, i: z3.Not(vdict_has(CF.at((), C0, i), bid(b))))
    MF = IFold("missing", over, None, kinds=("set",), seq=seq)
    MF.pstep = lambda S, b, i: z3.If(z3.And(tried(b, i), okk(i) != 0), core.vset_add(S, bid(b)), S)
    IDS = Fold("listed_ids", over, None, kinds=("list",), seq=seq)
    IDS.pstep = lambda L, b: core.vlist_append(L, bid(b))
    LF = Fold("listed", over, None, kinds=("set",), seq=seq)
    LF.pstep = lambda S, b: core.vset_add(S, bid(b))
    LISTED = LF.total((), core.vset_empty())

    def unlisted(w):
        return z3.Not(core.vset_has(LISTED, w))

    def dropped(w):
        """Held when the round starts and, if others interfere, still held when it ends."""
        D = lift(c.conns)
        still = z3.And(vdict_has(D, w), vdict_get(D, w) == vdict_get(C0, w)) if overlap else z3.BoolVal(True)
        return z3.And(vdict_has(C0, w), unlisted(w), still)

    class Env1(Env):
        def connect(self, conn):
            prove("C20.connect-once: each listed broker is connected to at most once per round", it.get("n", 0) == 0)
            if "i" not in it:
                raise Unsupported("brokers are not connected to in a loop over the brokers")
            it["n"] += 1
            j = it["i"]
            prove("C20.connect-what: a connection is made to a listed broker's host and port, if there is none yet",
                  z3.And(lift(conn) == conn_of(it["b"]), z3.Not(vdict_has(
                      it["at"] if overlap else CF.at((), C0, j), bid(it["b"])))))
            e.cover("C20.connects")
            if overlap:
                disturb(c, "conns", TC)
                it["D"] = lift(c.conns)
            if e.fork(okk(j) == 0):
                it["up"] = True
                return stubs.resolved(None)
            if e.fork(okk(j) == 1):
                return stubs.failed(stubs.StreamClosedError())
            return stubs.failed(Other())

        def close(self, conn):
            if "i" not in it or "k" in it:
                raise Unsupported("connections are closed outside the loop over the brokers")
            it["closed"].append(conn.v)

        def abort(self, conn):
            if "k" not in it:
                raise Unsupported("connections are not aborted in a loop over broker ids")
            info = it["loop"].info
            if not getattr(info, "aborts", False):       # this is the loop that aborts
                info.aborts = True
                e.restart(it["loop"].prefix)
            it["aborted"].append(conn.v)
    Env1()
    put(M("kiel.cluster"), Connection=lambda host, port: Conn(new_conn(lift(host), lift(port))))

    def keyed(loop):
        return loop.spec is not None and hasattr(loop.spec, "vis") and over(loop) is None

    def step(loop):
        if over(loop) is not None:
            for f in (LF, CF, MF):
                f.start((), C0 if f is CF else core.vset_empty())
                f.step_at((), C0 if f is CF else core.vset_empty(), loop.i)
            it.update(i=loop.i, b=elem_of(loop), n=0, at=lift(c.conns), closed=[], up=False)
            e.add(att(loop.i) == z3.Not(vdict_has(it["at"], bid(it["b"]))))
        elif keyed(loop):
            it.update(k=elem_of_key(loop), aborted=[], loop=loop)

    def end(loop):
        if keyed(loop) and getattr(loop.info, "aborts", False):
            a, k, D = it["aborted"], it["k"], lift(c.conns)
            prove("C20.abort: exactly the connections of brokers no longer listed are aborted",
                  z3.And(z3.Implies(dropped(k), len(a) == 1), z3.Implies(z3.Not(unlisted(k)), len(a) == 0), len(a) <= 1,
                         *[z3.Or(z3.And(vdict_has(T, k), x == vdict_get(T, k)) for T in (C0, D)) for x in a]))
        elif over(loop) is not None and "loop" not in it and (it["n"] or it["closed"]):
            D, now, b = it.get("D"), lift(c.conns), it["b"]
            mine = [z3.And(x == conn_of(b), it["n"] == 1) for x in it["closed"]]
            if not overlap:
                prove("C20.unclosed: no connection is closed that could be made", len(mine) == 0 or not it["up"])
                prove("C20.others: nor any other connection", z3.And(z3.BoolVal(True), *mine))
            elif it["up"]:
                taken = vdict_has(D, bid(b))
                prove("C20.overlap: what other rounds did meanwhile is kept, a connection for a broker that got "
                      "one meanwhile is closed",
                      z3.And(now == z3.If(taken, D, vdict_set(D, bid(b), conn_of(b))),
                             z3.If(taken, z3.BoolVal(len(mine) == 1), z3.BoolVal(len(mine) == 0)), *mine))
                e.cover("C20.overlap")
            else:
                prove("C20.overlap-failed: a failed connection changes nothing", z3.And(now == D, *mine))

    def rels(loop):
        out = []
        if over(loop) is not None:
            for loc, ty in loop.info.mods.items():
                if ty is not None and ty.k == "list":
                    def f(i, loc=loc):
                        t = loop.term(loc)
                        return None if t is None else rt.seqdom(seq_of(t)) == sdom(LF.at((), core.vset_empty(), i))
                    out.append((("ids", loc), f))
                if ty is not None and ty.k == "dict" and not overlap:
                    def f(i, w, loc=loc):
                        D = loop.term(loc)
                        return None if D is None else z3.Implies(vdict_has(C0, w), z3.And(
                            vdict_has(D, w), vdict_get(D, w) == vdict_get(C0, w)))
                    out.append((("kept", loc), f, 1))
        elif hasattr(loop.spec, "vis"):
            for loc, ty in loop.info.mods.items():
                if ty is not None and ty.k in ("list", "set", "dict"):
                    def f(i, w, loc=loc, ty=ty):
                        t = loop.term(loc)
                        if t is None:
                            return None
                        d = rt.seqdom(seq_of(t)) if ty.k == "list" else ddom(t) if ty.k == "dict" else sdom(t)
                        return z3.Select(d, w) == z3.And(z3.Select(loop.spec.vis(i), w), unlisted(w))
                    out.append((("dropped", loc), f, 1, lambda L: [(elem_of_key(L),)]))
                if ty is not None and ty.k == "dict" and loop.spec.kind == "dict":
                    def f(i, w, loc=loc):
                        t = loop.term(loc)
                        return None if t is None else z3.Implies(
                            vdict_has(t, w), vdict_get(t, w) == vdict_get(loop.spec.base, w))
                    out.append((("dropped conns", loc), f, 1, lambda L: [(elem_of_key(L),)]))
        return out

    def exits(loop):
        if keyed(loop) and getattr(loop.info, "aborts", False):
            it["covered"] = loop.spec.dom
    ghost(folds=[MF, IDS, LF] + ([] if overlap else [CF]), rels=[rels], step_hooks=[step], iteration_end=[end],
          loop_exits=[exits], key_witnesses=[W0])
    res = call(c.process_brokers, brokers)
    if not ok("C20.no-exception: no broker list and no failure makes it raise", res, "process_brokers"):
        return
    if not overlap:
        prove("C20.connections: connections are kept and added for exactly the listed brokers that could be connected "
              "to", eqv(c.conns, CF.total((), C0)))
    prove("C20.missing: exactly the brokers that could not be connected to are reported",
          eqv(res[1], MF.total((), core.vset_empty())))
    d = it.get("covered")
    prove("C20.abort-all: every connection of a broker no longer listed is aborted",
          z3.Implies(dropped(W0), z3.Select(d, W0)) if d is not None else z3.Not(dropped(W0)))
    e.cover("C20.processed")


def elem_of_key(loop):
    return core.nth(loop.spec.K, loop.i)


@unit("C20", functions=["kiel.cluster.Cluster.get_metadata"])
def get_metadata(e):
    """get_metadata, for every set of connections, changing while waiting, and every pattern of failures."""
    c = make_cluster()
    md = need(M("kiel.protocol.metadata"), "MetadataRequest", "MetadataResponse")
    X = M("kiel.exc")
    C0 = fresh_term("conns")
    c.conns = wrap(C0, TC)
    part_type(md.MetadataRequest)
    rt_ = part_type(md.MetadataResponse)
    cid = fixed_correlation()
    it = {"answer": None, "ended": False}
    given = e.choose(2)
    topics = fresh("topics", TList(TAny)) if given else None
    want = mkreq(md.MetadataRequest, cid, topics=lift(topics) if given else vlist_empty())

    class Env1(Env):
        def send(self, conn, request):
            if "k" not in it:
                raise Unsupported("connections are not tried in a loop over the connections")
            prove("C20.ask: each connection is asked for the metadata of these topics, one at a time",
                  z3.And(conn.v == vdict_get(C0, it["k"]), lift(request) == want, it["n"] == 0,
                         it["answer"] is None))
            it["n"] += 1
            e.cover("C20.asks for metadata")
            disturb(c, "conns", TC)
            k = e.choose(4)
            if k == 0:
                it["answer"] = fresh("response", rt_)
                return stubs.resolved(it["answer"])
            return stubs.failed([X.BrokerConnectionError("h", 1), stubs.StreamClosedError(), Other()][k - 1])
    Env1()

    def keyed(loop):
        return loop.spec is not None and hasattr(loop.spec, "vis") and \
            (loop.spec.dom.eq(ddom(C0)) or e.valid(loop.spec.dom == ddom(C0)))

    def step(loop):
        if keyed(loop):
            it.update(k=elem_of_key(loop), n=0)

    def end(loop):
        if keyed(loop):
            prove("C20.each-conn: no connection is passed over before one answers",
                  it["n"] == 1 and it["answer"] is None)

    def exits(loop):
        if keyed(loop):
            it["ended"] = True
    ghost(step_hooks=[step], iteration_end=[end], loop_exits=[exits], key_witnesses=[W0])
    res = call(c.get_metadata, topics) if given else call(c.get_metadata)
    if res[0] == "exc":
        prove("C20.no-brokers: the no-brokers error is raised, and only when no connection answered",
              z3.And(type(res[1]) is X.NoBrokersError, it["answer"] is None,
                     z3.Or(it["ended"], ddom(C0) == core.EMPTY_DOM)))
        e.cover("C20.no brokers")
        return
    if ok("C20.get-completes", res, "get_metadata"):
        prove("C20.answer: the result is the answer", it["answer"] is not None and eqv(res[1], it["answer"]))


@unit("C19", "C20", functions=["kiel.cluster.Cluster.heal"])
def heal(e):
    """heal, for every set of connections and every sequence of metadata; its callees by contract."""
    c = make_cluster()
    md = need(M("kiel.protocol.metadata"), "MetadataResponse")
    rt_ = part_type(md.MetadataResponse)
    C = [fresh_term("conns")]                  # the connections when culling starts
    c.conns = wrap(C[0], TC)
    c.kv_mb, c.kv_mt = SBool(z3.BoolVal(False)), SBool(z3.BoolVal(False))
    c.kv_miss = SBool(z3.BoolVal(True))        # ghost: something is missing, or nothing was processed yet
    given = e.choose(2)
    it = {"step": "get" if not given else "brokers"}
    c.kv_resp = fresh("response", rt_) if given else None      # ghost: the latest metadata
    NoBr = M("kiel.exc").NoBrokersError
    first = c.kv_resp

    def culled(D, w):
        alive = z3.And(vdict_has(C[0], w), z3.Not(closing_f(vdict_get(C[0], w))))
        return z3.And(vdict_has(D, w) == alive, z3.Implies(alive, vdict_get(D, w) == vdict_get(C[0], w)))

    def round0():
        """This is the first round."""
        if it.get("done"):
            return z3.BoolVal(False)
        ws = [L for L in e.loopstack if L.is_while]
        return ws[0].i == 0 if ws else z3.BoolVal(True)

    def get_metadata(*a, **k):
        prove("C19.again: metadata is asked for again only while something is missing",
              truth(c.kv_miss) if it["step"] in ("again", "get") else False)
        topics = a[0] if a else k.get("topics")
        prove("C19.all: it is the metadata of all topics", True if topics is None else eqv(topics, vlist_empty()))
        disturb(c, "conns", TC)
        if not it.get("done"):
            C[0] = lift(c.conns)
        if e.choose(2):
            it["raised"] = True
            raise NoBr()
        c.kv_resp, it["step"] = fresh("response", rt_), "brokers"
        return c.kv_resp

    def process_brokers(bs):
        prove("C20.sync: the connections are synced with the brokers of the latest metadata, before its topics",
              eqv(bs, fld("metadata.MetadataResponse", "brokers", lift(c.kv_resp)))
              if it["step"] == "brokers" and c.kv_resp is not None else False)
        if e.fork(round0()):
            prove("C20.cull: exactly the closing connections are discarded first", culled(lift(c.conns), W0))
            e.cover("C20.culls")
        it["done"] = True
        it["step"] = "topics"
        disturb(c, "conns", TC)
        it["mb"] = fresh("missing_brokers", TSet(TInt), ro=False)
        c.kv_mb = SBool(truth(it["mb"]))
        return it["mb"]

    def process_topics(ts):
        prove("C19.sync: then the topics of the same metadata are processed",
              eqv(ts, fld("metadata.MetadataResponse", "topics", lift(c.kv_resp)))
              if it["step"] == "topics" else False)
        it["step"] = "again"
        it["mt"] = fresh("missing_topics", TSet(TAny), ro=False)
        c.kv_mt = SBool(truth(it["mt"]))
        c.kv_miss = SBool(z3.Or(truth(c.kv_mb), truth(c.kv_mt)))
        return it["mt"]
    put(c, get_metadata=Returns(get_metadata), process_brokers=Returns(process_brokers), process_topics=process_topics)

    def keyed(loop):
        return loop.spec is not None and hasattr(loop.spec, "vis") and \
            (loop.spec.dom.eq(ddom(C[0])) or e.valid(loop.spec.dom == ddom(C[0])))

    def rels(loop):
        out = []
        if loop.is_while:
            out.append((("miss",), lambda i: truth(c.kv_miss) == z3.Or(truth(c.kv_mb), truth(c.kv_mt))))
            me = core.E.born.get(id(c))
            for loc, ty in loop.info.mods.items():
                if ty is not None and ty.k == "rec" and loc != ("obj", me, "kv_resp"):
                    def f(i, loc=loc):
                        x = loop.term(loc)
                        return None if x is None or c.kv_resp is None else x == lift(c.kv_resp)
                    out.append((("latest", loc), f))
                if ty is not None and ty.k == "dict":
                    def f(i, w, loc=loc):
                        D = loop.term(loc)
                        return None if D is None or it.get("done0") else z3.Implies(i == 0, culled(D, w))
                    out.append((("first", loc), f, 1))
        if keyed(loop):
            for loc, ty in loop.info.mods.items():
                if ty is not None and ty.k == "dict":
                    def f(i, w, loc=loc):
                        D = loop.term(loc)
                        if D is None:
                            return None
                        gone = z3.And(z3.Select(loop.spec.vis(i), w), closing_f(vdict_get(C[0], w)))
                        q = z3.And(vdict_has(C[0], w), z3.Not(gone))
                        return z3.And(vdict_has(D, w) == q, z3.Implies(q, vdict_get(D, w) == vdict_get(C[0], w)))
                    out.append((("culled", loc), f, 1, lambda L: [(elem_of_key(L),)]))
        return out

    def step(loop):
        if loop.is_while:
            loop.kv_step0, it["done0"] = it["step"], it.get("done")

    def end(loop):
        if loop.is_while:
            prove("C19.rounds: every round gets metadata and processes it", it["step"] == loop.kv_step0)
    ghost(iteration_end=[end], step_hooks=[step], rels=[rels] + [same_bools(c, a) for a in ("kv_mb", "kv_mt", "kv_miss")], key_witnesses=[W0])
    res = call(c.heal, first) if given else call(c.heal)
    if res[0] == "exc":
        prove("C20.heal-error: only the no-brokers error is raised, when nothing answers",
              type(res[1]) is NoBr and bool(it.get("raised")))
        return
    if ok("C19.heal-completes", res, "heal"):
        prove("C19.until: healing ends only when no topic and no broker is missing",
              z3.And(it["step"] == "again", z3.Not(truth(c.kv_miss))))
        e.cover("C19.healed")


@unit("C20", functions=["kiel.cluster.Cluster.start"])
def start(e):
    """Cluster.start, for every list of bootstrap hosts and every pattern of failures."""
    c = make_cluster()
    md = need(M("kiel.protocol.metadata"), "MetadataRequest", "MetadataResponse")
    X = M("kiel.exc")
    hosts = fresh("hosts", TList(TStr))
    HS = seq_of(lift(hosts))
    c.bootstrap_hosts = hosts
    part_type(md.MetadataRequest)
    rt_ = part_type(md.MetadataResponse)
    cid = fixed_correlation()
    want = mkreq(md.MetadataRequest, cid, topics=vlist_empty())
    has_colon = z3.Function("contains_str", V, V, B)
    head, tail, num = (z3.Function(n, V, V) for n in ("host_part", "port_part", "int_of_text"))
    it = {"answer": None, "ended": False, "closed": 0}

    def split(v):
        if not e.valid(has_colon(v, lift(":"))):
            raise Unsupported("split of a host without port")
        for t in (head(v), tail(v)):                       # neither is empty
            e.add(z3.Length(ropes.chars_of(t)) > 0, ropes.truthy_f(t))
        return SList.of([wrap(head(v), TStr), wrap(tail(v), TStr)])

    def new(host, port):
        if "h" not in it:
            raise Unsupported("connections are not made in a loop over the hosts")
        h = it["h"]
        colon = has_colon(h, lift(":"))
        prove("C20.boot-host: the connection is to the host given, on its port or else 9092",
              z3.And(eqv(host, z3.If(colon, head(h), h)),
                     eqv(port, z3.If(colon, num(tail(h)), lift(9092))), it["made"] == 0))
        it["made"] += 1
        return Conn(new_conn(lift(host), lift(port)))

    class Env1(Env):
        def connect(self, conn):
            prove("C20.boot-order: hosts are tried one after another until one answers",
                  it["answer"] is None and it["conn"] == 0)
            it["conn"] += 1
            k = e.choose(4)
            if k == 0:
                it["up"] = conn
                return stubs.resolved(None)
            return stubs.failed([X.BrokerConnectionError("h", 1), stubs.StreamClosedError(), Other()][k - 1])

        def send(self, conn, request):
            prove("C20.boot-ask: the host connected to is asked for the metadata of all topics, once",
                  z3.And(lift(request) == want, it.get("up") is conn, it["asked"] == 0))
            it["asked"] += 1
            e.cover("C20.asks a host")
            k = e.choose(4)
            if k == 0:
                it["answer"], it["by"] = fresh("response", rt_), conn
                return stubs.resolved(it["answer"])
            return stubs.failed([X.BrokerConnectionError("h", 1), stubs.StreamClosedError(), Other()][k - 1])

        def close(self, conn):
            it["closed"] += it.get("by") is conn
    Env1()
    put(M("kiel.cluster"), Connection=new)

    def over(loop):
        return over_seq(HS)(loop) is not None

    def step(loop):
        if over(loop):
            it.update(h=elem_of(loop), made=0, conn=0, asked=0, up=None)

    def end(loop):
        if over(loop):
            prove("C20.boot-each: no host is passed over before one answers",
                  it["made"] == 1 and it["conn"] == 1 and it["answer"] is None and
                  (it["asked"] == 1 or it["up"] is None))

    def exits(loop):
        if over(loop):
            it["ended"] = True

    def heal(*a):
        prove("C20.boot-heal: the cluster is set up from the metadata that was answered", it["answer"] is not None and
              len(a) == 1 and eqv(a[0], it["answer"]))
        it["healed"] = True
        if e.choose(2):
            it["boom"] = True
            raise X.NoBrokersError()
    H = Returns(heal)
    put(c, heal=H)
    ghost(step_hooks=[step], iteration_end=[end], loop_exits=[exits], split=split, may_lack_sep=True,
          parse_int=lambda v: wrap(num(v), TInt))
    res = call(c.start)
    if res[0] == "exc":
        if it.get("boom"):
            prove("C20.boot-passed: what setting up raised is raised", type(res[1]) is X.NoBrokersError)
            return
        prove("C20.boot-none: the no-brokers error is raised, and only when no host answered",
              z3.And(type(res[1]) is X.NoBrokersError, it["answer"] is None, len(H.calls) == 0,
                     z3.Or(it["ended"], z3.Length(HS) == 0)))
        e.cover("C20.no host")
        return
    if ok("C20.boot-completes", res, "start"):
        prove("C20.boot-once: the cluster is set up once and the bootstrap connection closed",
              it["answer"] is not None and len(H.calls) == 1 and it["closed"] == 1)
        e.cover("C20.starts")


@unit("C20", functions=["kiel.cluster.Cluster.stop"])
def cluster_stop(e):
    """stop, for every set of connections."""
    c = make_cluster()
    C0 = fresh_term("conns")
    c.conns = wrap(C0, TC)
    it = {}

    class Env1(Env):
        def close(self, conn):
            if "k" not in it:
                raise Unsupported("connections are not closed in a loop over the connections")
            prove("C20.stop: it is the connections of the cluster that are closed", conn.v == vdict_get(C0, it["k"]))
            it["n"] += 1

        abort = close
    Env1()

    def keyed(loop):
        return loop.spec is not None and hasattr(loop.spec, "vis") and \
            (loop.spec.dom.eq(ddom(C0)) or e.valid(loop.spec.dom == ddom(C0)))

    def step(loop):
        if keyed(loop):
            it.update(k=elem_of_key(loop), n=0)

    def end(loop):
        if keyed(loop) and "n" in it:
            prove("C20.stopped: every connection is closed", it["n"] >= 1)

    def exits(loop):
        if keyed(loop):
            it["all"] = True
    ghost(step_hooks=[step], iteration_end=[end], loop_exits=[exits], key_witnesses=[W0])
    res = call(c.stop)
    if ok("C20.stop-completes", res, "stop"):
        prove("C20.stopped: every connection is closed", z3.Or(bool(it.get("all")), ddom(C0) == core.EMPTY_DOM))
        e.cover("C20.stops")


@unit("C20", functions=["kiel.clients.client.Client.connect", "kiel.clients.client.Client.close",
                        "kiel.clients.single.SingleConsumer.wind_down"])
def client_life(e):
    """connect and close of a client with nothing of its own to start, and whatever winding down does."""
    m = need(M("kiel.clients.single"), "SingleConsumer")
    own = e.choose(2)
    c = (need(M("kiel.clients.client"), "Client").Client if own else m.SingleConsumer)(SList.of(["b:1"]))
    need(c, "cluster", "closing")
    log = []

    def start():
        log.append("start")
        if e.choose(2):
            raise Other()
    def wind():
        log.append("wind")
        prove("C20.marked: a client that winds down is closing", lift(c.closing) == mk_bool(True))
        if e.choose(2):
            log.append("failed")
            raise Other()
    put(c.cluster, start=Returns(start), stop=Returns(lambda: log.append("stop"), coroutine=False))
    if own:
        put(c, wind_down=Returns(wind))
    res = call(c.connect)
    prove("C20.connect: connecting starts the cluster once", log == ["start"])
    if res[0] == "exc":
        prove("C20.connect-error: what goes wrong is reported", type(res[1]) is Other)
        return
    res = call(c.close)
    if "failed" in log:
        prove("C20.close-error: what goes wrong is reported", z3.And(res[0] == "exc", type(res[1]) is Other))
        return
    if ok("C20.close-completes", res, "close"):
        prove("C20.close: closing marks the client, winds down and stops the connections once", z3.And(
            lift(c.closing) == mk_bool(True), z3.BoolVal(log == ["start"] + ["wind"] * own + ["stop"])))
        e.cover("C20.closes")
