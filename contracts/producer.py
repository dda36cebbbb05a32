from .base import *


def make_producer(**kw):
    P = M("kiel.clients.producer").Producer
    p = P(SList.of(["b:1"]), **kw)
    return need(p, "unsent", "sent", "cluster", "heal_cluster", "closing")


def requeued(U, t, msgs):
    return ext_list(U, t, msgs)


@unit("C10", "C11", functions=["kiel.clients.producer.Producer.queue_retries"])
def queue_retries(e):
    """queue_retries appends messages to the queue of their topic and calls for a refresh, for every queue."""
    p = need(make_producer(), "queue_retries")
    U0 = fresh_term("unsent")
    p.unsent = wrap(U0, TDict(TAny, TList(TAny), factory=list_factory))
    S0 = fresh_term("sent")
    p.sent = wrap(S0, TDict(TInt, TDict(TAny, TDict(TAny, TList(TAny)), factory=dict_factory), factory=ddict_factory))
    p.heal_cluster = SBool(e.fresh(B, "heal0"))
    T, msgs = fresh("topic"), fresh("msgs", TList(TAny))
    xs = seq_of(lift(msgs))
    e.assume(z3.Length(xs) > 0)

    def rels(loop):
        out = []
        if over_seq(xs)(loop) is None:
            return out
        for loc, ty in loop.info.mods.items():
            if ty is not None and ty.k == "dict":
                def f(i, loc=loc):
                    D = loop.term(loc)
                    return None if D is None else D == z3.If(i == 0, U0, requeued(
                        U0, T.v, mk_list(z3.Extract(xs, z3.IntVal(0), i))))
                out.append((("moved", loc), f))
        return out
    def prefixes(loop):
        # theory of sequences: a prefix grows by the element the loop is at, the last one is the whole
        if over_seq(xs)(loop) is None:
            return
        z, i = z3.IntVal(0), loop.i
        pre = mk_list(z3.Extract(xs, z, i))
        old = seq_of(get_or(U0, T.v, vlist_empty()))
        nxt = mk_list(z3.Concat(old, z3.Extract(xs, z, i + 1)))
        e.add(z3.Extract(xs, z, i + 1) == z3.Concat(z3.Extract(xs, z, i), z3.Unit(elem_of(loop))),
              z3.Length(z3.Extract(xs, z, i)) == i)
        e.add(nxt == mk_list(z3.Concat(old, z3.Extract(xs, z, i), z3.Unit(elem_of(loop)))))
        if e.fork(i == 0):
            e.add(z3.Extract(xs, z, i) == core.EMPTY_SEQ)
    ghost(rels=[rels], step_hooks=[prefixes])
    if not ok("C11.requeue: queueing messages again raises nothing", call(p.queue_retries, T, msgs), "queue_retries"):
        return
    for c in ("C10.kept", "C11.requeue"):
        prove(c + ": messages queued again are appended to their topic's queue, in order",
              eqv(p.unsent, requeued(U0, T.v, lift(msgs))))
    for c in ("C10.heal", "C11.heal"):
        prove(c + ": queueing messages again calls for a refresh", truth(p.heal_cluster))
    prove("C11.frame: queueing messages again leaves what is in flight alone", eqv(p.sent, S0))
    e.cover("C11.queues again")


def retries_by_contract(p):
    """The callee's contract, where there is such a callee."""
    if not hasattr(p, "queue_retries"):
        return
    real = p.queue_retries

    def stub(*a, **k):
        if len(a) != 2 or k:
            return real(*a, **k)
        t, msgs = lift(a[0]), lift(a[1])
        if not core.E.valid(z3.Length(seq_of(msgs)) > 0):
            return real(*a, **k)
        ty = p.unsent._kv_type()
        p.unsent.havoc(requeued(lift(p.unsent), t, msgs), ty)
        p.unsent.mark()
        p.heal_cluster = SBool(z3.BoolVal(True))
    put(p, queue_retries=stub)


@unit("C11", functions=["kiel.clients.producer.Producer.handle_produce_response"])
def produce_response(e):
    """handle_produce_response, for every response and every state of the queue."""
    p = make_producer()
    msgs = TList(TAny)
    U0 = fresh_term("unsent")
    p.unsent = wrap(U0, TDict(TAny, msgs, factory=list_factory))
    S0 = fresh_term("sent")
    p.sent = wrap(S0, TDict(TInt, TDict(TAny, TDict(TAny, msgs), factory=dict_factory), factory=ddict_factory))
    heal0 = e.fresh(B, "heal0")
    p.heal_cluster = SBool(heal0)
    r = response("produce", "ProduceResponse")
    part = M("kiel.protocol.produce")
    rt_ = lift(r)
    topics = seq_of(fld("produce.ProduceResponse", "topics", rt_))
    c = fld("produce.ProduceResponse", "correlation_id", rt_)
    T, P_ = "produce.TopicResponse", "produce.PartitionResponse"
    part_type(part.TopicResponse)
    rec(T, sorted(["name", "partitions"]))
    rec(P_, sorted(x[0] for x in part.PartitionResponse.parts))

    def orig(t, q):
        return vdict_get(vdict_get(vdict_get(S0, c), t), q)

    # --- preconditions: the response answers a request that is in flight;
    # each (topic, partition) of it is named once
    e.assume(vdict_has(S0, c))
    idxT = z3.Function("idxT", V, I)
    idxP = z3.Function("idxP", V, V, I)

    def code(el):
        return fint(P_, "error_code", el)

    def hook(loop):
        q = over_topics(loop)
        if q is not None:
            el = core.nth(topics, loop.i)
            e.add(idxT(fld(T, "name", el)) == loop.i)
        q = parts_of(loop)
        if q is not None:
            tr, = q
            el = core.nth(seq_of(fld(T, "partitions", tr)), loop.i)
            nm, pid = fld(T, "name", tr), fld(P_, "partition_id", el)
            e.add(idxP(tr, pid) == loop.i)
            D = vdict_get(S0, c)
            # what is in flight has messages (C10)
            e.add(z3.Implies(retriable(code(el)), z3.And(
                vdict_has(D, nm), vdict_has(vdict_get(D, nm), pid), z3.Length(seq_of(orig(nm, pid))) > 0)))

    over_topics = over_seq(topics)
    parts_of = over_field(T, "partitions")

    def topic_step(U, tr, i):
        return inner.total((tr,), U)

    def part_step_p(tr, U, el):
        nm, pid = fld(T, "name", tr), fld(P_, "partition_id", el)
        return z3.If(retriable(code(el)), ext_list(U, nm, orig(nm, pid)), U)

    inner = Fold("requeue_parts", parts_of, None, kinds=("dict",), seq=field_seq(T, "partitions"))
    inner.step = None
    inner.pstep = part_step_p
    outer = Fold("requeue_topics", over_topics, None, kinds=("dict",), seq=lambda: topics)
    outer.pstep = lambda U, tr: inner.total((tr,), U)
    hin = Flag("heal_parts", parts_of, field_seq(T, "partitions"), lambda tr, el: retriable(code(el)))
    hout = Flag("heal_topics", over_topics, lambda: topics, hin.whole)
    frels, fhooks = flags(hin, hout)

    # frame: what is not processed yet of what was sent is still there
    def rels(loop):
        out = []
        q, q2 = over_topics(loop), parts_of(loop)
        if q is None and q2 is None:
            return out
        if q is not None:
            def unvis(i, t, x):
                return idxT(t) >= i

            def inst(L):
                return []
        else:
            tr, = q2
            outers = [L for L in e.loopstack if over_topics(L) is not None]
            oi = outers[-1].i if outers else z3.IntVal(0)

            def unvis(i, t, x):
                return z3.Or(idxT(t) > oi, z3.And(idxT(t) == oi, idxP(tr, x) >= i))

            def inst(L):
                el = core.nth(seq_of(fld(T, "partitions", tr)), L.i)
                return [(fld(T, "name", tr), fld(P_, "partition_id", el))]
        for loc, ty in loop.info.mods.items():
            d = ty
            depth = 0
            while d is not None and d.k == "dict":
                d, depth = d.args[1], depth + 1
            if depth not in (2, 3) or d is None or d.k != "list":
                continue

            def form(i, t, x, loc=loc, depth=depth):
                D = loop.term(loc)
                if D is None:
                    return None
                D0 = vdict_get(S0, c)
                if depth == 3:
                    return z3.Implies(unvis(i, t, x), z3.And(
                        vdict_has(D, c),
                        z3.Implies(z3.And(vdict_has(D0, t), vdict_has(vdict_get(D0, t), x)), z3.And(
                            vdict_has(vdict_get(D, c), t),
                            vdict_has(vdict_get(vdict_get(D, c), t), x),
                            vdict_get(vdict_get(vdict_get(D, c), t), x) == orig(t, x)))))
                return z3.Implies(z3.And(unvis(i, t, x), vdict_has(D0, t), vdict_has(vdict_get(D0, t), x)), z3.And(
                    vdict_has(D, t), vdict_has(vdict_get(D, t), x), vdict_get(vdict_get(D, t), x) == orig(t, x)))
            out.append((("frame", loc), form, 2, inst))

            if depth == 3:
                def others(i, loc=loc):
                    return vdict_del(loop.term(loc), c) == vdict_del(S0, c)
                out.append((("others", loc), others))
                out.append((("inflight", loc), lambda i, loc=loc: vdict_has(loop.term(loc), c)))
        return out

    ghost(folds=[inner, outer], rels=[rels] + frels, step_hooks=[hook] + fhooks)
    retries_by_contract(p)
    res = call(p.handle_produce_response, r)
    if not ok("C11.no-exception: a response never makes the handler raise", res, "handle_produce_response"):
        return
    prove("C11.requeue: unsent becomes exactly the fold of the retriable partitions' messages, in order",
          eqv(p.unsent, outer.total((), U0)))
    prove("C11.heal: a refresh is called for exactly if a partition had a retriable error",
          truth(p.heal_cluster) == z3.Or(heal0, hout.whole()))
    prove("C11.forget: nothing is remembered of the request, all others are untouched",
          eqv(p.sent, vdict_del(S0, c)))
    e.cover("C11.handler returns")


def list_factory():
    return SList()


def dict_factory():
    return SDict()


def ddict_factory():
    return SDict(factory=dict_factory)


# ---------------------------------------------------------------- produce
queued_f = z3.Function("queued", V, I)        # messages in a queue, over all topics


@unit("C09", functions=["kiel.clients.producer.Producer.unsent_count"])
def unsent_count(e):
    """unsent_count is the number of queued messages over all topics, for every queue."""
    p = make_producer()
    U0 = fresh_term("unsent")
    p.unsent = wrap(U0, TDict(TAny, TList(TAny), factory=list_factory))
    dom = ddom(U0)
    over = over_dict(dom)
    L = Fold("lengths", over, None, kinds=("list",), seq=lambda: loops.keyseq(dom))
    L.pstep = lambda A, t: core.vlist_append(A, mk_int(z3.Length(seq_of(vdict_get(U0, t)))))
    N = Fold("count", over, None, kinds=("int",), seq=lambda: loops.keyseq(dom))
    N.pstep = lambda n, t: mk_int(int_of(n) + z3.Length(seq_of(vdict_get(U0, t))))

    def ints(loop):
        sp = loop.spec
        return (sp.base,) if sp is not None and sp.kind == "seq" else None
    S = Fold("sum", ints, None, kinds=("int",), seq=seq_of)
    S.pstep = lambda xs, n, x: mk_int(int_of(n) + int_of(x))
    ghost(folds=[L, N, S])
    res = call(lambda: p.unsent_count)
    if not ok("C09.count: counting the queue does not raise", res, "unsent_count"):
        return
    ls = mk_list(seq_of(L.total((), vlist_empty())))
    x = lift(res[1])
    prove("C09.count: the count is the sum of the lengths of the queues of all topics",
          z3.Or(x == N.total((), mk_int(0)), x == S.total((ls,), mk_int(0))))
    prove("C09.frame: counting changes nothing", eqv(p.unsent, U0))
    e.cover("C09.counts")


@unit("C09", functions=["kiel.clients.producer.Producer.produce"])
def produce(e):
    """produce, for every queue, batch size, message, key maker, serializer and metadata view."""
    k = e.choose(2)
    BS = fresh_int("batch_size") if k else None
    keyf, valf = z3.Function("key_maker", V, V), z3.Function("serializer", V, V)
    seen = []

    def key_maker(m):
        seen.append(("key", lift(m)))
        return wrap(keyf(lift(m)), TAny)

    def serializer(m):
        seen.append(("value", lift(m)))
        return wrap(valf(lift(m)), TAny)
    p = make_producer(key_maker=key_maker, serializer=serializer, batch_size=BS)
    mod = M("kiel.protocol.messages")
    part_type(mod.Message)
    U0 = fresh_term("unsent")
    p.unsent = wrap(U0, TDict(TAny, TList(TAny), factory=list_factory))
    closing = e.fresh(B, "closing")
    p.closing = SBool(closing)
    tt = TDict(TAny, TList(TInt), factory=list_factory)
    g = {"t": fresh_term("topics")}
    put(p.cluster, topics=wrap(g["t"], tt))
    T, m = fresh("topic"), fresh("message")
    topics0 = g["t"]
    ev = []

    def heal():
        ev.append("heal")
        g["t"] = fresh_term("topics")
        put(p.cluster, topics=wrap(g["t"], tt))
    msg = mkrec(mod.Message, crc=UNDEF, magic=mk_int(0), attributes=mk_int(0), key=keyf(m.v), value=valf(m.v)) \
        if "crc" in rec(mod.Message._kv_recname).fields else mkrec(
            mod.Message, magic=mk_int(0), attributes=mk_int(0), key=keyf(m.v), value=valf(m.v))
    want = ext_list(U0, T.v, mk_list(z3.Unit(msg)))

    def flush():
        ev.append("flush")
        prove("C09.before: the message is in the queue when it is flushed", eqv(p.unsent, want))
        disturb(p, "unsent", TDict(TAny, TList(TAny), factory=list_factory))
    count = z3.Function("queued", V, I)
    n = count(want)
    H, F = Returns(heal), Returns(flush)
    put(p.cluster, heal=H)
    put(p, flush=F)
    cls = type(p)
    e.repo.patch(cls, "unsent_count", property(lambda self: SInt(count(lift(self.unsent)))))
    e.add(n >= 1)               # contract of unsent_count: a queued message is counted
    res = call(p.produce, T, m)
    if not ok("C09.no-exception: producing does not raise", res, "produce"):
        return
    if e.valid(closing):
        prove("C09.closing: while closing nothing is queued or flushed", z3.And(not ev, eqv(p.unsent, U0)))
        return
    prove("C09.closing: while closing nothing is queued or flushed", z3.Not(closing))
    known = vdict_has(topics0, T.v)
    prove("C09.heal: an unknown topic, and no other, causes one refresh",
          z3.Not(known) if ev[:1] == ["heal"] else z3.And(known, len(H.calls) == 0))
    prove("C09.heal-once: at most one refresh, and at most one flush after it",
          ev in ([], ["heal"], ["flush"], ["heal", "flush"]))
    known2 = vdict_has(g["t"], T.v)
    if F.calls:
        prove("C09.flush: it is flushed only when batching is off or the batch is full",
              z3.And(known2, True if BS is None else z3.Or(BS.t == 0, n >= BS.t)))
        e.cover("C09.flushes")
        return
    prove("C09.queue: a message of a known topic is queued exactly once at the end of its topic's queue with the "
          "configured key and value, one of an unknown topic is not queued",
          eqv(p.unsent, z3.If(known2, want, U0)))
    prove("C09.keep: it is not flushed only when unknown or the batch is not full",
          z3.Implies(known2, False if BS is None else z3.And(BS.t != 0, n < BS.t)))
    prove("C09.topics: the topics known stay", eqv(p.cluster.topics, g["t"]))
    e.cover("C09.queues")


@unit("C09", functions=["kiel.clients.producer.Producer.wind_down", "kiel.clients.client.Client.close"])
def close(e):
    """Closing flushes what is queued, before the connections are stopped."""
    p = make_producer()
    ev = []

    def flush():
        ev.append("flush")
        prove("C09.marked: no message is accepted any more when the queue is flushed for the last time",
              truth(p.closing) if not isinstance(p.closing, bool) else p.closing)
    put(p, flush=Returns(flush))
    put(p.cluster, stop=Returns(lambda: ev.append("stop"), coroutine=False))
    res = call(p.close)
    if ok("C09.close: closing does not raise", res, "close"):
        prove("C09.close: closing flushes once and then stops the connections", ev == ["flush", "stop"])


json_text = z3.Function("json_text", V, V)
json_value = z3.Function("json_value", V, V)


def json_dumps(x, **kw):
    if set(kw) - {"sort_keys", "separators", "ensure_ascii", "indent"}:
        raise Unsupported("json.dumps with other options")
    t = json_text(lift(x))
    core.E.add(json_value(t) == lift(x))
    return wrap(t, TStr)


def json_loads(x, **kw):
    if kw:
        raise Unsupported("json.loads with options")
    return wrap(json_value(lift(x)), TAny)


@unit("C09", "C10", functions=["kiel.clients.producer.Producer.__init__"])
def defaults(e):
    """What a producer does with its messages when nothing else is configured."""
    k = e.fresh(I, "random")

    def choice(xs):
        q = seq_of(lift(xs))
        e.add(k >= 0, k < z3.Length(q))
        return wrap(core.nth(q, k), TInt)

    def randint(a, b):
        e.add(iterm(a) <= k, k <= iterm(b))
        return SInt(k)
    ghost(**{"json.dumps": json_dumps, "json.loads": json_loads, "random.choice": choice, "random.randint": randint})
    p = make_producer()
    need(p, "serializer", "key_maker", "partitioner")
    m = fresh("message")
    res = call(p.serializer, m)
    if ok("C09.serializes: by default every message is serialized", res, "serializer"):
        prove("C09.json: by default the value of a message is its JSON text", json_value(lift(res[1])) == m.v)
    res = call(p.key_maker, m)
    if ok("C09.keys: by default making a key does not raise", res, "key_maker"):
        prove("C09.no-key: by default a message has no key", lift(res[1]) == lift(None))
    parts = fresh("partitions", TList(TInt))
    q = seq_of(lift(parts))
    e.assume(z3.Length(q) > 0)
    res = call(p.partitioner, fresh("key"), parts)
    if ok("C10.partitions: by default choosing a partition does not raise", res, "partitioner"):
        D = rt.seqdom(q)
        e.add(z3.Implies(z3.And(k >= 0, k < z3.Length(q)), z3.Select(D, core.nth(q, k))))
        prove("C10.one-of: by default the partition is one of the topic's", z3.Select(D, lift(res[1])))
        e.cover("C10.default")
