"""Contract of Producer.flush (C10) and of kiel.iterables.drain."""
import dis
from .base import *
from .producer import make_producer, retries_by_contract, list_factory, dict_factory, ddict_factory

TMSGS = TDict(TAny, TList(TAny), factory=list_factory)


def live(g):
    """The local names a generator reads after the yield it waits at, before it sets them (by its byte code)."""
    co = g.gi_code
    code = list(dis.get_instructions(co))
    at = {x.offset: i for i, x in enumerate(code)}
    handlers = [(x.start, x.end, x.target) for x in dis.Bytecode(co).exception_entries]
    out = set(co.co_cellvars) | set(co.co_freevars)
    seen, todo = set(), [(at[g.gi_frame.f_lasti] + 1, frozenset())]
    while todo:
        i, known = todo.pop()
        if (i, known) in seen or i >= len(code):
            continue
        seen.add((i, known))
        x = code[i]
        todo += [(at[t], known) for a, b, t in handlers if a <= x.offset < b]
        if x.opname == "STORE_FAST":
            known = known | {x.argval}
        elif "_FAST" in x.opname:
            out |= {n for n in (x.argval if isinstance(x.argval, tuple) else (x.argval,)) if n not in known}
        if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
            todo.append((at[x.argval], known))
        if x.opname not in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD",
                            "JUMP_BACKWARD_NO_INTERRUPT"):
            todo.append((i + 1, known))
    return out


@unit("C10", functions=["kiel.iterables.drain"])
def drain(e):
    """drain of a dict: from any state it takes one item out and yields it, or ends when the dict is empty.

    The state of the generator at its yield is its local names: they are the same objects after the
    first and after the second step, so every later step is like the second.
    """
    f = need(M("kiel.iterables"), "drain").drain
    D0 = fresh_term("items")
    d = wrap(D0, TMSGS, ro=False)
    ghost(stepped=True)                        # the two steps below are all that is run
    g = f(d)

    def step(before, what):
        try:
            k, x = next(g)
        except StopIteration:
            prove("C10.drain-end: draining ends only when nothing is left", ddom(before) == core.EMPTY_DOM)
            prove("C10.drain-frame: ending changes nothing", eqv(d, before))
            return False
        kt = lift(k)
        prove("C10.drain-item: an item of the dict is handed out", z3.And(
            vdict_has(before, kt), lift(x) == vdict_get(before, kt)))
        prove("C10.drain-removed: it is taken out and the others are kept", eqv(d, vdict_del(before, kt)))
        return True

    def names():
        return {k: x for k, x in g.gi_frame.f_locals.items() if not k.startswith("_kv") and k in live(g)}
    if not step(D0, "first"):
        return
    l1 = names()
    D1 = fresh_term("items")
    d.havoc(D1, TMSGS)
    d.mark()
    if not step(D1, "second"):
        return
    l2 = names()
    prove("C10.drain-loop: every further step is like the second",
          l1.keys() == l2.keys() and all(l1[k] is l2[k] for k in l1))
    e.cover("C10.drains")


class Drained:
    """Contract of drain: hands out every item of the dict once, the dict without it."""

    def __init__(self, d, fold, key_iter):
        self.d, self.fold, self.key_iter = d, fold, key_iter

    def _kv_lift(self):
        raise Unsupported("drain as a value")

    def _kv_iter(self):
        d, e = self.d, core.E
        U = lift(d)
        t = d._kv_type()
        dom = ddom(U)
        sp = self.key_iter(dom, t.args[0], lambda k: (wrap(k, t.args[0]), wrap(vdict_get(U, k), t.args[1], ro=True)),
                           "drain", U)
        item0, exit0 = sp.on_item, sp.on_exit

        def state(i):
            return self.fold.at((), U, i)

        def known():
            """The loop knows that its body changes the dict: at its head the dict is what is left."""
            L = e.loopstack[-1]
            loc = ("obj", e.born[id(d)], None)
            if loc not in L.info.mods:
                L.info.mods[loc] = t
                L.relearn()

        self.fold.start((), U)

        def on_item(i):
            item0(i)
            known()
            if not e.valid(lift(d) == state(i)):
                raise Unsupported("the queue is changed while it is drained")
            self.fold.step_at((), U, i)
            d.havoc(state(i + 1), t)
            d.mark()

        def on_exit(i):
            exit0(i)
            known()
            if not e.valid(lift(d) == state(i)):
                raise Unsupported("the queue is changed while it is drained")
            e.add(state(sp.n) == vdict_empty())
        sp.on_item, sp.on_exit = on_item, on_exit
        return sp


part_f = z3.Function("partitioner", V, V, V)
cid_of = z3.Function("cid_of", V, V)
who = z3.Function("request_of_cid", V, V)
comp_f = z3.Function("compressed_set", V, V, V)


def nest(D, *ks):
    """(presence, value) of a path of keys in nested dicts."""
    c = []
    for k in ks:
        c.append(vdict_has(D, k))
        D = vdict_get(D, k)
    return z3.And(*c), D


@unit("C10", functions=["kiel.clients.producer.Producer.flush", "kiel.clients.producer.Producer.queue_retries"],
      seconds=200)
def flush(e):
    """flush, for every queue, partitioner, metadata view, set of connections and settings."""
    acks, tmo, comp = fresh_int("acks"), fresh_int("timeout"), None
    pm = M("kiel.protocol.produce")
    mm = M("kiel.protocol.messages")
    it = {"n": 0}
    p = make_producer(required_acks=acks, ack_timeout=tmo)
    comp = fresh("compression")
    p.compression = comp
    part_type(mm.Message)
    for k in (pm.PartitionRequest, pm.TopicRequest, pm.ProduceRequest):
        part_type(k, message_set=TAny)
    U0, S0 = fresh_term("unsent"), fresh_term("sent")
    p.unsent = wrap(U0, TDict(TAny, TList(part_type(mm.Message)), factory=list_factory))
    p.sent = wrap(S0, TDict(TInt, TDict(TAny, TDict(TAny, TList(TAny)), factory=dict_factory), factory=ddict_factory))
    h0 = e.fresh(B, "heal0")
    p.heal_cluster = SBool(h0)
    T0, L0, C0 = fresh_term("topics"), fresh_term("leaders"), fresh_term("conns")
    p.cluster.conns = wrap(C0, TDict(TInt, TAny))
    put(p.cluster, topics=wrap(T0, TDict(TAny, TList(TInt), factory=list_factory)),
        leaders=wrap(L0, TDict(TAny, TDict(TAny, TInt), factory=dict_factory)))
    MS = "messages.Message"

    # --- callees by contract
    def partitioner(key, partitions):
        it["n"] += 1
        m, t = it["msg"], it["topic"]
        prove("C10.partitioner: it is asked once per message, with its key and the topic's known partitions",
              z3.And(eqv(key, fld(MS, "key", m)), eqv(partitions, vdict_get(T0, t)), it["n"] == 1))
        return wrap(part_f(fld(MS, "key", m), vdict_get(T0, t)), TInt)
    p.partitioner = partitioner

    def compressed(cls, compression, msgs):
        return wrap(comp_f(lift(compression), lift(msgs)), TAny)
    mm.MessageSet.compressed = classmethod(compressed)
    rq = need(M("kiel.protocol.request"), "generate_correlation_id")

    def cid():
        l = it.get("leader")
        if l is None:
            raise Unsupported("requests are not made in a loop over the leaders")
        return SInt(int_of(cid_of(l)))
    rq.generate_correlation_id = cid

    # --- the specification
    def parts_of(t):
        return seq_of(vdict_get(T0, t))

    def usable(t):
        return z3.And(vdict_has(T0, t), z3.Length(parts_of(t)) > 0)

    def route(t, m):
        q = part_f(fld(MS, "key", m), vdict_get(T0, t))
        return q, vdict_get(vdict_get(L0, t), q)

    def connected(l):
        return vdict_has(C0, l)
    U0dom = ddom(U0)

    def odrain(loop):
        return () if loop.spec is not None and loop.spec.kind == "drain" else None

    def omsgs(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq" or "topic" not in it:
            return None
        if not any(odrain(L) is not None for L in e.loopstack if L is not loop):
            return None
        x = vdict_get(U0, it["topic"])
        return (it["topic"], x) if seq_of(sp.base).eq(seq_of(x)) or e.valid(seq_of(sp.base) == seq_of(x)) else None

    def ord1(t, xs, O, m):
        q, l = route(t, m)
        a = get_or(O, l, vdict_empty())
        b = get_or(a, t, vdict_empty())
        return z3.If(z3.And(usable(t), connected(l)), vdict_set(O, l, vdict_set(a, t, ext_list(b, q, mk_list(z3.Unit(m))))), O)

    def ret1(t, xs, Rt, m):
        q, l = route(t, m)
        return z3.If(z3.And(usable(t), connected(l)), Rt, ext_list(Rt, t, mk_list(z3.Unit(m))))
    om = Fold("sent_of_topic", omsgs, None, kinds=("dict",), seq=lambda t, x: seq_of(x))
    om.pstep = ord1
    rm = Fold("kept_of_topic", omsgs, None, kinds=("dict",), seq=lambda t, x: seq_of(x))
    rm.pstep = ret1
    keys = loops.keyseq(U0dom)
    OR = Fold("ordered", odrain, None, kinds=("dict",), seq=lambda: keys)
    OR.pstep = lambda O, t: z3.If(usable(t), om.total((t, vdict_get(U0, t)), O), O)
    RE = Fold("kept", odrain, None, kinds=("dict",), seq=lambda: keys)
    RE.pstep = lambda Rt, t: z3.If(usable(t), rm.total((t, vdict_get(U0, t)), Rt), ext_list(Rt, t, vdict_get(U0, t)))
    DR = Fold("drained", odrain, None, kinds=("dict",), seq=lambda: keys)
    DR.pstep = lambda U, t: vdict_del(U, t)
    M("kiel.clients.producer").drain = lambda d: Drained(d, DR, loops.key_iter)

    ORD, RET = OR.total((), vdict_empty()), RE.total((), vdict_empty())

    # requests: per leader, per topic, per partition
    def oleaders(loop):
        return over_dict(ddom(ORD))(loop) if odrain(loop) is None and loop.spec is not None \
            and loop.spec.kind == "dict" and "leader" not in it else None

    def sub(loop, owner):
        sp = loop.spec
        if sp is None or sp.kind != "dict":
            return False
        return sp.dom.eq(ddom(owner)) or e.valid(sp.dom == ddom(owner))

    def loop_kind(loop):
        """leaders / topics / partitions loop of the second half; once per loop."""
        if not hasattr(loop, "kv_kind"):
            loop.kv_kind = loop_kind0(loop)
        return loop.kv_kind

    def loop_kind0(loop):
        sp = loop.spec
        if sp is None or sp.kind != "dict":
            return None
        outer = [L for L in e.loopstack if L is not loop and getattr(L, "kv_kind", None)]
        if not outer:
            if sub(loop, ORD):
                return ("leaders", ORD)
            if sub(loop, RET):
                return ("keep", RET)
            return None
        o = outer[-1].kv_kind
        if o[0] == "leaders":
            x = vdict_get(ORD, elem_of(outer[-1]))
            return ("topics", x) if sub(loop, x) else None
        if o[0] == "topics":
            x = vdict_get(o[1], elem_of(outer[-1]))
            return ("partitions", x) if sub(loop, x) else None
        return None

    def isk(name):
        def m(loop):
            q = loop_kind(loop)
            return (q[1],) if q and q[0] == name else None
        return m

    def kseq(D):
        return loops.keyseq(ddom(D))
    PF = Fold("partition_requests", isk("partitions"), None, kinds=("list",), seq=kseq)
    PF.pstep = lambda D, A, q: core.vlist_append(A, mkrec(
        pm.PartitionRequest, partition_id=q, message_set=comp_f(comp.v, vdict_get(D, q))))
    TF = Fold("topic_requests", isk("topics"), None, kinds=("list",), seq=kseq)
    TF.pstep = lambda D, A, t: core.vlist_append(A, mkrec(
        pm.TopicRequest, name=t, partitions=PF.total((vdict_get(D, t),), vlist_empty())))

    def mk(l, D):
        return mkreq(pm.ProduceRequest, cid_of(l), required_acks=mk_int(acks.t), timeout=mk_int(tmo.t),
                     topics=TF.total((D,), vlist_empty()))

    def reqs_ok(Rq, vis, w):
        return z3.And(vdict_has(Rq, w) == z3.Select(vis, w),
                      z3.Implies(z3.Select(vis, w), vdict_get(Rq, w) == mk(w, vdict_get(ORD, w))))

    def kept_ok(U, vis, w):
        return z3.And(vdict_has(U, w) == z3.Select(vis, w),
                      z3.Implies(z3.Select(vis, w), vdict_get(U, w) == vdict_get(RET, w)))

    def sent_ok(S, mine, c, t, x):
        """mine(w): of request w, which (topic, partition) are registered; None: all."""
        w = who(c)
        own = z3.And(cid_of(w) == c, mine(w, t, x))
        p1, v1 = nest(S, c, t, x)
        p0, v0 = nest(S0, c, t, x)
        po, vo = nest(ORD, w, t, x)
        return z3.And(z3.Implies(own, z3.And(p1, v1 == vo)),
                      z3.Implies(z3.Not(own), z3.And(p1 == p0, z3.Implies(p0, v1 == v0))))

    def depth(ty):
        n = 0
        while ty is not None and ty.k == "dict":
            ty, n = ty.args[1], n + 1
        return n, ty

    def rels(loop):
        q = loop_kind(loop)
        out = []

        def topic_of(L):
            return [(elem_of(L) if odrain(L) is not None else it["topic"],)]
        if q is None:
            if odrain(loop) is not None or omsgs(loop) is not None:
                for loc, ty in loop.info.mods.items():
                    if depth(ty)[0] == 1 and loc[0] == "obj":
                        def f(i, w, loc=loc):
                            D = loop.term(loc)
                            return None if D is None else z3.Implies(
                                vdict_has(D, w), z3.Length(seq_of(vdict_get(D, w))) > 0)
                        out.append((("some", loc), f, 1, topic_of))

                        def seen(i, w, loc=loc):
                            D = loop.term(loc)
                            L = loop if odrain(loop) is not None else [
                                x for x in e.loopstack if x is not loop and odrain(x) is not None][-1]
                            v = z3.Select(L.spec.vis(i if L is loop else L.i), w)
                            return None if D is None else z3.Implies(
                                vdict_has(D, w), v if L is loop else z3.Or(v, w == it["topic"]))
                        out.append((("seen", loc), seen, 1, topic_of))
                    if omsgs(loop) is not None and loc in loop.entry and depth(ty)[0] in (1, 3):
                        # the messages of a topic without known partitions, should they be gone through
                        def unrouted(i, loc=loc, n=depth(ty)[0]):
                            D, o = loop.term(loc), loop.entry[loc]
                            t, x = omsgs(loop)
                            return None if D is None else z3.Implies(z3.Not(usable(t)), D == (o if n == 3 else z3.If(
                                i == 0, o, ext_list(o, t, mk_list(z3.Extract(seq_of(x), z3.IntVal(0), i))))))
                        out.append((("unrouted", loc), unrouted))
            return out
        stack = [L for L in e.loopstack if getattr(L, "kv_kind", None)]

        def mine_at(i):
            """registered (topic, partition) pairs of request w when the loop is at i"""
            ls = [L for L in stack if L is not loop]
            vis = [L.spec.vis(L.i) for L in ls] + [loop.spec.vis(i)]
            cur = [elem_of(L) for L in ls]

            def mine(w, t, x):
                po, _ = nest(ORD, w, t, x)
                f = z3.Select(vis[0], w)
                if len(vis) > 1:
                    g = z3.Select(vis[1], t)
                    if len(vis) > 2:
                        g = z3.Or(g, z3.And(t == cur[1], z3.Select(vis[2], x)))
                    f = z3.Or(f, z3.And(w == cur[0], g))
                return z3.And(po, f)
            return mine
        for loc, ty in loop.info.mods.items():
            n, leaf = depth(ty)
            if q[0] == "keep":
                if n == 1:
                    def f(i, w, loc=loc):
                        D = loop.term(loc)
                        return None if D is None else kept_ok(D, loop.spec.vis(i), w)
                    out.append((("kept", loc), f, 1, lambda L: [(elem_of(L),)]))
                if ty is not None and ty.k == "bool":
                    def f(i, loc=loc):
                        b = loop.term(loc)
                        return None if b is None else b == mk_bool(z3.Or(h0, i > 0))
                    out.append((("heal", loc), f))
                continue
            if n == 1 and q[0] == "leaders":
                def f(i, w, loc=loc):
                    D = loop.term(loc)
                    return None if D is None else reqs_ok(D, loop.spec.vis(i), w)
                out.append((("requests", loc), f, 1, lambda L: [(elem_of(L),)]))
            if n == 2 and q[0] != "leaders" and loc[0] == "obj":
                # what is remembered of the request being made
                def f(i, t, x, loc=loc):
                    D = loop.term(loc)
                    if D is None:
                        return None
                    l = it["leader"]
                    g = mine_at(i)(l, t, x)
                    p1, v1 = nest(D, t, x)
                    return z3.And(p1 == g, z3.Implies(g, v1 == nest(ORD, l, t, x)[1]))
                out.append((("in flight", loc), f, 2, lambda L: [(z3.Const("w1", V), z3.Const("w2", V))]))
            if n == 3:
                def f(i, c, t, x, loc=loc):
                    D = loop.term(loc)
                    return None if D is None else sent_ok(D, mine_at(i), c, t, x)

                def inst(L):
                    if q[0] != "leaders":
                        return []
                    c = cid_of(elem_of(L))
                    w = [z3.Const("w%d" % j, V) for j in range(3)]
                    return [(c, w[0], w[1]), (c, w[1], w[2])]
                out.append((("sent", loc), f, 3, inst))
        return out

    def prefixes(loop, t, xs):
        # theory of sequences: a prefix grows by the element the loop is at
        z, i, el = z3.IntVal(0), loop.i, z3.Unit(it["msg"])
        pre, nxt = z3.Extract(xs, z, i), z3.Extract(xs, z, i + 1)
        e.add(nxt == z3.Concat(pre, el), z3.Length(pre) == i)
        first = e.fork(i == 0)
        if first:
            e.add(pre == core.EMPTY_SEQ)
        for loc, ty in loop.info.mods.items():
            if loc in loop.entry and depth(ty)[0] == 1:
                old = seq_of(get_or(loop.entry[loc], t, vlist_empty()))
                new = mk_list(z3.Concat(old, seq_of(mk_list(nxt))))
                e.add(new == mk_list(z3.Concat(old, el) if first else
                                     z3.Concat(seq_of(mk_list(z3.Concat(old, seq_of(mk_list(pre))))), el)))

    def step(loop):
        if odrain(loop) is not None:
            it["topic"] = elem_of(loop)
            # a queue without messages is not kept (C09, C11)
            e.add(z3.Length(seq_of(vdict_get(U0, it["topic"]))) > 0)
            return
        q = omsgs(loop)
        if q is not None:
            it["msg"], it["n"] = elem_of(loop), 0
            t = it["topic"]
            pt, l = route(t, it["msg"])
            # precondition: the partitioner picks one of the partitions, all of which have a leader
            e.add(z3.Implies(usable(t), z3.And(vdict_has(L0, t), vdict_has(vdict_get(L0, t), pt))))
            if not e.valid(usable(t)) and not e.fork(usable(t)):
                prefixes(loop, t, seq_of(q[1]))
            return
        q = loop_kind(loop)
        if q and q[0] == "leaders":
            l = elem_of(loop)
            it["leader"] = l
            # correlation ids are never reused (C06)
            e.add(who(cid_of(l)) == l, core.kind(cid_of(l)) == core.K_INT, z3.Not(vdict_has(S0, cid_of(l))),
                  mk_int(int_of(cid_of(l))) == cid_of(l))

    def end(loop):
        if omsgs(loop) is not None:
            prove("C10.partitioner: it is asked once per message, with its key and the topic's known partitions",
                  z3.If(usable(it["topic"]), z3.BoolVal(it["n"] == 1), z3.BoolVal(it["n"] == 0)))
    ev = []

    def send(reqs):
        ev.append("send")
        w, c, t, x = (z3.Const("w%d" % j, V) for j in (0, 0, 1, 2))
        prove("C10.exact: each leader of a message's partition, and no other broker, is sent one request with exactly "
              "its messages by topic and partition, in order, with the configured settings",
              reqs_ok(lift(reqs), ddom(ORD), w))
        prove("C10.registered: what was sent is remembered by correlation id for the answer, nothing else changes",
              sent_ok(lift(p.sent), lambda w, t, x: nest(ORD, w, t, x)[0], c, t, x))
        prove("C10.kept: exactly the messages that cannot be sent are back in the queue, in order",
              kept_ok(lift(p.unsent), ddom(RET), w))
        prove("C10.heal: a refresh is called for exactly if a message could not be sent",
              eqv(p.heal_cluster, mk_bool(z3.Or(h0, ddom(RET) != core.EMPTY_DOM))))
        e.cover("C10.sends")
    S = Returns(send)
    put(p, send=S)
    ghost(folds=[om, rm, OR, RE, DR, PF, TF], rels=[rels], step_hooks=[step], iteration_end=[end],
          key_witnesses=[z3.Const("w%d" % j, V) for j in range(3)])
    retries_by_contract(p)
    res = call(p.flush)
    if not ok("C10.no-exception: flushing raises nothing", res, "flush"):
        return
    if not ev:
        prove("C10.nothing: nothing is sent only if nothing is queued", z3.And(
            ddom(U0) == core.EMPTY_DOM, eqv(p.sent, S0), eqv(p.heal_cluster, mk_bool(h0))))
        return
    prove("C10.once: each flush sends once", ev == ["send"])
    e.cover("C10.flush returns")
