"""Contracts of the consumer side: kiel/clients/consumer.py, single.py, grouped.py."""
from .base import *
from .producer import list_factory, dict_factory, ddict_factory

TPOS = TDict(TAny, TDict(TAny, TInt, total=True), total=True)      # topic -> partition -> position


def tset(O, k, x):
    """Position table update."""
    return mk_dict(ddom(O), z3.Store(dval(O), k, x))


def tget(O, k):
    return z3.Select(dval(O), k)


def pset(O, t, p, i):
    return tset(O, t, tset(tget(O, t), p, mk_int(i)))


des_ok = z3.Function("des_ok", V, B)
des_f = z3.Function("des", V, V)


def deserializer(value):
    """Any deserializer: gives a value that depends on its input, or raises."""
    v = lift(value)
    if core.E.fork(des_ok(v)):
        return SVal(des_f(v))
    raise ValueError("cannot deserialize")


def consumer(cls=None, **kw):
    if cls is None:
        cls = M("kiel.clients.consumer").BaseConsumer
    c = cls(SList.of(["b:1"]), deserializer=deserializer, **kw)
    need(c, "offsets", "synced_offsets", "heal_cluster", "cluster", "closing")
    return c


def state(c):
    """Arbitrary positions, synced topics and heal flag."""
    O0, S0, h0 = fresh_term("offsets"), fresh_term("synced"), core.E.fresh(B, "heal0")
    c.offsets = wrap(O0, TPOS)
    set_synced(c, S0)
    c.heal_cluster = SBool(h0)
    return O0, S0, h0


def set_synced(c, term):
    """Anything may have happened to the topics whose positions are known; the set stays the same object."""
    s = need(c, "synced_offsets").synced_offsets
    if not isinstance(s, SSet):
        raise Unsupported("synced_offsets is not a set")
    s.havoc(term, TSet(TAny))
    s.mark()


def rebalance_reaches(c):
    """Last in a unit: a rebalance from here on makes all positions unknown (C16, C22)."""
    f = getattr(getattr(c, "allocator", None), "on_rebalance", None)
    if f is None:
        raise Unsupported("no rebalance callback")
    f()
    prove("C22.reaches: a rebalance makes the positions of all topics unknown",
          eqv(c.synced_offsets, core.vset_empty()))


def one_topic(mod, cls, name="resp"):
    """A response naming exactly one topic: (response, topic record, name, partitions seq)."""
    r = response(mod, cls)
    t = seq_of(fld("%s.%s" % (mod, cls), "topics", lift(r)))
    core.E.assume(z3.Length(t) == 1)
    tr = core.nth(t, 0)
    need(M("kiel.protocol." + mod), "TopicResponse", "PartitionResponse")
    return r, tr, fld(mod + ".TopicResponse", "name", tr), seq_of(fld(mod + ".TopicResponse", "partitions", tr))


def aliased(c, F):
    """Loops that F describes, where the positions of the topic are written through a name of their own."""
    def rels(loop):
        q = F.match(loop)
        if q is None or ("obj", core.E.born.get(id(c.offsets)), None) in loop.info.mods or not any(
                ty is not None and ty.k == "dict" for ty in loop.info.mods.values()):
            return []
        O = lift(c.offsets)

        def f(i):
            F.start(q, O)
            if loop.started:
                F.step_at(q, O, loop.i)
            return lift(c.offsets) == F.at(q, O, i)
        return [(("aliased", F.name), f)]
    return rels


@unit("C13", "C14", functions=["kiel.clients.consumer.BaseConsumer.handle_fetch_response",
                               "kiel.clients.consumer.BaseConsumer.deserialize_messages"])
def fetch_response(e):
    """handle_fetch_response, for every one-topic response, every state of the consumer, every deserializer."""
    c = consumer()
    O0, S0, h0 = state(c)
    r, tr, T, parts = one_topic("fetch", "FetchResponse")
    P_, MSG = "fetch.PartitionResponse", "messages.Message"

    def code(el):
        return fint(P_, "error_code", el)

    def moff(m):
        return int_of(core.tup_proj(2, 0)(m))

    def mval(m):
        return fld(MSG, "value", core.tup_proj(2, 1)(m))

    def msgs(loop):
        q = over_field("MessageSet", "messages")(loop)
        if q is None or q[0].decl().name() != P_ + ".message_set":
            return None
        return (q[0].arg(0),)

    def mseq(el):
        return seq_of(fld("MessageSet", "messages", fld(P_, "message_set", el)))

    over = over_seq(parts)
    dl = Fold("deliver", msgs, None, kinds=("list",), seq=mseq)
    dl.pstep = lambda el, L, m: z3.If(des_ok(mval(m)), core.vlist_append(L, des_f(mval(m))), L)
    of = Fold("move", msgs, None, kinds=("dict",), seq=mseq)
    of.pstep = lambda el, O, m: z3.If(z3.And(des_ok(mval(m)), moff(m) >= 0),
                                      pset(O, T, fld(P_, "partition_id", el), moff(m) + 1), O)
    DL = Fold("deliver_all", over, None, kinds=("list",), seq=lambda: parts)
    DL.pstep = lambda L, el: z3.If(code(el) == 0, core.vlist_concat(L, dl.total((el,), vlist_empty())), L)
    OF = Fold("move_all", over, None, kinds=("dict",), seq=lambda: parts)
    OF.pstep = lambda O, el: z3.If(code(el) == 0, of.total((el,), O), O)
    HE = Flag("heal", over, lambda: parts, lambda el: retriable(code(el)))
    SY = Flag("redetermine", over, lambda: parts, lambda el: code(el) == 1, drop=T)
    frels, fhooks = flags(HE, SY)

    def pending(loop):
        """The position to move to is kept aside until all messages were seen."""
        q = msgs(loop)
        out = []
        if q is None:
            return out
        el = q[0]
        for loc, ty in loop.info.mods.items():
            if ty is None or loc not in loop.entry or not (ty.k == "int" or ty.k == "opt" and ty.args[0].k == "int"):
                continue
            for more in (0, 1):
                def f(i, loc=loc, more=more):
                    x, O = loop.term(loc), lift(c.offsets)
                    of.start((el,), O)
                    if i is not None and loop.started:
                        of.step_at((el,), O, loop.i)
                    none = x == loop.entry[loc]
                    return z3.And(of.at((el,), O, i) == z3.If(
                        none, O, pset(O, T, fld(P_, "partition_id", el), int_of(x) + more)),
                        z3.Or(none, z3.And(int_of(x) >= 1 - more, x == mk_int(int_of(x)), x != core.NONE)))
                out.append((("pending", loc, more), f))
        return out
    ghost(folds=[dl, of, DL, OF], rels=frels + [pending, aliased(c, of), aliased(c, OF)], step_hooks=fhooks)
    res = call(c.handle_fetch_response, r)
    if not ok("C14.no-exception: a response never makes the handler raise", res, "handle_fetch_response"):
        return
    prove("C13.deliver: the result is, in order, every value that deserializes of the partitions without error",
          eqv(res[1], DL.total((), vlist_empty())))
    prove("C13.move: positions become one past each delivered message's offset, nothing else changes",
          eqv(c.offsets, OF.total((), O0)))
    prove("C14.heal: a refresh is called for exactly if a partition had a documented retriable code",
          truth(c.heal_cluster) == z3.Or(h0, HE.whole()))
    prove("C14.redetermine: the topic is determined again exactly if an offset was out of range",
          eqv(c.synced_offsets, z3.If(SY.whole(), core.vset_del(S0, T), S0)))
    e.cover("C14.handler returns")


def by_leader(e, ids, leader):
    """Ghost: leader -> the given partitions it leads, in order."""
    over = over_seq(ids)
    G = GhostFold("by_leader", over, vdict_empty(), lambda: ids)
    G.pstep = lambda D, p: ext_list(D, leader(p), mk_list(z3.Unit(p)))
    return over, G


def grouping_rels(over, G, leader, mk, only=None, parts=None):
    """Relations for the loops that group partitions by leader and make one request each
    (or, of the groups that only() holds for).  parts: what is asked of a group's
    partitions and the request of that, where the groups may be of such."""
    def nonempty(D, w):
        return z3.Implies(vdict_has(D, w), z3.Length(seq_of(vdict_get(D, w))) > 0)

    def cur(loop):
        return [leader(elem_of(loop))]

    def f_groups(D, i, w, loop):
        g = G.at((), G.init, i)
        return z3.And(vdict_has(D, w) == vdict_has(g, w), nonempty(g, w),
                      z3.Implies(vdict_has(D, w), vdict_get(D, w) == vdict_get(g, w)))

    def f_requests(D, i, w, loop):
        g = G.at((), G.init, i)
        return z3.And(vdict_has(D, w) == vdict_has(g, w), nonempty(g, w),
                      z3.Implies(vdict_has(D, w), vdict_get(D, w) == mk(vdict_get(g, w))))

    r1 = dict_rel(over, f_groups, ("groups", G.name), cur)
    r2 = dict_rel(over, f_requests, ("requests", G.name), cur)
    r3 = dict_rel(over_any_dict, lambda D, i, w, loop: z3.And(
        vdict_has(D, w) == (z3.Select(loop.spec.vis(i), w) if only is None else
                            z3.And(z3.Select(loop.spec.vis(i), w), only(w))),
        z3.Implies(vdict_has(D, w), vdict_get(D, w) == mk(vdict_get(loop.spec.base, w)))),
        ("requests of groups", only is None), lambda loop: [elem_of(loop)])
    if parts is None:
        return [r1, r2, r3]
    part, whole = parts

    def f_parts(D, i, w, loop):
        g = G.at((), G.init, i)
        return z3.And(vdict_has(D, w) == vdict_has(g, w), nonempty(g, w),
                      z3.Implies(vdict_has(D, w), vdict_get(D, w) == part(vdict_get(g, w))))
    r4 = dict_rel(over, f_parts, ("parts", G.name), cur)
    r5 = dict_rel(over_any_dict, lambda D, i, w, loop: z3.And(
        vdict_has(D, w) == z3.Select(loop.spec.vis(i), w),
        z3.Implies(vdict_has(D, w), vdict_get(D, w) == whole(vdict_get(loop.spec.base, w)))),
        "requests of parts", lambda loop: [elem_of(loop)])
    return [r1, r2, r3, r4, r5]


def lost_groups(name, G, NL, leader, connected, typed=None):
    """Lemma, by induction over the partitions: one of them has no connected leader exactly if there is
    a group of such; relations and exit hook with which a loop over the groups uses it."""
    e = core.E
    w = z3.Const("lemma_w", V)

    def some(g, nl, x):
        return z3.Implies(nl, z3.And(vdict_has(g, x), z3.Not(connected(x))))

    def only(g, nl, k):
        return z3.Implies(z3.And(vdict_has(g, k), z3.Not(connected(k))), nl)

    def lemma():
        g, b, x, p = fresh_term("lemma_g"), e.fresh(B, "lemma_b"), fresh_term("lemma_x"), fresh_term("lemma_p")
        g1, b1 = G.pstep(g, p), bool_of(NL.g.pstep(mk_bool(b), p))
        x1 = z3.If(connected(leader(p)), x, leader(p))
        prove(name, z3.And(some(vdict_empty(), z3.BoolVal(False), x), only(vdict_empty(), z3.BoolVal(False), w)))
        sane = leader(p) != NONE if typed is None else typed(p)
        prove(name, z3.Implies(z3.And(sane, some(g, b, x)), some(g1, b1, x1)))
        prove(name, z3.Implies(z3.And(sane, only(g, b, w)), only(g1, b1, w)))
    lemma()
    u = fresh_term("lost_group")

    def use():
        e.add(some(G.whole(), NL.whole(), u))
        e.facts.append(([w], only(G.whole(), NL.whole(), w)))

    def groups(loop):
        if over_any_dict(loop) is None:
            return []

        def here(L):
            return [(elem_of(L),)]

        def vis(i, w):
            return z3.Select(loop.spec.vis(i), w)
        out = [(("all connected",), lambda i, w: z3.Implies(vis(i, w), connected(w)), 1, here)]
        for loc, ty in loop.info.mods.items():
            if ty is None or ty.k != "bool" or loc not in loop.entry:
                continue

            def says(i, w, loc=loc):
                x, o = loop.term(loc), bool_of(loop.entry[loc])
                return None if x is None else z3.And(
                    z3.Implies(bool_of(x), z3.Or(o, NL.whole())), z3.Implies(o, bool_of(x)),
                    z3.Implies(z3.And(vis(i, w), z3.Not(connected(w))), bool_of(x)))
            out.append((("lost says", loc), says, 1, here))
        return out

    def left(loop):
        if over_any_dict(loop) is not None:
            loops.instantiate(u)
    return use, groups, left


def over_any_dict(loop):
    return () if loop.spec is not None and loop.spec.kind == "dict" else None


TPARTS = TDict(TAny, TList(TInt), factory=list_factory)
TCONNS = TDict(TInt, TAny)
TLEAD = TDict(TAny, TDict(TAny, TInt), factory=dict_factory)


def consume_case(n, text, first, known):
    def u(e):
        consume(e, first, known)
    u.__name__ = u.__qualname__ = n
    u.__doc__ = "consume of a topic %s, for every topic, allocation, leader view, position table and answer; " \
        "callees by contract." % text
    u.__module__ = __name__
    return unit("C12", "C13", "C15", "C16", variants=2, functions=["kiel.clients.consumer.BaseConsumer.consume"])(u)


consume_known = consume_case("consume_known", "whose positions are known, allocated", False, True)
consume_lost = consume_case("consume_lost", "whose positions are known, not allocated", False, False)
consume_first = consume_case("consume_first", "whose positions are not known, allocated", True, True)
consume_new = consume_case("consume_new", "whose positions are not known, not allocated", True, False)


def consume(e, first, known):
    base = need(M("kiel.clients.consumer"), "BaseConsumer").BaseConsumer
    g = {}
    K = type("K", (base,), {"allocation": property(lambda self: g["alloc"])})
    MW, MB, MX = fresh_int("max_wait"), fresh_int("min_bytes"), fresh_int("max_bytes")
    e.assume(MX.t >= 0)
    c = consumer(K, max_wait_time=MW, min_bytes=MB, max_bytes=MX)
    O0, S0, h0 = state(c)
    T = fresh("topic")
    start = fresh("start")
    closing = e.fresh(B, "closing")
    c.closing = SBool(closing)
    F = M("kiel.protocol.fetch")
    for k in (F.PartitionRequest, F.TopicRequest, F.FetchRequest):
        part_type(k)
    cid = fixed_correlation()
    NoOff = M("kiel.exc").NoOffsetsError
    g["t"] = fresh_term("alloc")
    g["alloc"] = wrap(g["t"], TDict(TAny, TList(TInt)))
    L0 = fresh_term("leaders")
    put(c.cluster, leaders=wrap(L0, TLEAD), conns=wrap(fresh_term("conns"), TCONNS))
    ev = []
    g["h"] = h0
    e.assume(core.vset_has(S0, T.v) != first)

    def reallocate():
        """A rebalance, or new metadata."""
        g["t"] = fresh_term("alloc")
        g["alloc"] = wrap(g["t"], TDict(TAny, TList(TInt)))

    # --- callees by contract
    def determine(topic, st=None):
        ev.append("determine")
        prove("C15.start: determining positions is asked for this topic and start point",
              z3.And(eqv(topic, T), eqv(st, start)))
        prove("C16.marked: the topic is marked before its positions are asked for, so that a rebalance unmarks it",
              eqv(c.synced_offsets, core.vset_add(S0, T.v)))
        k = e.choose(3)
        if k == 1:
            raise NoOff()
        if k == 2:
            raise RuntimeError("unexpected")
        disturb(c, "offsets", TPOS)
        reallocate()
        e.assume(allocated() == known)
        g["h"] = e.fresh(B, "heal1")
        c.heal_cluster = SBool(g["h"])
        g["syn"] = fresh_term("synced")
        set_synced(c, g["syn"])

    def heal(*a):
        ev.append("heal")
        reallocate()
        put(c.cluster, leaders=wrap(fresh_term("leaders"), TLEAD), conns=wrap(fresh_term("conns"), TCONNS))

    def allocated():
        a = g["t"]
        return z3.And(vdict_has(a, T.v), z3.Length(seq_of(vdict_get(a, T.v))) > 0)

    if not first:
        e.assume(allocated() == known)
    RES = fresh_term("results")

    def send(reqs):
        ev.append("send")
        R, w = lift(reqs), z3.Const("w0", V)
        gw = G.whole()
        if e.variant:
            e.add(pick(gw, A_.whole(), w))
            use()
            loops.instantiate(w)
        prove("C12.exact: each leader of an allocated partition, and no other broker, is sent its one request",
              z3.And(vdict_has(R, w) == vdict_has(gw, w),
                     z3.Implies(vdict_has(R, w), vdict_get(R, w) == mk(vdict_get(gw, w)))))
        prove("C12.refresh: a refresh is called for exactly if an allocated partition has no connected leader",
              truth(c.heal_cluster) == z3.Or(g["h"], NL.whole()))
        e.cover("C12.fetches")
        g["syn"] = fresh_term("synced")
        set_synced(c, g["syn"])
        return wrap(RES, TDict(TInt, TList(TAny)))

    S = Returns(send)
    D, H = Returns(determine), Returns(heal)
    put(c, send=S, determine_offsets=D)
    put(c.cluster, heal=H)

    # --- what the requests must be
    def leader(p):
        return vdict_get(vdict_get(lift(c.cluster.leaders), T.v), p)

    def led(p):
        """It has a known leader, to which there is a connection."""
        L = lift(c.cluster.leaders)
        return z3.And(vdict_has(L, T.v), vdict_has(vdict_get(L, T.v), p), vdict_has(lift(c.cluster.conns), leader(p)))

    def ids():
        return seq_of(vdict_get(g["t"], T.v))

    def over(loop):
        return over_seq(ids())(loop)

    G = GhostFold("by_leader", over, vdict_empty(), ids)
    G.pstep = lambda Dd, p: z3.If(led(p), ext_list(Dd, leader(p), mk_list(z3.Unit(p))), Dd)
    NL = Flag("unled", over, ids, lambda p: z3.Not(led(p)))
    frels, fhooks = flags(NL)

    # the same, should the partitions be grouped before looking at the connections
    def anyway(p):
        L = lift(c.cluster.leaders)
        return z3.If(z3.And(vdict_has(L, T.v), vdict_has(vdict_get(L, T.v), p)), leader(p), NONE)

    def typed(p):
        return leader(p) != NONE            # leaders are numbers

    def connected(k):
        return z3.And(k != NONE, vdict_has(lift(c.cluster.conns), k))
    A_ = GhostFold("by_leader_if_any", over, vdict_empty(), ids)
    A_.pstep = lambda Dd, p: ext_list(Dd, anyway(p), mk_list(z3.Unit(p)))
    use, groups, left = lost_groups("C12.lemma: a partition without connected leader is one of a group of such",
                                    A_, NL, anyway, connected, typed) if e.variant else [None] * 3

    def pick(g, a, w):
        return z3.And(vdict_has(g, w) == z3.And(vdict_has(a, w), connected(w)),
                      z3.Implies(vdict_has(g, w), vdict_get(g, w) == vdict_get(a, w)))

    def picked():
        g, a, p, w = fresh_term("lemma_g"), fresh_term("lemma_a"), fresh_term("lemma_p"), z3.Const("w0", V)
        name = "C12.lemma: the groups of connected leaders are those of all leaders that are connected"
        prove(name, pick(vdict_empty(), vdict_empty(), w))
        prove(name, z3.Implies(z3.And(typed(p), pick(g, a, w)), pick(G.pstep(g, p), A_.pstep(a, p), w)))
    if e.variant:
        picked()

    def preq(Ls, p):
        return mkrec(F.PartitionRequest, partition_id=p, offset=tget(tget(lift(c.offsets), T.v), p),
                     max_bytes=mk_int(values.fdiv(MX.t, z3.Length(seq_of(Ls)))))

    def owner(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq" or over(loop) is not None:
            return None
        x = sp.base
        if x.decl().name() == "mk_list" and x.arg(0).decl().name() == "seq_of":
            x = x.arg(0).arg(0)
        return (x,)

    PR = Fold("partition_requests", owner, None, kinds=("list",), seq=seq_of)
    PR.pstep = lambda Ls, A, p: core.vlist_append(A, preq(Ls, p))

    def mk(Ls):
        tr = mkrec(F.TopicRequest, name=T.v, partitions=PR.total((Ls,), vlist_empty()))
        return mkreq(F.FetchRequest, cid, replica_id=mk_int(-1), max_wait_time=lift(MW), min_bytes=lift(MB),
                     topics=mk_list(z3.Unit(tr)))

    # --- what is delivered
    FL = Fold("truthy", lambda loop: owner(loop) if ev and ev[-1] == "send" else None, None, kinds=("list",),
              seq=seq_of)
    FL.pstep = lambda Ls, A, m: z3.If(core.truthy_f(m), core.vlist_append(A, m), A)
    resdom = ddom(RES)
    FA = Fold("flatten", lambda loop: over_dict(resdom)(loop) if ev and ev[-1] == "send" else None, None,
              kinds=("list",), seq=lambda: loops.keyseq(resdom))
    FA.pstep = lambda A, k: FL.total((vdict_get(RES, k),), A)
    prove("C13.lemma: what is delivered of one response does not depend on the others",
          FL.only_appends(fresh_term("lemma_l")))

    def all_first(loop):
        """All messages are put together before the empty ones are left out."""
        if not ev or ev[-1] != "send" or over_dict(resdom)(loop) is None:
            return []
        out, heads = [], {}
        for loc, ty in loop.info.mods.items():
            if ty is None or ty.k != "list" or loc not in loop.entry:
                continue

            def f(i, loc=loc):
                x = loop.term(loc)
                if x is None:
                    return None
                if loc in heads:
                    FA.step_at((), vlist_empty(), loop.i)
                    FL.joined(heads[loc], vdict_get(RES, elem_of(loop)), vlist_empty())
                FA.start((), vlist_empty())
                FL.start((vlist_empty(),), vlist_empty())
                return FL.total((x,), vlist_empty()) == FA.at((), vlist_empty(), i)

            def remember(loop, loc=loc):
                heads[loc] = loop.term(loc)
                return []
            out.append((("all first", loc), f, 0, remember))
        return out

    def hook(loop):
        if over(loop) is not None:
            G.hook(loop)
            if e.variant:
                A_.hook(loop)
                use()

    def left_(loop):
        if e.variant and not S.calls:
            use()
            left(loop)
    def unknown(loop):
        """A topic of which no leader is known has no groups."""
        if over(loop) is None:
            return []
        return [(("no leaders", x.name), lambda i, x=x: z3.Implies(
            z3.Not(vdict_has(lift(c.cluster.leaders), T.v)), x.at((), x.init, i) == vdict_empty())) for x in (G,)]
    ghost(folds=[PR, FL, FA], rels=grouping_rels(over, G, leader, mk) + frels + [all_first, unknown] +
          (grouping_rels(over, A_, anyway, mk, connected) + [groups] if e.variant else []),
          step_hooks=[hook] + fhooks, loop_exits=[left_],
          key_witnesses=[z3.Const("w0", V)])
    res = call(c.consume, T, start)
    if e.valid(closing):
        prove("C12.closing: a closing consumer does nothing", not ev and res == ("ok", None))
        return
    synced0 = core.vset_has(S0, T.v)
    prove("C12.closing: a closing consumer does nothing", z3.Not(closing))
    prove("C15.determined: positions are determined exactly once for a topic that is not synced, else not at all",
          z3.And(len(D.calls) == 1, z3.Not(synced0)) if D.calls else synced0)
    prove("C15.order: positions are determined first", "determine" not in ev[1:])
    if res[0] == "exc":
        prove("C12.no-exception: consume raises only what determining positions raised",
              bool(D.calls) and type(res[1]) is RuntimeError)
        prove("C15.again: after a failure the topic is determined again",
              z3.Not(core.vset_has(lift(c.synced_offsets), T.v)))
        return
    if res[0] != "ok":
        return ok("C12.completes: consume always completes", res, "consume") and None
    prove("C12.once: at most one refresh and one round of requests", H.calls.__len__() <= 1 and len(S.calls) <= 1)
    if not S.calls:
        prove("C12.empty: without a request the result is the empty list", eqv(res[1], vlist_empty()))
        if ev == ["determine"]:
            prove("C15.again: after a failure the topic is determined again",
                  z3.Not(core.vset_has(lift(c.synced_offsets), T.v)))
        else:
            prove("C14.kept: what a response or rebalance unmarked stays unmarked",
                  eqv(c.synced_offsets, g.get("syn", S0)))
            prove("C12.skip: no request only if nothing is allocated after a refresh",
                  z3.And(z3.Not(allocated()), len(H.calls) == 1))
        return
    prove("C14.kept: what a response or rebalance unmarked stays unmarked", eqv(c.synced_offsets, g["syn"]))
    prove("C12.allocated: requests only for an allocated topic", allocated())
    prove("C13.flatten: consume returns every truthy delivered value, in order, nothing else",
          eqv(res[1], FA.total((), vlist_empty())))
    e.cover("C13.consume returns")


# ---------------------------------------------------------------- single.py
class DT:
    """Any datetime / timedelta, seen through its exact duration in µs."""

    def __init__(self, cls, us):
        self._cls, self.us = cls, us

    def _kv_isinstance(self, c):
        return issubclass(self._cls, c if isinstance(c, tuple) else (c,))

    def __sub__(self, o):
        import datetime
        if self._cls is datetime.datetime and isinstance(o, datetime.datetime) and o == datetime.datetime(1970, 1, 1):
            return DT(datetime.timedelta, self.us)
        return NotImplemented

    def total_seconds(self):
        return values.SRatio.mk(self.us, z3.IntVal(10 ** 6))


def trunc(us):
    """Whole seconds towards zero of a microsecond count."""
    return z3.If(us >= 0, us / 1000000, -((-us) / 1000000))


@unit("C15", functions=["kiel.clients.single.start_to_timestamp"])
def start_to_timestamp(e):
    """start_to_timestamp, for every start value and every moment."""
    import datetime
    f = need(M("kiel.clients.single"), "start_to_timestamp").start_to_timestamp
    us, now = fresh_int("us"), fresh_int("now")
    gm = object()

    def timegm(x):
        prove("C15.now: the timedelta is counted back from the current time in UTC", x is gm)
        return now
    ghost(**{"time.gmtime": lambda *a: gm, "calendar.timegm": timegm, "time.time": lambda *a: now})
    k = e.choose(3)
    if k == 0:
        x = fresh_int("start")
        r = call(f, x)
        if ok("C15.plain: special values are passed on", r, "start_to_timestamp"):
            prove("C15.plain: special values are passed on", eqv(r[1], x))
    elif k == 1:
        r = call(f, DT(datetime.datetime, us.t))
        if ok("C15.datetime: a datetime asks for its whole epoch second", r, "start_to_timestamp"):
            prove("C15.datetime: a datetime asks for its whole epoch second", lift(r[1]) == mk_int(trunc(us.t)))
    else:
        r = call(f, DT(datetime.timedelta, us.t))
        if ok("C15.timedelta: a timedelta asks for that long before now", r, "start_to_timestamp"):
            prove("C15.timedelta: a timedelta asks for that long before now",
                  lift(r[1]) == mk_int(trunc(now.t * 1000000 - us.t)))


def single(**kw):
    m = need(M("kiel.clients.single"), "SingleConsumer")
    return consumer(m.SingleConsumer, **kw)


@unit("C15", functions=["kiel.clients.single.SingleConsumer.determine_offsets",
                        "kiel.clients.single.SingleConsumer.allocation"])
def single_determine(e):
    """SingleConsumer.determine_offsets, for every metadata view and start point."""
    c = single()
    O0, S0, h0 = state(c)
    T = fresh("topic")
    F = M("kiel.protocol.offset")
    for k in (F.PartitionRequest, F.TopicRequest, F.OffsetRequest):
        part_type(k)
    cid = fixed_correlation()
    t0, L0, C0 = fresh_term("topics"), fresh_term("leaders"), fresh_term("conns")
    put(c.cluster, leaders=wrap(L0, TLEAD), topics=wrap(t0, TDict(TAny, TList(TInt))), conns=wrap(C0, TCONNS))
    NoOff = M("kiel.exc").NoOffsetsError
    e.add(vdict_has(t0, T.v))
    ids = seq_of(vdict_get(t0, T.v))
    when = fresh_int("when")
    start = None if e.choose(2) else fresh("start")
    if start is not None:
        e.add(start.v != NONE)
    mod = M("kiel.clients.single")
    conv = Returns(lambda s: when, coroutine=False)
    mod.start_to_timestamp = conv

    def leader(p):
        return vdict_get(vdict_get(L0, T.v), p)
    over, G = by_leader(e, ids, leader)
    unled = lambda p: z3.Not(vdict_has(C0, leader(p)))
    NL = Flag("unled", over, lambda: ids, unled)
    at = []

    def allled(loop):
        """A loop over the partitions goes on only while their leaders are connected."""
        if over(loop) is None:
            return []
        return [(("all led",), lambda i: z3.Not(NL.so_far(loop, i)))]
    frels, fhooks = flags(NL)
    use, groups, left = lost_groups("C15.lemma: a leader without connection is one whose group has none",
                                    G, NL, leader, lambda k: vdict_has(C0, k))

    def owner(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq" or over(loop) is not None:
            return None
        x = sp.base
        if x.decl().name() == "mk_list" and x.arg(0).decl().name() == "seq_of":
            x = x.arg(0).arg(0)
        return (x,)
    PR = Fold("asked_partitions", owner, None, kinds=("list",), seq=seq_of)
    PR.pstep = lambda Ls, A, p: core.vlist_append(A, mkrec(
        F.PartitionRequest, partition_id=p, time=mk_int(when.t), max_offsets=mk_int(1)))
    snoc = fold_snoc("C15.lemma: asking for one more partition adds it to the others", PR, vlist_empty())

    def part(Ls):
        return PR.total((Ls,), vlist_empty())

    def whole(parts):
        return mkreq(F.OffsetRequest, cid, replica_id=mk_int(-1), topics=mk_list(z3.Unit(
            mkrec(F.TopicRequest, name=T.v, partitions=parts))))

    def mk(Ls):
        return whole(part(Ls))

    def same(D, g, w):
        return z3.And(vdict_has(D, w) == vdict_has(g, w),
                      z3.Implies(vdict_has(D, w), vdict_get(D, w) == mk(vdict_get(g, w))))

    def send(reqs):
        prove("C15.led: they are asked only if all leaders are connected", z3.Not(NL.whole()))
        prove("C15.ask: each leader, and no other broker, is asked once for one offset of each partition it leads",
              same(lift(reqs), G.whole(), z3.Const("w0", V)))
        e.cover("C15.asks")
        return wrap(fresh_term("results"), TDict(TInt, TAny))
    S = Returns(send)
    put(c, send=S)

    def hook(loop):
        if over(loop) is not None:
            G.hook(loop)
            p = elem_of(loop)
            at[:] = [p]
            e.add(vdict_has(L0, T.v), vdict_has(vdict_get(L0, T.v), p))
            snoc(get_or(G.at((), G.init, loop.i), leader(p), vlist_empty()), p)
    ghost(folds=[PR], rels=grouping_rels(over, G, leader, mk, parts=(part, whole)) + frels + [allled, groups], step_hooks=[hook] + fhooks,
          loop_exits=[left],
          key_witnesses=[z3.Const("w0", V)])
    use()
    res = call(c.determine_offsets, T, start) if start is not None else call(c.determine_offsets, T)
    if res[0] == "exc":
        prove("C15.unled: only without a connection to a leader it ends with the no-offsets error, nothing asked",
              z3.And(type(res[1]) is NoOff, z3.Or(NL.whole(), *[unled(p) for p in at]), len(S.calls) == 0))
        e.cover("C15.unled")
        return
    if not ok("C15.determine: asking for positions does not raise", res, "determine_offsets"):
        return
    prove("C15.once: the leaders are asked exactly once", len(S.calls) == 1)
    prove("C15.from: the start point is translated, the end if there is none",
          len(conv.calls) == 1 and eqv(conv.calls[0][0][0], mk_int(-1) if start is None else start.v))
    prove("C15.frame: nothing else changes",
          z3.And(eqv(c.offsets, O0), eqv(c.synced_offsets, S0), eqv(c.heal_cluster, mk_bool(h0))))


@unit("C15", functions=["kiel.clients.single.SingleConsumer.handle_offset_response"])
def offset_response(e):
    """handle_offset_response, for every one-topic response and every state."""
    c = single()
    O0, S0, h0 = state(c)
    r, tr, T, parts = one_topic("offset", "OffsetResponse")
    P_ = "offset.PartitionResponse"
    NoOff = M("kiel.exc").NoOffsetsError

    def code(el):
        return fint(P_, "error_code", el)

    def offs(el):
        return seq_of(fld(P_, "offsets", el))

    def first(el):
        return int_of(core.nth(offs(el), 0))

    def fatal(el):
        return z3.And(code(el) != 0, z3.Not(retriable(code(el))))
    over = over_seq(parts)
    OF = Fold("start_at", over, None, kinds=("dict",), seq=lambda: parts)
    OF.pstep = lambda O, el: z3.If(z3.And(code(el) == 0, z3.Length(offs(el)) > 0, first(el) >= 0),
                                   pset(O, T, fld(P_, "partition_id", el), first(el)), O)
    HE = Flag("heal", over, lambda: parts, lambda el: retriable(code(el)))
    SY = Flag("again", over, lambda: parts, lambda el: retriable(code(el)), drop=T)
    frels, fhooks = flags(HE, SY)
    FT = GhostFold("fatal", over, mk_bool(False), lambda: parts)
    FT.pstep = lambda b, el: mk_bool(z3.Or(bool_of(b), fatal(el)))

    def nofatal(loop):
        if over(loop) is None:
            return []
        return [(("nofatal",), lambda i: z3.Not(bool_of(FT.at((), FT.init, i))))]

    at = []

    def hook(loop):
        if over(loop) is not None:
            FT.hook(loop)
            at[:] = [loop.i]
    ghost(folds=[OF], rels=[nofatal, aliased(c, OF)] + frels, step_hooks=[hook] + fhooks)
    res = call(c.handle_offset_response, r)
    if res[0] == "exc":
        prove("C15.fatal: only a code that is neither success nor retriable ends it, with the no-offsets error",
              z3.And(type(res[1]) is NoOff, fatal(core.nth(parts, at[0]))) if at else False)
        prove("C15.before: an error does not hide the offsets reported before it",
              eqv(c.offsets, OF.at((), O0, at[0])) if at else False)
        e.cover("C15.fatal code")
        return
    if not ok("C15.no-exception", res, "handle_offset_response"):
        return
    prove("C15.all: it ends normally only if no partition had a fatal code", z3.Not(bool_of(FT.whole())))
    prove("C15.first: positions become the first offset returned where it is non-negative, nothing else changes",
          eqv(c.offsets, OF.total((), O0)))
    prove("C15.heal: a refresh is called for exactly if a code was retriable",
          truth(c.heal_cluster) == z3.Or(h0, HE.whole()))
    prove("C15.again: the topic is determined again exactly if a code was retriable",
          eqv(c.synced_offsets, z3.If(SY.whole(), core.vset_del(S0, T), S0)))
    e.cover("C15.handler returns")


@unit("C13", functions=["kiel.clients.consumer.BaseConsumer.__init__"])
def default_deserializer(e):
    """What a consumer does with values when nothing else is configured."""
    from .producer import json_loads, json_value
    ghost(**{"json.loads": json_loads})
    c = need(M("kiel.clients.single"), "SingleConsumer").SingleConsumer(SList.of(["b:1"]))
    x = fresh("text")
    res = call(need(c, "deserializer").deserializer, x)
    if ok("C13.deserializes: by default every JSON text is deserialized", res, "deserializer"):
        prove("C13.json: by default a value is what its JSON text says", lift(res[1]) == json_value(x.v))
        e.cover("C13.default")
