"""Contracts of kiel/clients/grouped.py."""
from .base import *
from kv import ropes
from .consumer import TPOS, tget, pset, state, consumer, one_topic, set_synced, rebalance_reaches, deserializer, aliased

TALLOC = TDict(TAny, TList(TInt))
TCONNS = TDict(TInt, TAny)


def grouped(**kw):
    m = need(M("kiel.clients.grouped"), "GroupedConsumer")
    c = m.GroupedConsumer(SList.of(["b:1"]), fresh("group"), SList.of(["z:1"]), deserializer=None, **kw)
    need(c, "allocator", "coordinator_id", "topics_to_commit", "autocommit", "group_name", "offsets",
         "synced_offsets", "cluster", "heal_cluster")
    return c


def gstate(c):
    """Any group state: allocation, coordinator, connections, topics to commit."""
    g = {"alloc": fresh_term("alloc"), "conns": fresh_term("conns"), "tc": fresh_term("to_commit"),
         "coord": fresh_int("coordinator")}
    c.allocator.mapping = SDict.of([(c.allocator.consumer_name, wrap(g["alloc"], TALLOC))])
    c.cluster.conns = wrap(g["conns"], TCONNS)
    c.topics_to_commit = wrap(g["tc"], TSet(TAny))
    c.coordinator_id = g["coord"]
    return g


def linked(c):
    """A rebalance must reach the set the consumer looks at (C16, C22)."""
    f = c.allocator.on_rebalance
    return getattr(f, "__self__", None)


@unit("C16", "C22", functions=["kiel.clients.grouped.GroupedConsumer.handle_offset_fetch_response"])
def offset_fetch_response(e):
    """handle_offset_fetch_response, for every one-topic response and every state."""
    c = grouped()
    obj = linked(c)
    O0, S0, h0 = state(c)
    if e.choose(2):
        none = response("offset_fetch", "OffsetFetchResponse")
        e.assume(z3.Length(seq_of(fld("offset_fetch.OffsetFetchResponse", "topics", lift(none)))) == 0)
        res = call(c.handle_offset_fetch_response, none)
        if ok("C16.nothing: the answer to a request without partitions names no topic and raises nothing", res,
              "handle_offset_fetch_response"):
            prove("C16.nothing: it changes nothing and needs no repetition", z3.And(
                z3.Not(truth(res[1])), eqv(c.offsets, O0), eqv(c.synced_offsets, S0),
                truth(c.heal_cluster) == h0))
        return
    r, tr, T, parts = one_topic("offset_fetch", "OffsetFetchResponse")
    P_ = "offset_fetch.PartitionResponse"
    NoOff = M("kiel.exc").NoOffsetsError

    def code(el):
        return fint(P_, "error_code", el)

    def fatal(el):
        return z3.And(code(el) != 0, z3.Not(retriable(code(el))))
    over = over_seq(parts)
    OF = Fold("resume_at", over, None, kinds=("dict",), seq=lambda: parts)
    OF.pstep = lambda O, el: z3.If(code(el) == 0, pset(
        O, T, fld(P_, "partition_id", el), fint(P_, "offset", el)), O)
    HE = Flag("heal", over, lambda: parts, lambda el: z3.And(retriable(code(el)), code(el) != 14))
    RE = Flag("retry", over, lambda: parts, lambda el: retriable(code(el)))
    frels, fhooks = flags(HE, RE)
    FT = GhostFold("fatal", over, mk_bool(False), lambda: parts)
    FT.pstep = lambda b, el: mk_bool(z3.Or(bool_of(b), fatal(el)))

    def nofatal(loop):
        return [] if over(loop) is None else [(("nofatal",), lambda i: z3.Not(bool_of(FT.at((), FT.init, i))))]
    at = []

    def hook(loop):
        if over(loop) is not None:
            FT.hook(loop)
            at[:] = [loop.i]
    ghost(folds=[OF], rels=[nofatal, aliased(c, OF)] + frels, step_hooks=[hook] + fhooks)
    res = call(c.handle_offset_fetch_response, r)
    if res[0] == "exc":
        prove("C16.fatal: only a code that is neither success nor retriable ends it, with the no-offsets error",
              z3.And(type(res[1]) is NoOff, fatal(core.nth(parts, at[0]))) if at else False)
        prove("C16.before: an error does not hide the offsets reported before it",
              eqv(c.offsets, OF.at((), O0, at[0])) if at else False)
        e.cover("C16.fatal code")
        return
    if not ok("C16.no-exception", res, "handle_offset_fetch_response"):
        return
    prove("C16.all: it ends normally only if no partition had a fatal code", z3.Not(bool_of(FT.whole())))
    prove("C16.resume: positions become exactly the offsets reported without error, nothing else changes",
          eqv(c.offsets, OF.total((), O0)))
    prove("C16.repeat: the answer is to repeat the request exactly if a code was retriable or a load in progress",
          truth(res[1]) == RE.whole())
    prove("C16.heal: a refresh is called for exactly if a code was retriable and not a load in progress",
          truth(c.heal_cluster) == z3.Or(h0, HE.whole()))
    prove("C16.frame: the topic stays marked", eqv(c.synced_offsets, S0))
    e.cover("C16.handler returns")
    rebalance_reaches(c)


@unit("C16", "C17", "C22", functions=["kiel.clients.grouped.GroupedConsumer.determine_offsets",
                        "kiel.clients.grouped.GroupedConsumer.allocation"])
def group_determine(e):
    """GroupedConsumer.determine_offsets, for every allocation and every sequence of answers."""
    c = grouped()
    O0, S0, h0 = state(c)
    g = gstate(c)
    T = fresh("topic")
    F = M("kiel.protocol.offset_fetch")
    for k in (F.TopicRequest, F.OffsetFetchRequest):
        part_type(k)
    cid = fixed_correlation()
    NoOff = M("kiel.exc").NoOffsetsError
    a = g["alloc"]
    ids = z3.If(vdict_has(a, T.v), vdict_get(a, T.v), vlist_empty())
    want = mkreq(F.OffsetFetchRequest, cid, group_name=lift(c.group_name), topics=mk_list(z3.Unit(
        mkrec(F.TopicRequest, name=T.v, partitions=ids))))
    co = mk_int(g["coord"].t)
    c.kv_again = SBool(z3.BoolVal(True))         # ghost: what the last answer said

    def send(reqs):
        R, w = lift(reqs), z3.Const("w0", V)
        prove("C16.ask: only the coordinator is asked, for exactly the allocated partitions of the topic",
              z3.And(vdict_has(R, w) == (w == co), vdict_get(R, co) == want))
        prove("C16.connected: the coordinator is asked while there is a connection to it",
              vdict_has(lift(c.cluster.conns), co))
        prove("C16.repeat: the request is repeated only after an answer that says so", truth(c.kv_again))
        prove("C17.forgotten: positions asked for are not committed before the topic is consumed again, others are",
              eqv(c.topics_to_commit, core.vset_del(g["tc"], T.v)))
        disturb(c, "offsets", TPOS)
        disturb(c.cluster, "conns", TCONNS)
        e.cover("C16.asks")
        k = e.choose(3)
        if k == 2:
            c.kv_again = None
            raise NoOff()
        if k == 1:
            c.kv_again = None
            return SDict.of([])
        b = SBool(e.fresh(B, "repeat"))
        c.kv_again = b
        return SDict.of([(g["coord"], b)])
    put(c, send=Returns(send))
    ghost(rels=[same_bools(c, "kv_again")], key_witnesses=[z3.Const("w0", V)])
    res = call(c.determine_offsets, T, None)
    lost = z3.Not(vdict_has(lift(c.cluster.conns), co))
    if res[0] == "exc":
        prove("C16.lost: it fails, with the no-offsets error, only when the coordinator is lost or the answer was fatal",
              z3.And(type(res[1]) is NoOff, z3.BoolVal(True) if c.kv_again is None else lost))
        return
    if not ok("C16.determine: nothing else is raised", res, "determine_offsets"):
        return
    e.cover("C16.determined")
    prove("C16.until: it ends only after an answer that needs no repetition",
          False if c.kv_again is None else z3.Not(truth(c.kv_again)))
    prove("C16.frame: determining positions does not unmark or mark topics", eqv(c.synced_offsets, S0))
    rebalance_reaches(c)


@unit("C22", functions=["kiel.clients.consumer.BaseConsumer.consume", "kiel.clients.grouped.GroupedConsumer.__init__",
                        "kiel.clients.consumer.BaseConsumer.handle_fetch_response"])
def reaches(e):
    """A rebalance before or after any step of a grouped consumer makes all its positions unknown."""
    c = grouped()
    state(c)
    gstate(c)
    T = fresh("topic")
    k = e.choose(3)
    if k == 1:
        r, tr, T, parts = one_topic("fetch", "FetchResponse")
        c.deserializer = deserializer
        call(c.handle_fetch_response, r)
    elif k == 2:
        base = need(M("kiel.clients.consumer"), "BaseConsumer").BaseConsumer

        def determine(*a, **k):
            if e.choose(2):
                raise M("kiel.exc").NoOffsetsError()
            raise RuntimeError("unexpected")
        put(c, determine_offsets=Returns(determine))
        put(c.cluster, heal=Returns(lambda *a: None))
        c.allocator.mapping = SDict.of([(c.allocator.consumer_name, SDict.of([]))])
        call(lambda: base.consume(c, T))
    e.cover("C22.reaches")
    rebalance_reaches(c)


# ---------------------------------------------------------------- commits
CP, CT = "offset_commit.PartitionResponse", "offset_commit.TopicResponse"


@unit("C17", functions=["kiel.clients.grouped.GroupedConsumer.handle_offset_commit_response"])
def offset_commit_response(e):
    """handle_offset_commit_response, for every response and every set of topics to commit."""
    c = grouped()
    O0, S0, h0 = state(c)
    g = gstate(c)
    r = response("offset_commit", "OffsetCommitResponse")
    need(M("kiel.protocol.offset_commit"), "TopicResponse", "PartitionResponse")
    topics = seq_of(fld("offset_commit.OffsetCommitResponse", "topics", lift(r)))

    def code(el):
        return fint(CP, "error_code", el)

    def pseq(t):
        return seq_of(fld(CT, "partitions", t))
    inner, outer = over_field(CT, "partitions"), over_seq(topics)

    def both(name, pred, only=None):
        f = Flag(name, inner, pseq, lambda t, el: pred(code(el)))
        F = Flag(name + "_all", outer, lambda: topics, lambda t: f.whole(t))
        fl.extend([f, F])
        ls.extend([(f, pred, only), (F, pred, only)])
        return f, F
    fl, ls = [], []
    re, RE = both("retry", lambda k: z3.Or(retriable(k), k == 12))
    ad, AD = both("adjust", lambda k: k == 12, 12)
    he, HE = both("heal", retriable)
    no, _ = both("failed", lambda k: k != 0)
    TC = Fold("still_to_commit", outer, None, kinds=("set",), seq=lambda: topics)

    def tcstep(S, t):
        conf = z3.And(z3.Not(no.whole(t)), z3.Length(pseq(t)) > 0)
        return z3.If(conf, core.vset_del(S, fld(CT, "name", t)), S)
    TC.pstep = tcstep
    frels, fhooks = flags(*fl)
    lrels, lhooks = listed(ls)

    def either(loop):
        """To be repeated is to be healed or with other metadata."""
        return [(("either", a.g.name), lambda i, a=a, b=b, d=d: a.so_far(loop, i) == z3.Or(
            b.so_far(loop, i), d.so_far(loop, i))) for a, b, d in ((re, he, ad), (RE, HE, AD))
            if a.g.match(loop) is not None]
    lrels.append(either)
    ghost(folds=[TC], rels=frels + lrels, step_hooks=fhooks + lhooks)
    res = call(c.handle_offset_commit_response, r)
    if not ok("C17.no-exception: no response makes the handler raise", res, "handle_offset_commit_response"):
        return
    prove("C17.confirmed: a topic stops needing a commit exactly if all its partitions in the response are confirmed",
          eqv(c.topics_to_commit, TC.total((), g["tc"])))
    ra = res[1]
    if not isinstance(ra, tuple) or len(ra) != 2:
        raise Unsupported("the answer is not a pair")
    prove("C17.again: a commit is repeated exactly for retriable codes and metadata reported as too large",
          truth(ra[0]) == RE.whole())
    prove("C17.metadata: the metadata is emptied exactly if it was reported as too large",
          truth(ra[1]) == AD.whole())
    prove("C17.heal: a refresh is called for exactly if a code was retriable",
          truth(c.heal_cluster) == z3.Or(h0, HE.whole()))
    prove("C17.frame: positions and marks stay", z3.And(eqv(c.offsets, O0), eqv(c.synced_offsets, S0)))
    e.cover("C17.handler returns")


@unit("C17", functions=["kiel.clients.grouped.GroupedConsumer.commit_offsets"])
def commit(e):
    """commit_offsets, for every allocation, position table, set of topics and sequence of answers; a repetition
    by calling it again is by contract, one by a loop is by the ghost state of what is due."""
    c = grouped()
    state(c)
    g = gstate(c)
    F = M("kiel.protocol.offset_commit")
    for k in (F.PartitionRequest, F.TopicRequest, F.OffsetCommitV0Request):
        part_type(k)
    cid = fixed_correlation()
    co = mk_int(g["coord"].t)
    given = None if e.choose(2) else fresh("metadata")
    if given is not None:
        e.add(given.v != NONE)
    # the metadata of every partition is one value: what was given, or one of the consumer's making
    # (the text it makes is not part of the property; this is what it is today)
    put(c, name="me")
    # ghosts: a commit is due, with which metadata; what answers did to the topics that need one
    c.kv_due = SBool(z3.BoolVal(True))
    c.kv_meta = SVal(lift("committed by me") if given is None else given.v)
    c.kv_left = SVal(g["tc"])

    def now():
        """Metadata, allocation, topics to commit, topics with known positions and positions, at this moment."""
        return (lift(c.kv_meta), lift(c.allocation), lift(c.topics_to_commit), lift(c.synced_offsets), lift(c.offsets))

    def topic_of(loop):
        for l in reversed(e.loopstack):
            if l is not loop and l.sym and l.spec is not None and over_dict(ddom(lift(c.allocation)))(l) is not None:
                return elem_of(l)
        return None

    def owner(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq":
            return None
        x = sp.base
        if x.decl().name() == "mk_list" and x.arg(0).decl().name() == "seq_of":
            x = x.arg(0).arg(0)
        t = topic_of(loop)
        if x.decl().name() == "mk_list" or t is None:
            return None
        n = now()
        return (n[0], n[4], t, x)

    PR = Fold("positions_of", owner, None, kinds=("list",), seq=lambda m, O, t, L: seq_of(L))
    PR.pstep = lambda m, O, t, L, A, p: core.vlist_append(A, mkrec(
        F.PartitionRequest, partition_id=p, offset=tget(tget(O, t), p), metadata=m))
    TR = Fold("topics_of", lambda loop: None if over_dict(ddom(lift(c.allocation)))(loop) is None else now(), None,
              kinds=("list",), seq=lambda m, a, tc, S, O: loops.keyseq(ddom(a)))
    TR.pstep = lambda m, a, tc, S, O, A, t: z3.If(
        z3.And(core.vset_has(tc, t), core.vset_has(S, t)), core.vlist_append(A, mkrec(
            F.TopicRequest, name=t, partitions=PR.total((m, O, t, vdict_get(a, t)), vlist_empty()))), A)

    def send(reqs):
        R, w = lift(reqs), z3.Const("w0", V)
        want = mkreq(F.OffsetCommitV0Request, cid, group=lift(c.group_name), topics=TR.total(now(), vlist_empty()))
        prove("C17.exact: the coordinator, and no other broker, is sent the position of every allocated partition "
              "of each topic to commit whose positions are known, and nothing else",
              z3.And(vdict_has(R, w) == (w == co), vdict_get(R, co) == want))
        prove("C17.connected: the coordinator is asked while there is a connection to it",
              vdict_has(lift(c.cluster.conns), co))
        prove("C17.repeat: a commit is sent once, and again only after an answer that says so", truth(c.kv_due))
        prove("C17.frame: committing itself does not mark or unmark topics", eqv(c.topics_to_commit, c.kv_left))
        e.cover("C17.commits")
        # its handler, a rebalance and a refresh may all have been there when the answer is
        disturb(c, "offsets", TPOS)
        disturb(c, "topics_to_commit", TSet(TAny))
        c.kv_left = SVal(lift(c.topics_to_commit))
        set_synced(c, fresh_term("synced"))
        disturb(c.cluster, "conns", TCONNS)
        if e.choose(2):
            c.kv_due = SBool(z3.BoolVal(False))
            return SDict.of([])
        retry, adjust = e.fresh(B, "retry"), e.fresh(B, "adjust")
        c.kv_due = SBool(retry)
        c.kv_meta = SVal(z3.If(adjust, lift(""), lift(c.kv_meta)))
        return SDict.of([(g["coord"], (SBool(retry), SBool(adjust)))])

    def again(*args, **kw):
        md = args[0] if args else kw.get("metadata")
        prove("C17.repeat: the commit is repeated only if the answer says so", truth(c.kv_due))
        prove("C17.emptied: it is repeated with the same metadata, or empty metadata if that was too large",
              lift(md) == lift(c.kv_meta))
        c.kv_due = SBool(z3.BoolVal(False))
        e.cover("C17.repeats")

    def metas(loop):
        """What a loop that repeats the commit keeps: the metadata the next one has to carry."""
        out = [(("left",), lambda i: eqv(c.topics_to_commit, c.kv_left))]
        for loc, ty in loop.info.mods.items():
            if loc[0] == "local" and (ty is None or ty.k not in ("bool", "int", "list", "dict", "set", "rec")):
                def f(i, loc=loc):
                    t = loop.term(loc)
                    return None if t is None else t == lift(c.kv_meta)
                out.append((("metadata", loc), f))
        return out
    S = Returns(send)
    put(c, send=S)
    own = type(c).commit_offsets
    put(c, commit_offsets=Returns(again))
    ghost(folds=[PR, TR], rels=[same_bools(c, "kv_due"), metas], key_witnesses=[z3.Const("w0", V)])
    res = call(own, c, given) if given is not None else call(own, c)
    if not ok("C17.commit: committing raises nothing", res, "commit_offsets"):
        return
    prove("C17.frame: committing itself does not mark or unmark topics", eqv(c.topics_to_commit, c.kv_left))
    prove("C17.lost: a commit that is due is left to the next one only if there is no connection to the coordinator",
          z3.Implies(truth(c.kv_due), z3.Not(vdict_has(lift(c.cluster.conns), co))))


@unit("C17", "C16", "C13", "C22", functions=["kiel.clients.grouped.GroupedConsumer.consume"])
def group_consume(e):
    """GroupedConsumer.consume, for every outcome of the base consume (by contract)."""
    base = need(M("kiel.clients.consumer"), "BaseConsumer").BaseConsumer
    auto = e.fresh(B, "autocommit")
    c = grouped(autocommit=SBool(auto))
    O0, S0, h0 = state(c)
    g = gstate(c)
    T = fresh("topic")
    RES = fresh_term("result")
    out, ev = {}, []

    class Boom(Exception):
        pass

    def base_consume(self, topic, start=None):
        ev.append("consume")
        prove("C17.base: the fetch is asked for this topic", eqv(topic, T))
        if e.choose(2):
            out["raised"] = True
            raise Boom()
        out["syn"], out["tc"] = fresh_term("synced"), fresh_term("to_commit")
        set_synced(c, out["syn"])
        c.topics_to_commit = wrap(out["tc"], TSet(TAny))
        return wrap(RES, TList(TAny))

    def commit_offsets(*a, **k):
        ev.append("commit")
        prove("C17.marked: the topic needs a commit when the commit is made",
              eqv(c.topics_to_commit, core.vset_add(out["tc"], T.v)))
        out["tc2"] = fresh_term("to_commit")
        c.topics_to_commit = wrap(out["tc2"], TSet(TAny))
    bc = Returns(base_consume)
    e.repo.patch(base, "consume", lambda self, *a, **k: bc(self, *a, **k))
    co = Returns(commit_offsets)
    put(c, commit_offsets=co)
    res = call(c.consume, T)
    if "raised" in out:
        prove("C17.passed-on: what fetching raised is raised, and nothing is committed",
              res[0] == "exc" and type(res[1]) is Boom and ev == ["consume"])
        return
    if not ok("C17.no-exception", res, "consume"):
        return
    prove("C17.fetch-once: one fetch, before any commit", ev[:1] == ["consume"] and len(bc.calls) == 1)
    synced = core.vset_has(out["syn"], T.v)
    if e.valid(z3.Not(synced)):
        prove("C17.failed: a consume whose positions are unknown delivers and commits nothing",
              z3.And(len(co.calls) == 0, eqv(res[1], vlist_empty()), eqv(c.topics_to_commit, out["tc"])))
        return
    prove("C17.known: otherwise the positions are known", synced)
    prove("C13.passed-on: the messages fetched are delivered unchanged", eqv(res[1], RES))
    prove("C17.auto: a successful consume commits exactly once with autocommit on and not at all with it off",
          auto if len(co.calls) == 1 else z3.And(len(co.calls) == 0, z3.Not(auto)))
    if not co.calls:
        prove("C17.noted: without autocommit the topic is noted for the next commit",
              eqv(c.topics_to_commit, core.vset_add(out["tc"], T.v)))
    else:
        prove("C17.settled: what the commit settled stays settled", eqv(c.topics_to_commit, out["tc2"]))
    e.cover("C17.consume returns")
    rebalance_reaches(c)


# ---------------------------------------------------------------- coordinator
@unit("C18", functions=["kiel.clients.grouped.GroupedConsumer.handle_group_coordinator_response"])
def coordinator_response(e):
    """handle_group_coordinator_response, for every response."""
    c = grouped()
    O0, S0, h0 = state(c)
    g = gstate(c)
    R_ = "coordinator.GroupCoordinatorResponse"
    r = response("coordinator", "GroupCoordinatorResponse")
    code, who = fint(R_, "error_code", lift(r)), fld(R_, "coordinator_id", lift(r))
    res = call(c.handle_group_coordinator_response, r)
    if not ok("C18.no-exception", res, "handle_group_coordinator_response"):
        return
    co0 = mk_int(g["coord"].t)
    prove("C18.named: a broker that names a coordinator ends the search with exactly that broker id",
          z3.Implies(code == 0, z3.And(truth(res[1]), eqv(c.coordinator_id, who))))
    prove("C18.retriable: a retriable error continues the search, calls for a refresh and names nobody",
          z3.Implies(retriable(code), z3.And(z3.Not(truth(res[1])), eqv(c.heal_cluster, mk_bool(True)))))
    prove("C18.unnamed: without success the coordinator is unchanged",
          z3.Implies(code != 0, eqv(c.coordinator_id, co0)))
    prove("C18.heal: only a retriable error calls for a refresh",
          z3.Implies(z3.Not(retriable(code)), eqv(c.heal_cluster, mk_bool(h0))))
    e.cover("C18.handler returns")


@unit("C18", functions=["kiel.clients.grouped.GroupedConsumer.determine_coordinator",
                        "kiel.cluster.Cluster.__iter__", "kiel.cluster.Cluster.__contains__"])
def determine_coordinator(e):
    """determine_coordinator, for every set of brokers, changing with every answer, and every sequence of answers."""
    c = grouped()
    state(c)
    g = gstate(c)
    F = M("kiel.protocol.coordinator")
    part_type(F.GroupCoordinatorRequest)
    cid = fixed_correlation()
    NoBr = M("kiel.exc").NoBrokersError
    want = mkreq(F.GroupCoordinatorRequest, cid, group=lift(c.group_name))
    c.kv_done = SBool(z3.BoolVal(False))       # ghost: the last answer named a coordinator
    it = {}

    def asks(loop, learn=False):
        """Is it the loop the brokers are asked in?"""
        if loop.spec is None or loop.spec.kind not in ("seq", "dict"):
            return False
        loc = ("obj", e.born[id(c)], "kv_done")
        if learn and loc not in loop.info.mods:
            loop.info.mods[loc] = TBool
            loop.relearn()
        return loc in loop.info.mods

    def conns():
        return lift(c.cluster.conns)

    def send(reqs):
        R, w = lift(reqs), z3.Const("w0", V)
        for L in reversed(e.loopstack):
            if L.spec is not None:
                asks(L, learn=True)
                break
        b = it.get("b")
        if b is None:
            raise Unsupported("brokers are not asked in a loop over the brokers")
        it["n"] += 1
        prove("C18.ask: the next broker, and no other, is asked for this group",
              z3.And(vdict_has(R, w) == (w == b), vdict_get(R, b) == want))
        prove("C18.connected: a broker is asked while there is a connection to it", vdict_has(conns(), b))
        prove("C18.stop: nobody is asked once a coordinator is named", z3.Not(truth(c.kv_done)))
        prove("C18.one-by-one: each broker is asked once per round", it["n"] == 1)
        disturb(c.cluster, "conns", TCONNS)
        e.cover("C18.asks")
        if e.choose(2):
            c.kv_done = SBool(z3.BoolVal(False))
            return SDict.of([])
        d = SBool(e.fresh(B, "determined"))
        c.kv_done = d
        return SDict.of([(wrap(b, TInt), d)])
    put(c, send=Returns(send))

    def step(loop):
        if asks(loop):
            it.update(b=elem_of(loop), n=0, at=conns())

    def end(loop):
        if asks(loop):
            prove("C18.each: no connected broker is passed over",
                  z3.BoolVal(True) if it["n"] else z3.Not(vdict_has(it["at"], it["b"])))
            prove("C18.on: the round goes on only without a coordinator", z3.Not(truth(c.kv_done)))

    def start(loop):
        """The round is over the brokers known when it starts."""
        if not asks(loop):
            return []
        K = seq_of(loop.spec.base) if loop.spec.kind == "seq" else loop.spec.K

        def f(i):
            if i.eq(z3.IntVal(0)):
                prove("C18.round: a round is over all brokers known when it starts",
                      K == loops.keyseq(ddom(conns())))
                prove("C18.some: a round is over at least one broker", z3.Length(K) > 0)
            return z3.BoolVal(True)
        return [(("start",), f)]
    ghost(rels=[same_flag(c, "kv_done"), start], step_hooks=[step], iteration_end=[end],
          key_witnesses=[z3.Const("w0", V)])
    res = call(c.determine_coordinator)
    if res[0] == "exc":
        prove("C18.none: the no-brokers error is raised exactly if there are no brokers",
              z3.And(type(res[1]) is NoBr, ddom(conns()) == core.EMPTY_DOM))
        e.cover("C18.no brokers")
        return
    if not ok("C18.completes", res, "determine_coordinator"):
        return
    prove("C18.until: the search ends only when a coordinator is named", truth(c.kv_done))
    e.cover("C18.found")


# ---------------------------------------------------------------- allocation
@unit("C21", functions=["kiel.clients.grouped.naive_allocator"])
def allocate(e):
    """naive_allocator, for every list of members and of partitions."""
    f = need(M("kiel.clients.grouped"), "naive_allocator").naive_allocator
    ms, ps = fresh_term("members"), fresh_term("partitions")
    n = z3.Length(seq_of(ms))
    topic, pid = z3.Function("topic_part", V, V), z3.Function("id_part", V, I)
    pids = z3.Function("id_text", V, V)

    def split(v):
        return SList.of([wrap(topic(v), TStr), wrap(pids(v), TStr)])

    def parse_int(v):
        if v.decl().name() != "id_text":
            raise Unsupported("int of something else")
        return SInt(pid(v.arg(0)))

    def over(loop):
        sp = loop.spec
        return None if sp is None or sp.kind == "dict" or sp.base is None or not e.valid(sp.base == ps) else ()

    seq = seq_of(ps)
    G = GhostFold("allotted", over, vdict_empty(), lambda: seq)

    def step(i, D, p):
        m = core.nth(seq_of(ms), values.imod(i, n))
        own = get_or(D, m, vdict_empty())
        return vdict_set(D, m, ext_list(own, topic(p), mk_list(z3.Unit(mk_int(pid(p))))))

    def gstep(loop):
        if over(loop) is not None:
            s = G.at((), G.init, loop.i)
            e.add(G.at((), G.init, loop.i + 1) == step(loop.i, s, core.nth(seq, loop.i)))
    AL = Fold("allocation", over, None, kinds=("dict",), seq=lambda: seq)
    AL.step_at = lambda params, init, i: e.add(AL.at(params, init, i + 1) == step(i, AL.at(params, init, i),
                                                                                core.nth(seq, i)))
    ghost(folds=[AL], step_hooks=[gstep], split=split, parse_int=parse_int)
    nobody = e.choose(2)
    e.add(n == 0 if nobody else n > 0)
    res = call(f, wrap(ms, TList(TStr)), wrap(ps, TList(TStr)))
    if not ok("C21.no-exception", res, "naive_allocator"):
        return
    if nobody:
        prove("C21.nobody: with no members nothing is assigned", eqv(res[1], vdict_empty()))
        return
    e.cover("C21.allocates")
    prove("C21.round-robin: partition i is appended to the share of member i modulo the number of members, "
          "for each i in order, and nothing else", eqv(res[1], AL.total((), vdict_empty())))


@unit("C21")
def even_shares(e):
    """Lemma: appending item i to share i mod n keeps the shares within one of each other, each item in one share."""
    n, j, k, i, q, r, cj, ck = (fresh_term(x, I) for x in ("n", "j", "k", "i", "q", "r", "cj", "ck"))
    e.assume(z3.And(n > 0, 0 <= j, j < n, 0 <= k, k < n, 0 <= r, r < n, q >= 0))

    def inv(q, r, j, c):               # i = q * n + r items placed: member j has c of them
        return c == q + z3.If(j < r, 1, 0)
    e.assume(z3.And(inv(q, r, j, cj), inv(q, r, k, ck)))
    q1, r1 = z3.If(r + 1 < n, q, q + 1), z3.If(r + 1 < n, r + 1, 0)
    prove("C21.lemma: no items, no shares", z3.And(inv(z3.IntVal(0), z3.IntVal(0), j, z3.IntVal(0))))
    prove("C21.lemma: the item goes to exactly one member and the counts follow",
          z3.And(inv(q1, r1, j, cj + z3.If(j == r, 1, 0)), inv(q1, r1, k, ck + z3.If(k == r, 1, 0))))
    prove("C21.lemma: counts differ by at most one", z3.And(cj - ck <= 1, ck - cj <= 1))


class Fails(Exception):
    """Whatever a step reports."""


@unit("C22", "C18", "C20", "C24", functions=[
    "kiel.clients.grouped.GroupedConsumer.connect", "kiel.clients.client.Client.connect",
    "kiel.clients.grouped.GroupedConsumer.wind_down", "kiel.clients.client.Client.close"])
def group_life(e):
    """connect and close of a grouped consumer, for every outcome of their steps."""
    c = grouped()
    log, bad = [], []
    TT = TDict(TAny, TList(TInt))
    topics = wrap(fresh_term("topics"), TT)

    def step(n):
        def f(*a):
            log.append(n)
            if n == "leave":
                prove("C20.marked: a client that winds down is closing", lift(c.closing) == mk_bool(True))
            if n == "group":
                prove("C22.seed: the group is started with the topics and partitions of the cluster", z3.And(
                    len(a) == 1, lift(a[0]) == lift(topics) if len(a) == 1 else False))
            if e.choose(2):
                bad.append(Fails(n))
                raise bad[-1]
            if n == "cluster":
                # healing replaces what is known of the topics
                c.cluster.topics = topics
        return f
    need(c.cluster, "topics")
    put(c.cluster, start=Returns(step("cluster")), stop=Returns(step("stop"), coroutine=False))
    put(c.allocator, start=Returns(step("group")), stop=Returns(step("leave")))
    put(c, determine_coordinator=Returns(step("coordinator")))
    if e.choose(2):
        res = call(c.connect)
        if bad:
            prove("C22.connect-error: the first error on the way is reported", z3.And(
                res[0] == "exc", res[1] is bad[0], len(bad) == 1))
        elif not ok("C22.connect-completes", res, "connect"):
            return
        else:
            for p in ("C22.connects", "C18.connects"):
                prove(p + ": the cluster is started, the group joined and its coordinator found, each once",
                      sorted(log) == ["cluster", "coordinator", "group"])
            e.cover("C22.connects")
        for p in ("C20.first", "C22.first"):
            prove(p + ": nothing is done before the cluster is known", log[:1] == ["cluster"])
        return
    res = call(c.close)
    prove("C24.left: closing leaves the group once", log.count("leave") == 1)
    prove("C20.marked: a client that closes is closing", lift(c.closing) == mk_bool(True))
    if bad:
        prove("C24.close-error: what goes wrong is reported", z3.And(res[0] == "exc", res[1] is bad[0]))
        return
    if ok("C24.close-completes", res, "close"):
        prove("C20.close: closing stops the connections, once", log.count("stop") == 1)
        e.cover("C24.closes")


@unit("C24", functions=["kiel.clients.consumer.BaseConsumer.__init__"])
def names(e):
    """Consumers that live in one process are members of different names, as their identities differ."""
    ids, back = [], z3.Function("number_of_chars", core.SeqV, I)

    def identity(x):
        for y, i in ids:
            if x is y:
                return i
        i = fresh_int("identity")
        e.add(z3.And(*[i.t != j.t for _, j in ids]))
        e.add(back(ropes.num_chars(i.t)) == i.t)       # decimal digits say which number it is
        ids.append((x, i))
        return i
    ghost(identity=identity)
    m = need(M("kiel.clients.consumer"), "BaseConsumer")
    rs = [call(m.BaseConsumer, ["b:1"]) for _ in range(2)]
    if all([ok("C24.named: a consumer is made", r, "BaseConsumer") for r in rs]):
        a, b = (need(r[1], "name").name for r in rs)
        prove("C24.names: they have different names", z3.Not(eqv(a, b)))
        e.cover("C24.names")
