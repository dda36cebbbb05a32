"""Contracts of kiel/clients/client.py."""
from .base import *
from .producer import list_factory

arrival = z3.Function("arrival", core.DomS, core.SeqV)
arrived = z3.Function("arrived", core.DomS, I, core.DomS)
key_text = z3.Function("key_text", V, V)         # str(broker id)
key_id = z3.Function("key_id", V, V)             # its inverse
okind = z3.Function("outcome_kind", V, I)        # of a future
oresp = z3.Function("outcome_response", V, V)
fut = z3.Function("send_future", V, V, V)        # connection, request
hres = z3.Function("handler_result", V, V)
hheal = z3.Function("handler_heals", V, B)


class Resp:
    """A response of any content."""
    _kv_record = False

    def __init__(self, v, api):
        self.v, self.api = v, api

    def _kv_lift(self):
        return self.v


class WI:
    """tornado's WaitIterator: hands out each future exactly once, in any order."""

    def __init__(self, u, futures):
        self.u = u
        self.F = lift(futures)
        self.dom = ddom(self.F)
        self.order = arrival(self.dom)
        self.n = z3.Length(self.order)
        self.pos = SInt(z3.IntVal(0))
        self.current_index = None
        e = core.E
        e.register(self)
        e.add((self.n == 0) == (self.dom == core.EMPTY_DOM))

    def _kv_lift(self):
        raise Unsupported("iterator as a value")

    def done(self):
        return SBool.mk(self.pos.t >= self.n)

    def key(self):
        return core.nth(self.order, self.pos.t)

    def next(self):
        return self.u.next(self)


@unit("C08", functions=["kiel.clients.client.Client.send"], seconds=120)
def send(e):
    """Client.send, for every set of brokers, arrival order and mix of answers and failures."""
    fan_out(e, False)


@unit("C08", functions=["kiel.clients.client.Client.send"], seconds=120)
def send_overlap(e):
    """Client.send, when other sends of the same client call for refreshes and make them while it waits."""
    fan_out(e, True)


def fan_out(e, overlap):
    m = need(M("kiel.clients.client"), "Client")
    X = M("kiel.exc")
    log = {"sent": 0, "handled": 0, "heal": 0}
    it = {}

    class Boom(Exception):
        pass

    class K(m.Client):
        def handle_foo_response(self, response):
            log["handled"] += 1
            if not isinstance(response, Resp):
                raise Unsupported("handler given something else")
            prove("C08.handler: a response is handled once, when it arrives, by the handler of its api",
                  z3.And(lift(response) == oresp(it["f"]), log["handled"] == 1))
            self.heal_cluster = SBool.mk(z3.Or(truth(self.heal_cluster), hheal(lift(response))))
            self.kv_own = SBool(z3.Or(truth(self.kv_own), hheal(lift(response))))
            v = wrap(hres(lift(response)), TAny)
            k = e.choose(3)
            if k == 2:
                it["boom"] = True
                raise Boom()
            return stubs.resolved(v) if k else v
    c = K(SList.of(["b:1"]))
    need(c, "cluster", "heal_cluster")
    h0 = e.fresh(B, "heal0")
    c.heal_cluster = SBool(h0)
    # ghost: a refresh is called for by this send's answers, by anything else, and none was started since
    c.kv_own, c.kv_others = SBool(z3.BoolVal(False)), SBool(h0)

    def others(refresh=False):
        """What else goes on while this send waits: it may call for refreshes, and make them."""
        if not overlap:
            return
        made, f = e.fresh(B, "refreshed"), e.fresh(B, "flagged")
        flag = truth(c.heal_cluster)
        c.kv_own = SBool(z3.And(truth(c.kv_own), z3.Not(made)))
        c.kv_others = SBool(z3.If(made, f, z3.Or(truth(c.kv_others), z3.And(f, z3.Not(flag)))))
        c.heal_cluster = SBool(z3.If(made, f, z3.Or(flag, f)))
    R0, C0 = fresh_term("requests"), fresh_term("conns")
    dom = ddom(R0)

    class Conn:
        _kv_record = False

        def __init__(self, v):
            self.v = v

        def _kv_lift(self):
            return self.v

        def send(self, request):
            b = it.get("b")
            if b is None:
                raise Unsupported("requests are not sent in a loop over the requests")
            log["sent"] += 1
            prove("C08.own: each broker gets exactly its own request, once",
                  z3.And(self.v == vdict_get(C0, b), lift(request) == vdict_get(R0, b), log["sent"] == 1))
            return wrap(fut(self.v, lift(request)), TAny)
    c.cluster.conns = wrap(C0, TDict(TInt, TObj(Conn)))
    wis = []

    def want(w):
        return fut(vdict_get(C0, key_id(w)), vdict_get(R0, key_id(w)))

    def same(D, dset, w):
        q = z3.And(z3.Select(dset, key_id(w)), key_text(key_id(w)) == w)
        return z3.And(vdict_has(D, w) == q, z3.Implies(q, vdict_get(D, w) == want(w)))

    def wait(futures):
        F = lift(futures)
        prove("C08.wait: exactly the sent requests are waited for, each under its broker's id",
              same(F, dom, z3.Const("w0", V)))
        loops.instantiate()
        w = WI(type("U", (), {"next": staticmethod(nxt)}), futures)
        wis.append(w)
        return w

    def at(w, j):
        """Facts about the j-th arrival."""
        k = core.nth(w.order, j)
        e.add(z3.Select(w.dom, k), z3.Not(z3.Select(arrived(w.dom, j), k)),
              arrived(w.dom, j + 1) == z3.Store(arrived(w.dom, j), k, z3.BoolVal(True)))
        loops.instantiate(k)
        return k

    class Next:
        def __init__(self, w):
            self.w = w

        def _kv_outcome(self):
            w = self.w
            if not e.valid(w.pos.t < w.n):
                raise Unsupported("next() of a finished iterator")
            if e.loopstack and e.loopstack[-1].is_while:
                prove("C08.each: every future is taken exactly once", it.get("taken", 0) == 0)
            it["taken"] = it.get("taken", 0) + 1
            others()
            k = at(w, w.pos.t)
            f = vdict_get(w.F, k)
            e.add(f == want(k))
            it["f"] = f
            e.mutated(w, "pos")
            w.pos = SInt.mk(w.pos.t + 1)
            e.mutated(w, "current_index")
            w.current_index = IdText(k)
            kd = okind(f)
            it["kind"] = kd
            log["handled"] = 0
            c.kv_own = SBool(z3.Or(truth(c.kv_own), kd == 1, kd == 3))
            if e.fork(kd == 1):
                raise X.BrokerConnectionError(host="h", port=1)
            if e.fork(kd == 2):
                raise stubs.StreamClosedError()
            if e.fork(kd == 3):
                raise Boom("any other error")
            it["resp"] = True
            known = e.fork(z3.Function("has_handler", V, B)(f))
            it["known"] = known
            return Resp(oresp(f), "foo" if known else "bar")

    def nxt(w):
        return Next(w)

    class IdText:
        """The text of a broker id."""
        _kv_record = False

        def __init__(self, k):
            self.k = k

        def _kv_lift(self):
            return self.k

        def _kv_int(self, *base):
            return wrap(key_id(self.k), TInt)

    # --- ghost: result and refresh flag after the first j arrivals
    def wloop(loop):
        return () if loop.is_while and wis else None

    def answered(f):
        return z3.And(okind(f) != 1, okind(f) != 2, okind(f) != 3)
    FD = Fold("answers", wloop, None, kinds=("dict",), seq=lambda: wis[0].order)
    FD.pstep = lambda D, k: z3.If(answered(want(k)), vdict_set(D, key_id(k), hres(oresp(want(k)))), D)
    HF = Fold("refresh", wloop, None, kinds=("bool",), seq=lambda: wis[0].order)
    HF.pstep = lambda h, k: mk_bool(z3.Or(bool_of(h), okind(want(k)) == 1, okind(want(k)) == 3, z3.And(
        answered(want(k)), hheal(oresp(want(k))))))

    def is_req(loop):
        return over_dict(dom)(loop)

    def step(loop):
        if is_req(loop) is not None:
            b = elem_of(loop)
            it["b"] = b
            log["sent"] = 0
            # precondition: requests are for connected brokers; broker ids are told apart by their text
            e.add(vdict_has(C0, b), key_id(key_text(b)) == b)
        elif wloop(loop) is not None:
            it.pop("taken", None)
            it.pop("resp", None)

    def end(loop):
        if is_req(loop) is not None:
            prove("C08.own: each broker gets exactly its own request, once", log["sent"] == 1)
        elif wloop(loop) is not None:
            prove("C08.each: every future is taken exactly once", it.get("taken", 0) == 1)
            prove("C08.handled: each answer is handled, failures are not",
                  log["handled"] == (1 if it.get("resp") else 0))

    def heal():
        log["heal"] += 1
        if overlap:
            prove("C08.called-for: a refresh is made only if something called for it since the last one",
                  z3.Or(truth(c.kv_own), truth(c.kv_others)))
            if e.choose(2):
                others()
                c.kv_others = SBool(z3.BoolVal(True))
                it["unhealed"] = True
                raise Boom()
            c.kv_own = c.kv_others = SBool(z3.BoolVal(False))
            others()
        prove("C08.after: the metadata is refreshed after all responses were handled",
              wis[0].pos.t == wis[0].n)
    put(c.cluster, heal=Returns(heal))

    def tos(x):
        return key_text(lift(x))
    rel = dict_rel(is_req, lambda D, i, w, loop: same(D, loop.spec.vis(i), w), "futures",
                   lambda loop: [key_text(elem_of(loop))])

    def pos(loop):
        if wloop(loop) is None:
            return []
        p0 = wis[0].pos
        if overlap:
            flag = lambda *x: z3.Or(truth(c.heal_cluster), *x)
            out = [(("own",), lambda i: z3.Implies(truth(c.kv_own), flag())),
                   (("flagged",), lambda i: z3.Implies(truth(c.heal_cluster), z3.Or(truth(c.kv_own), truth(c.kv_others)))),
                   (("others",), lambda i: z3.Implies(truth(c.kv_others), flag()))]
            for loc, ty in loop.info.mods.items():
                if ty is not None and ty.k == "bool":
                    for g in ("kv_own", "kv_others"):
                        def f(i, loc=loc, g=g):
                            t = loop.term(loc)
                            return None if t is None else z3.Implies(truth(getattr(c, g)), flag(bool_of(t)))
                        out.append(((g, loc), f))
            return out + [(("pos",), lambda i: wis[0].pos.t == i), (("range",), lambda i: wis[0].pos.t <= wis[0].n)]
        return [(("pos",), lambda i: wis[0].pos.t == i), (("range",), lambda i: wis[0].pos.t <= wis[0].n)]
    ghost(WaitIterator=wait, rels=[rel, pos], folds=[FD] if overlap else [FD, HF], step_hooks=[step], iteration_end=[end],
          int_text=lambda x: wrap(key_text(lift(x)), TAny), key_witnesses=[z3.Const("w0", V)])
    res = call(c.send, wrap(R0, TDict(TInt, TAny)))
    if overlap:
        prove("C08.kept: what anything else calls for meanwhile is still called for afterwards, or was refreshed",
              z3.Implies(truth(c.kv_others), truth(c.heal_cluster)))
    if res[0] == "exc":
        if it.get("unhealed"):
            prove("C08.refresh-error: a refresh that fails is reported", type(res[1]) is Boom)
            return
        if it.get("boom"):
            prove("C08.passed-on: what a handler raises is raised", type(res[1]) is Boom)
            return
        prove("C08.unhandled: a response without handler raises an error naming its api",
              type(res[1]) is X.UnhandledResponseError and "bar" in str(res[1].args) and it.get("known") is False)
        e.cover("C08.no handler")
        return
    if not ok("C08.completes", res, "send"):
        return
    w = wis[0]
    prove("C08.all: it ends when every response was handled", w.pos.t == w.n)
    prove("C08.results: the result maps each broker that answered to its handler's outcome, and nothing else",
          eqv(res[1], FD.total((), vdict_empty())))
    if overlap:
        prove("C08.refreshed: a refresh was made since this send's last answer that called for one",
              z3.And(z3.Not(truth(c.kv_own)), log["heal"] <= 1))
        e.cover("C08.overlapping send returns")
        return
    hf = bool_of(HF.total((), mk_bool(h0)))
    prove("C08.refresh: the metadata is refreshed exactly once if something called for it, else not at all",
          hf if log["heal"] == 1 else z3.And(log["heal"] == 0, z3.Not(hf)))
    prove("C08.cleared: the call for a refresh is cleared by the refresh", eqv(c.heal_cluster, mk_bool(False)))
    e.cover("C08.send returns")
