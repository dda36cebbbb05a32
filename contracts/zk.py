"""Contracts of kiel/zookeeper/*.py."""
from .base import *

name_f = None
W0 = z3.Const("w0", V)
loads_f = z3.Function("json_loads", V, V)
dumps_f = z3.Function("json_dumps", V, V)
stored_f = z3.Function("json_items", V, core.DomS)      # the items of the list a text encodes


class Bad(Exception):
    """Any error of zookeeper."""


def text(name):
    return fresh(name, TStr)


# ---------------------------------------------------------------- party
class Node:
    _kv_record = False

    def __init__(self, owner):
        self.owner_session_id = owner

    def _kv_lift(self):
        raise Unsupported("znode as a value")


class Txn:
    def __init__(self, zk):
        self.zk, self.ops, self.done = zk, [], False

    def delete(self, path, version=-1):
        self.ops.append(("delete", path, False))

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False, include_data=False):
        if sequence is not False:
            raise Unsupported("sequence node")
        self.ops.append(("create", path, ephemeral))

    def commit(self):
        return self.zk.commit(self)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        return False


class ZK:
    """The party's node: absent, ours or somebody else's, whose session may end at any time."""

    def __init__(self, e, path):
        self.vanished = False
        self.e, self.path = e, path
        self.sid = fresh_int("session")
        e.add(self.sid.t != 0)
        self.other = fresh_int("other")
        e.add(self.other.t != self.sid.t)
        self.state = ["absent", "ours", "theirs"][e.choose(3)]
        self.ephemeral = self.state == "ours"
        self.log = []
        self.client_id = (self.sid, b"password")

    def at(self, path):
        if self.state == "theirs" and self.e.choose(2):
            self.state, self.vanished = "absent", True
        prove("C24.path: it is the member's node under the group's path", eqv(path, self.path))

    def exists(self, path, watch=None):
        self.at(path)
        if self.state == "absent":
            return None
        return Node(self.sid if self.state == "ours" else self.other)

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False, makepath=False, include_data=False):
        self.at(path)
        if sequence is not False:
            raise Unsupported("sequence node")
        self.log.append("create")
        if self.state != "absent":
            raise stubs.NodeExistsError()
        self.state, self.ephemeral = "ours", self.e.valid(core.asbool(ephemeral))
        return path

    failing, failed = None, False              # what deleting fails with

    def delete(self, path, version=-1, recursive=False):
        self.at(path)
        self.log.append("delete")
        if self.failing is not None:
            self.failed = True
            raise self.failing
        if self.state == "absent":
            raise stubs.NoNodeError()
        self.state = "absent"
        return True

    def transaction(self):
        return Txn(self)

    def commit(self, t):
        self.log.append([o[0] for o in t.ops])
        for op, path, eph in t.ops:
            self.at(path)
        st, ep = self.state, self.ephemeral
        for op, path, eph in t.ops:
            if (op == "delete") == (st == "absent"):
                # nothing of it happens, which is told by the results alone
                x = stubs.NoNodeError() if op == "delete" else stubs.NodeExistsError()
                return [x for o in t.ops]
            st, ep = ("absent", False) if op == "delete" else ("ours", self.e.valid(core.asbool(eph)))
        self.state, self.ephemeral = st, ep
        return [True for o in t.ops]


def make_party(e, zk=None, on_change=None):
    m = need(M("kiel.zookeeper.party"), "Party")
    path, member = text("path"), text("member")
    zk = zk or ZK(e, lift(path + "/" + member))
    return m.Party(zk, member, path, on_change=on_change), zk, path


@unit("C24", functions=["kiel.zookeeper.party.Party.join"])
def join(e):
    """join, for every path, member name and prior state of the node."""
    p, zk, _ = make_party(e)
    before = zk.state
    res = call(p.join)
    if not ok("C24.join-completes: joining raises nothing", res, "join"):
        return
    prove("C24.owned: after joining the node exists, owned by this session", zk.state == "ours")
    prove("C24.ephemeral: and is ephemeral", zk.ephemeral)
    prove("C24.kept: a node already owned is kept", zk.log == [] if before == "ours" else True)
    prove("C24.created: an absent node is created", zk.log in (["create"], [["create"]]) if before == "absent" else True)
    if before == "theirs" and not zk.vanished:
        prove("C24.taken-over: a node of another session is deleted and recreated in one transaction",
              zk.log == [["delete", "create"]])
    e.cover("C24.joins " + before)
    e.cover("C24.joins vanished" if zk.vanished else "C24.joins undisturbed")


class Lost(Exception):
    pass


@unit("C24", functions=["kiel.zookeeper.party.Party.leave"])
def leave(e):
    """leave, for every path, member name and prior state of the node, and whatever fails."""
    p, zk, _ = make_party(e)
    boom = zk.failing = [None, stubs.ConnectionLoss(), stubs.SessionExpiredError(), Lost()][e.choose(4)]
    res = call(p.leave)
    if boom is not None and (zk.failed or res[0] == "exc"):
        prove("C24.leave-error: an error in leaving is reported", res[0] == "exc" and res[1] is boom)
        e.cover("C24.leave fails")
    elif ok("C24.leave-completes: leaving raises nothing, also if the node is gone", res, "leave"):
        prove("C24.left: exactly the member's node is deleted", zk.state == "absent" and zk.log in (["delete"], []))


class Watches:
    """A client whose watches are called by the unit."""

    def __init__(self):
        self.ensured, self.kids, self.data = [], [], []

    def ensure_path(self, path, acl=None):
        self.ensured.append(path)

    def _watch(self, out, path, func):
        if func is not None:
            out.append((path, func))
            return func

        def deco(f):
            out.append((path, f))
            return f
        return deco

    def ChildrenWatch(self, path, func=None, allow_session_lost=True, send_event=False):
        if send_event is not False:
            raise Unsupported("watch with events")
        return self._watch(self.kids, path, func)

    def DataWatch(self, path, func=None, *a, **k):
        return self._watch(self.data, path, func)


@unit("C24", functions=["kiel.zookeeper.party.Party.start"])
def party_start(e):
    """Party.start, for every path and sequence of notifications."""
    zk, seen = Watches(), []
    p, _, path = make_party(e, zk, lambda members: seen.append(members))
    res = call(p.start)
    if not ok("C24.watch-completes", res, "start"):
        return
    prove("C24.watch: the group's path exists and its children are watched, once",
          z3.And(len(zk.ensured) >= 1 and len(zk.kids) == 1, *[eqv(x, path) for x in zk.ensured],
                 *[eqv(x, path) for x, _ in zk.kids]))
    if len(zk.kids) != 1:
        return
    for _ in range(2):
        seen.clear()
        members = fresh("members", TList(TAny))
        res = call(zk.kids[0][1], members)
        if ok("C24.notify-completes", res, "the watch"):
            prove("C24.notify: every membership notification is passed on once, unchanged, and keeps the watch",
                  z3.And(len(seen) == 1, *[eqv(x, members) for x in seen], res[1] is not False))
            e.cover("C24.notifies")


@unit("C24", functions=["kiel.zookeeper.allocator.PartitionAllocator.stop"])
def allocator_stop(e):
    """Stopping the allocator leaves the party while connected, for every outcome of the steps."""
    a, zk = make_allocator(e)
    ev = []

    def step(n):
        def f(*x):
            ev.append(n)
            if e.choose(2):
                raise Bad(n)
        return f
    put(a.party, leave=step("leave"))
    zk.stop, zk.close = step("stop"), step("close")
    res = call(a.stop)
    if res[0] == "exc":
        prove("C24.stop-error: an error on the way is what is reported", type(res[1]) is Bad and res[1].args == (ev[-1],))
    elif res[0] != "ok":
        ok("C24.stop-completes", res, "stop")
    else:
        prove("C24.stop: the party is left, once, before the connection is closed",
              sorted(ev) == ["close", "leave", "stop"] and ev[0] == "leave")
        e.cover("C24.stops")
    prove("C24.leave-first: leaving comes first", ev[:1] == ["leave"])


# ---------------------------------------------------------------- shared set
def json_env(e):
    def dumps(x, **k):
        if k:
            raise Unsupported("json.dumps with options")
        if isinstance(x, (SSet, set, frozenset)):
            raise TypeError("Object of type set is not JSON serializable")
        t = dumps_f(lift(x))
        from kv import ropes
        enc = ropes.encode_f(t)
        items = rt.seqdom(x.seq() if isinstance(x, SList) else seq_of(lift(x)))
        e.axiom_once(t, loads_f(enc) == lift(x), loads_f(t) == lift(x), stored_f(enc) == items, stored_f(t) == items,
                     z3.Length(ropes.chars_of(enc)) > 0, z3.Length(ropes.chars_of(t)) > 0)
        return wrap(t, TStr)

    def loads(x, **k):
        if k:
            raise Unsupported("json.loads with options")
        if isinstance(x, (str, bytes)):
            import json
            v = json.loads(x)
            if not isinstance(v, list):
                raise Unsupported("json constant")
            return SList.of(v)
        t = loads_f(lift(x))
        e.axiom_once(t, rt.seqdom(seq_of(t)) == stored_f(lift(x)))
        return wrap(t, TList(TAny))
    ghost(**{"json.dumps": dumps, "json.loads": loads})


def items_of(v):
    """The set stored as v (bytes)."""
    from kv import ropes
    return mk_set(z3.If(z3.Length(ropes.chars_of(v)) == 0, core.EMPTY_DOM, stored_f(v)))


class Lock:
    def __init__(self, zk, path):
        self.zk, self.path = zk, path

    def __enter__(self):
        zk = self.zk
        prove("C23.lock: it is the shared lock", eqv(self.path, zk.path + "/lock"))
        if zk.held or zk.locked:
            raise Unsupported("the lock is taken more than once")
        zk.held = True
        zk.locked += 1
        # other holders may have changed the set until now
        zk.stored = fresh("stored", TBytes)
        zk.at_lock = zk.stored
        return self

    def acquire(self, *a, **k):
        self.__enter__()
        return True

    def release(self):
        self.zk.held = False
        return True

    def __exit__(self, *a):
        self.release()
        return False


class Store(Watches):
    def __init__(self, e, path):
        super().__init__()
        self.e, self.path = e, path
        self.held, self.locked, self.reads, self.writes = False, 0, 0, 0
        self.stored = self.at_lock = None
        self.failed = None

    def Lock(self, path, identifier=None, **k):
        return Lock(self, path)

    def get(self, path, watch=None):
        prove("C23.read-locked: the set is read while the lock is held", z3.And(eqv(path, self.path), self.held))
        self.reads += 1
        return (self.stored if self.stored is not None else fresh("stored", TBytes), object())

    def set(self, path, value, version=-1):
        prove("C23.write-locked: the set is written while the lock is held", z3.And(eqv(path, self.path), self.held))
        prove("C23.bytes: what is written is bytes", isinstance(value, bytes) or typeof(value).k == "bytes")
        self.writes += 1
        if self.e.choose(2):
            self.failed = Bad("set")
            raise self.failed
        self.stored = value


def make_set(e, on_change=None):
    m = need(M("kiel.zookeeper.shared_set"), "SharedSet")
    path = text("path")
    zk = Store(e, path)
    json_env(e)
    return m.SharedSet(zk, path, on_change), zk


def update(e, what, f, new, want, same):
    """Common part of adding and removing: want(old) is what must be stored."""
    s, zk = make_set(e)
    N = lift(new)
    res = call(f(s), new)
    prove("C23.released: the lock is taken once and released, also on errors", zk.locked == 1 and not zk.held)
    if zk.failed is not None:
        prove("C23.error: a failed write is reported", res[0] == "exc" and res[1] is zk.failed)
        return
    if not ok("C23.%s-completes" % what, res, what):
        return
    if zk.stored is None:
        return
    old = items_of(lift(zk.at_lock))
    prove("C23.%s: the stored set is exactly as required" % what, items_of(lift(zk.stored)) == want(old, N))
    prove("C23.%s-quiet: storage is written exactly if something changes" % what,
          z3.Not(same(old, N)) if zk.writes == 1 else z3.And(zk.writes == 0, same(old, N)))
    prove("C23.%s-frame: the given items are left alone" % what, eqv(new, N))
    e.cover("C23.%s" % what)


@unit("C23", functions=["kiel.zookeeper.shared_set.SharedSet.add_items",
                        "kiel.zookeeper.shared_set.SharedSet.serialize",
                        "kiel.zookeeper.shared_set.SharedSet.deserialize"])
def add_items(e):
    """add_items, for every stored set, items and interleaving of other holders of the lock."""
    update(e, "add", lambda s: s.add_items, fresh("items", TSet(TAny), ro=False),
           lambda o, n: mk_set(z3.SetUnion(sdom(o), sdom(n))),
           lambda o, n: z3.SetDifference(sdom(n), sdom(o)) == core.EMPTY_DOM)


@unit("C23", functions=["kiel.zookeeper.shared_set.SharedSet.remove_items"])
def remove_items(e):
    """remove_items, for every stored set, items and interleaving of other holders of the lock."""
    update(e, "remove", lambda s: s.remove_items, fresh("items", TSet(TAny), ro=False),
           lambda o, n: mk_set(z3.SetDifference(sdom(o), sdom(n))),
           lambda o, n: z3.SetIntersect(sdom(o), sdom(n)) == core.EMPTY_DOM)


@unit("C23", functions=["kiel.zookeeper.shared_set.SharedSet.serialize",
                        "kiel.zookeeper.shared_set.SharedSet.deserialize"])
def set_codec(e):
    """What is stored decodes to the same set, absent data to the empty set."""
    s, zk = make_set(e)
    S = fresh("items", TSet(TAny))
    res = call(s.serialize, S)
    if ok("C23.serialize-completes", res, "serialize"):
        prove("C23.serialize: the stored form is bytes of a JSON list of exactly the items",
              z3.And(isinstance(res[1], bytes) or typeof(res[1]).k == "bytes",
                     stored_f(lift(res[1])) == sdom(S_(S))))
    D = [fresh("data", TBytes), b"", None][e.choose(3)]
    res = call(s.deserialize, D)
    if ok("C23.deserialize-completes", res, "deserialize"):
        prove("C23.deserialize: decoding gives the stored items, absent data the empty set",
              eqv(res[1], items_of(lift(D)) if isinstance(D, core.Sym if hasattr(core, "Sym") else values.Sym)
                  else core.vset_empty()))
        e.cover("C23.codec")


def S_(x):
    return lift(x)


@unit("C23", functions=["kiel.zookeeper.shared_set.SharedSet.start"])
def set_start(e):
    """SharedSet.start, for every path and sequence of notifications."""
    seen = []
    s, zk = make_set(e, lambda x: seen.append(x))
    res = call(s.start)
    if not ok("C23.watch-completes", res, "start"):
        return
    prove("C23.watch: the set's node exists and its data is watched, once",
          z3.And(len(zk.ensured) >= 1 and len(zk.data) == 1, *[eqv(x, zk.path) for x in zk.ensured],
                 *[eqv(x, zk.path) for x, _ in zk.data]))
    if len(zk.data) != 1:
        return
    for _ in range(2):
        seen.clear()
        D = [fresh("data", TBytes), b"", None][e.choose(3)]
        res = call(zk.data[0][1], D, object())
        if ok("C23.notify-completes", res, "the watch"):
            want = lift(None) if D is None else core.vset_empty() if isinstance(D, bytes) else items_of(lift(D))
            prove("C23.notify: watchers are given the decoded set, or None when there is no node",
                  z3.And(len(seen) == 1, *[eqv(x, want) for x in seen], res[1] is not False))
            e.cover("C23.notifies")


# ---------------------------------------------------------------- allocator
class Client:
    """The zookeeper client of an allocator; only what a unit adds may be used."""


def make_allocator(e, fn=None, cb=None):
    m = need(M("kiel.zookeeper.allocator"), "PartitionAllocator")
    zk = Client()
    def make(*p, **k):
        zk.given = p[0] if p else k.get("hosts")
        return zk
    ghost(KazooClient=make)
    a = m.PartitionAllocator(SList.of(["z:1", "y:2"]), text("group"), text("me"), allocator_fn=fn, on_rebalance=cb)
    need(a, "members", "partitions", "mapping", "party", "shared_set", "members_collected",
         "partitions_collected", "connected", "conn")
    return a, zk


def group_state(a):
    M0, P0 = fresh_term("members"), fresh_term("partitions")
    a.members = wrap(M0, TSet(TAny))
    a.partitions = wrap(P0, TSet(TAny))
    return M0, P0


@unit("C22", functions=["kiel.zookeeper.allocator.PartitionAllocator.on_group_members_change",
                        "kiel.zookeeper.allocator.PartitionAllocator.on_partition_change"])
def changes(e):
    """Both notifications, for every state of the group and every notified value."""
    a, zk = make_allocator(e)
    M0, P0 = group_state(a)
    json_env(e)
    log, at = [], []

    def rebalance():
        log.append("rebalance")
        at.append((lift(a.members), lift(a.partitions)))
    put(a, rebalance=rebalance)
    signals = []

    def signalling(ev):
        old = ev.set

        def f():
            signals.append((ev, lift(a.members), lift(a.partitions), len(log)))
            return old()
        ev.set = f
    signalling(a.members_collected)
    signalling(a.partitions_collected)

    def create(path, value=b"", acl=None, ephemeral=False, sequence=False, makepath=False, **k):
        log.append("create")
        prove("C22.first: the first user of the set stores the known partitions at the set's path",
              z3.And(eqv(path, a.shared_set.path), stored_f(lift(value)) == sdom(P0)))
        # another member may have been first, or the call may fail
        x = [None, stubs.NodeExistsError(), Bad("create")][e.choose(3)]
        if x is not None:
            errs.append(x)
            raise x
    zk.create = create
    errs = []
    if e.choose(2):
        new = fresh("members", TList(TAny))
        N = mk_set(rt.seqdom(seq_of(lift(new))))
        res = call(a.on_group_members_change, new)
        M1, P1, ev, changed = N, P0, a.members_collected, N != M0
    else:
        if e.choose(2):
            res = call(a.on_partition_change, None)
            if errs and isinstance(errs[-1], Bad):
                prove("C22.none-error: an error on the way is reported", res[0] == "exc" and res[1] is errs[-1])
                return
            if ok("C22.none-completes: also if another member was the first to create the set", res, "on_partition_change"):
                prove("C22.none: a missing node changes nothing and is created", z3.And(
                    eqv(a.members, M0), eqv(a.partitions, P0), log == ["create"]))
            return
        new = fresh("partitions", TSet(TAny), ro=False)
        N = lift(new)
        res = call(a.on_partition_change, new)
        M1, P1, ev, changed = M0, N, a.partitions_collected, N != P0
    if not ok("C22.change-completes", res, "the notification"):
        return
    prove("C22.current: the notified value is the current one, the other is left alone",
          z3.And(eqv(a.members, M1), eqv(a.partitions, P1)))
    prove("C22.rebalance-iff: exactly a notification that changes something leads to one rebalance",
          changed if len(log) == 1 else z3.And(len(log) == 0, z3.Not(changed)))
    for m, p in at:
        prove("C22.rebalance-state: the rebalance is over the new state", z3.And(m == M1, p == P1))
    prove("C22.collected: having received the value is signalled", ev.is_set())
    for v, m, p, n in signals:
        prove("C22.collected-after: it is signalled (and start goes on) once the value is in place and allocated over",
              z3.BoolVal(False) if v is not ev else z3.And(m == M1, p == P1, z3.Or(z3.Not(changed), n > 0)))
    e.cover("C22.change %d" % len(log))


@unit("C22", functions=["kiel.zookeeper.allocator.PartitionAllocator.rebalance",
                        "kiel.zookeeper.allocator.PartitionAllocator.allocation"])
def rebalance(e):
    """rebalance, for every set of members and partitions and every allocator."""
    log = []
    F = fresh_term("mapping")
    has_cb = e.choose(2)

    def fn(members, partitions):
        log.append("fn")
        prove("C22.sorted: the allocator is given the sorted current members and the sorted current partitions",
              z3.And(eqv(members, mk_list(rt.sorted_set(sdom(M0)))), eqv(partitions, mk_list(rt.sorted_set(sdom(P0))))))
        return wrap(F, TDict(TAny, TDict(TAny, TList(TInt))))

    def cb():
        log.append("cb")
        prove("C22.before-callback: the new allocation is in place when positions are marked", eqv(a.mapping, F))
    a, zk = make_allocator(e, fn, cb if has_cb else None)
    M0, P0 = group_state(a)
    me = lift(a.consumer_name)
    res = call(a.rebalance)
    if not ok("C22.rebalance-completes", res, "rebalance"):
        return
    prove("C22.recomputed: the allocation is recomputed once, then positions are marked for redetermination once",
          log == (["fn", "cb"] if has_cb else ["fn"]))
    prove("C22.share: this consumer's share, empty while it is not a member, is its allocation", z3.And(
        eqv(a.mapping, F), eqv(a.allocation, z3.If(vdict_has(F, me), vdict_get(F, me), vdict_empty())), eqv(a.members, M0), eqv(a.partitions, P0)))
    e.cover("C22.rebalances")


@unit("C22", "C16", functions=["kiel.clients.grouped.GroupedConsumer.__init__",
                               "kiel.clients.grouped.GroupedConsumer.allocation"])
def wiring(e):
    """A grouped consumer's allocator: its rebalance makes all positions unknown; its share is the allocation."""
    from .grouped import grouped, gstate
    from .consumer import state, rebalance_reaches
    c = grouped()
    state(c)
    g = gstate(c)
    prove("C22.allocation: the consumer's allocation is the allocator's share",
          eqv(c.allocation, g["alloc"]))
    rebalance_reaches(c)


@unit("C22", functions=["kiel.zookeeper.allocator.PartitionAllocator.start",
                        "kiel.zookeeper.allocator.create_attempter", "kiel.events.wait_on_event"])
def allocator_start(e):
    """start, for every outcome of its steps."""
    a, zk = make_allocator(e)
    seed = fresh("seed", TDict(TAny, TList(TInt)))
    log, bad = [], []

    def step(n, arg=None):
        def f(*x):
            log.append(n)
            if arg is not None:
                prove("C22.seed: every given partition is registered", len(x) == 1 and x[0] is arg)
            if e.choose(2):
                bad.append(Bad(n))
                raise bad[-1]
        return f
    put(a, connect=step("connect"), add_partitions=step("add", seed))
    put(a.party, start=step("watch members"), join=step("join"))
    put(a.shared_set, start=step("watch partitions"))
    # only the caller's end of the connection tells that it cannot be made
    names = {id(a.connected): "connected", id(a.members_collected): "members", id(a.partitions_collected): "partitions"}

    def wait(ev, timeout):
        if timeout is not None and e.choose(2):
            return
        prove("C22.hang: nothing is waited for that an error on the way keeps from coming", z3.BoolVal(
            not bad or (ev is a.connected and bad[0].args[0] != "connect")))
        log.append("wait " + names.get(id(ev), "?"))
        ev.flag = True
    ghost(event_wait=wait)
    res = call(a.start, seed)
    steps = [x for x in log if not x.startswith("wait")]
    if bad:
        prove("C22.start-error: the first error on the way is reported to the caller",
              res[0] == "exc" and res[1] is bad[0])
        return
    if not ok("C22.start-completes", res, "start"):
        return
    prove("C22.start: it connects, watches, joins and registers, each once",
          sorted(steps) == sorted(["connect", "watch members", "watch partitions", "join", "add"]))
    prove("C22.order: it connects before anything else and watches the members before joining",
          steps[:1] == ["connect"] and "wait connected" in log and
          log.index("wait connected") < min(log.index(x) for x in steps[1:]) and
          steps.index("watch members") < steps.index("join"))
    prove("C22.received: it does not finish before members and partitions were received",
          a.members_collected.flag and a.partitions_collected.flag)
    e.cover("C22.starts")


@unit("C22", functions=["kiel.zookeeper.allocator.PartitionAllocator.connect",
                        "kiel.zookeeper.allocator.PartitionAllocator.handle_connection_change"])
def connecting(e):
    """Connecting, and what a change of the connection's state does."""
    a, zk = make_allocator(e)
    log, cbs = [], []

    def add_listener(f):
        log.append("listen")
        cbs.append(f)
    zk.add_listener, zk.start_async = add_listener, lambda *x: log.append("start")
    res = call(a.connect)
    if not ok("C22.connect-completes", res, "connect"):
        return
    prove("C22.connect: the state of the connection is listened to before it is started", log == ["listen", "start"])
    prove("C22.hosts: the connection is to the hosts given", eqv(zk.given, lift("z:1,y:2")))
    K = stubs.KazooState
    for _ in range(2):
        st = [K.LOST, K.SUSPENDED, K.CONNECTED][e.choose(3)]
        for f in cbs:
            res = call(f, st)
            ok("C22.state-completes", res, "the listener")
        prove("C22.connected: connected is set exactly while the connection is live",
              a.connected.is_set() == (st == K.CONNECTED))


# ---------------------------------------------------------------- names of partitions
def partition_name(t, p):
    from kv import ropes
    return lift(wrap(t, TStr) + ":" + ropes.SStr.num(SInt(p)))


def is_name(w, n):
    """w is '<topic>:<n>' for its parts."""
    from kv import ropes
    return w == partition_name(ropes.head_f(w), n)


num_of = z3.Function("number_in", V, I)


def registering(e, method, target, props):
    a, zk = make_allocator(e)
    D0 = fresh_term("partitions")
    given = wrap(D0, TDict(TStr, TList(TInt)))
    log = []
    from kv import ropes
    head = ropes.head_f

    def ids(t):
        return seq_of(vdict_get(D0, t))

    def iloop(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq" or "t" not in it:
            return None
        return (it["t"],) if e.valid(seq_of(sp.base) == ids(it["t"])) else None
    it = {}
    EL = GhostFold("ids_so_far", iloop, core.vset_empty(), lambda t: ids(t))
    EL.pstep = lambda t, S, p: core.vset_add(S, p)

    def wanted(w, dom, inner=None):
        """w names a partition of a topic in dom, or of the current one and the ids so far."""
        t, n = head(w), num_of(w)
        whole = z3.And(z3.Select(dom, t), core.vset_has(EL.whole(t), mk_int(n)))
        if inner is not None:
            whole = z3.Or(whole, z3.And(t == inner[0], core.vset_has(inner[1], mk_int(n))))
        return z3.And(is_name(w, n), whole)

    def oloop(loop):
        return over_dict(ddom(D0))(loop)

    def parse(t, p):
        """Topic names hold no colon: a partition's name is read back (precondition)."""
        w = partition_name(t, p)
        e.add(head(w) == t, num_of(w) == p)

    def rels(loop):
        o, i_ = oloop(loop), iloop(loop)
        if o is None and i_ is None:
            return []
        out = []
        for loc, ty in loop.info.mods.items():
            if ty is None or ty.k not in ("set", "list"):
                continue

            def content(loc=loc, ty=ty):
                v = loop.term(loc)
                if v is None:
                    return None
                return sdom(v) if ty.k == "set" else rt.seqdom(seq_of(v))
            if o is not None:
                def f(i, w, content=content):
                    d = content()
                    return None if d is None else z3.Select(d, w) == wanted(w, loop.spec.vis(i))
                out.append((("names", loc), f, 1))
            else:
                t = i_[0]

                def f(i, w, content=content, t=t):
                    d = content()
                    return None if d is None else z3.Select(d, w) == wanted(
                        w, core.EMPTY_DOM, (t, EL.at(i_, EL.init, i)))

                def g(i, w, content=content, t=t):
                    outer = [L for L in e.loopstack if oloop(L) is not None]
                    d = content()
                    if d is None or not outer:
                        return None
                    return z3.Select(d, w) == wanted(w, outer[-1].spec.vis(outer[-1].i), (t, EL.at(i_, EL.init, i)))
                out.append((("names", loc), f, 1))
                out.append((("all names", loc), g, 1))
        return out

    def step(loop):
        if oloop(loop) is not None:
            it["t"] = elem_of(loop)
            e.add(core.kind(it["t"]) == core.K_STR)
        elif iloop(loop) is not None:
            EL.hook(loop)
            parse(it["t"], int_of(elem_of(loop)))

    def done(items):
        log.append("done")
        S = lift(items)
        prove("%s.%s: exactly the names of the given partitions are handed to the shared set, once" % (props, method),
              z3.And(len(log) == 2 and log[0] == "wait", core.vset_has(S, W0) == wanted(W0, ddom(D0))))
        e.cover("%s.%s" % (props, method))
    put(a.shared_set, **{target: done})

    def wait(ev, timeout):
        if ev is a.connected and timeout is None:
            log.append("wait")
        ev.flag = True
    ghost(rels=[rels], step_hooks=[step], key_witnesses=[W0], event_wait=wait)
    res = call(getattr(a, method), given)
    if ok("%s.%s-completes" % (props, method), res, method):
        prove("%s.%s-once: it is done once, when connected" % (props, method), log == ["wait", "done"])


@unit("C23", "C22", functions=["kiel.zookeeper.allocator.PartitionAllocator.add_partitions"])
def add_partitions(e):
    """add_partitions, for every mapping of topics to partitions."""
    registering(e, "add_partitions", "add_items", "C23")


@unit("C23", functions=["kiel.zookeeper.allocator.PartitionAllocator.remove_partitions"])
def remove_partitions(e):
    """remove_partitions, for every mapping of topics to partitions."""
    registering(e, "remove_partitions", "remove_items", "C23")
