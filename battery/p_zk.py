"""C21-C24: allocation and the ZooKeeper recipes."""
import collections
import importlib
import itertools
import json
import threading
import time

from . import net, wire, zk
from .net import finish
from .p_prod import kiel
from kazoo.client import KazooState


class C21:
    rule = "0-9 members and 0-60 partitions of any topic names and ids, in any order"

    @staticmethod
    def gen(rng, size, i):
        ms = rng.sample(["m%d" % k for k in range(12)] + ["Host:140", "a b", "é"], rng.choice([0, 1, 1, 2, 3, 5, 9]))
        ps = ["%s:%d" % (t, p) for t in rng.sample(["t", "A.b", "x-Y", "", "é", "_z"], rng.choice([0, 1, 2, 3]))
              for p in rng.sample(range(3000), rng.choice([0, 1, 2, 7, 20]))]
        if rng.random() < .7:
            ms, ps = sorted(ms), sorted(ps)
        else:
            rng.shuffle(ps)
        return {"members": ms, "partitions": ps}

    @staticmethod
    def run(case):
        f = kiel("clients.grouped").naive_allocator
        ms, ps = list(case["members"]), list(case["partitions"])
        m1 = f(ms, ps)
        m2 = f(list(ms), list(ps))
        want = {}
        if ms:
            for i, p in enumerate(case["partitions"]):
                t, q = p.rsplit(":", 1)
                want.setdefault(ms[i % len(ms)], {}).setdefault(t, []).append(int(q))

        def plain(m):
            return {k: {t: list(v) for t, v in d.items() if len(v)} for k, d in m.items() if any(len(v) for v in d.values())}
        if ms != case["members"] or ps != case["partitions"]:
            return "the given lists are changed"
        for m in (m1, m2):
            if plain(m) != want:
                return "allocation is %r instead of %r" % (plain(m), want)
            if any(type(q) is not int for d in m.values() for v in d.values() for q in v):
                return "partition ids are not integers"
        for x in ms:
            if not want.get(x) and len(m1[x]):
                return "member %r without partitions gets %r" % (x, m1[x])


class C22:
    rule = ("sequences of 0-8 membership and partition notifications (some repeating, some of several changes, some of a lost set that others make again), seeds of 0-3 topics, errors of "
            "any ZooKeeper operation at start, notifications arriving late and in any order from another thread")

    @staticmethod
    def gen(rng, size, i):
        ev = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            ev.append(rng.choice([["join", "m%d" % rng.randrange(4)], ["leave", "m%d" % rng.randrange(4)],
                                  ["add", {rng.choice(["t", "u"]): [rng.randrange(4)]}],
                                  ["remove", {rng.choice(["t", "u"]): [rng.randrange(4)]}], ["renotify"],
                                  ["lost"], ["gone", rng.choice([None, ["t:0", "u:1"], ["w:0"]])], ["swap", "m%d" % rng.randrange(4), "m%d" % rng.randrange(4)],
                                  ["put", rng.sample(["t:0", "t:1", "t:2", "u:0", "u:1"], rng.choice([1, 2]))]]))
        return {"seed": {t: rng.sample(range(6), rng.choice([0, 1, 3])) for t in ["t", "U.v-1_x", "w"][:rng.choice([0, 1, 2, 3])]},
                "events": ev, "others": ["m0"] if rng.random() < .3 else [],
                "stored": rng.choice([None, None, ["t:0", "t:9"]]), "allocator": rng.choice(["own", "naive", "plain"]),
                "fail": rng.choice([None] * 8 + ["start", "unstarted", "ensure_path", "exists", "get", "set", "create"]),
                "threaded": rng.random() < .12, "order": rng.random() < .5}

    @staticmethod
    def run(case):
        s = zk.Server()
        A = importlib.import_module("kiel.zookeeper.allocator")
        G = kiel("clients.grouped")
        calls, marks = [], []
        real = G.naive_allocator

        def own(ms, ps):
            calls.append((list(ms), list(ps)))
            if case["allocator"] == "naive":
                return real(ms, ps)
            if case["allocator"] == "plain":
                return {m: {"n%d" % k: list(ps)} for k, m in enumerate(ms)}
            out = collections.defaultdict(lambda: collections.defaultdict(list))
            for p in (ps if ms else []):
                out[ms[-1]][p.split(":")[0]].append(int(p.split(":")[1]))
            out["me"]["mine"] = ["%d/%d" % (len(ms), len(ps))]
            return out

        def mark():
            marks.append((len(calls), snapshot(a)))
        group = "/kiel/groups/g"
        if case["stored"] is not None or case["others"]:
            s.make_all(group + "/members")
            for o in case["others"]:
                s.make(group + "/members/" + o, b"", 1)
        if case["stored"] is not None:
            s.make_all(group + "/partitions")
            s.put(group + "/partitions", json.dumps(case["stored"]).encode())

        def snapshot(a):
            try:
                return {t: list(v) for t, v in a.allocation.items()}
            except Exception as e:
                return repr(e)

        async def main():
            nonlocal a
            a = A.PartitionAllocator(["z1:1", "z2:2"], "g", "me", own, on_rebalance=mark)
            if case["fail"]:
                return await failing(a)
            if case["threaded"]:
                return await threaded(a)
            for n in ("members_collected", "partitions_collected"):
                received(n, getattr(a, n, None))
            f = a.start({t: list(ps) for t, ps in case["seed"].items()})
            return f
        a = None
        early = []

        def received(n, ev):
            """Whoever waits for the first notification finds it allocated over."""
            if ev is None:
                return
            old = ev.set

            def f():
                try:
                    if n == "members_collected":
                        now, have, last = s.children(group + "/members"), a.members, calls and calls[-1][0]
                    else:
                        now, have = json.loads(s.nodes[group + "/partitions"][0].decode() or "[]"), a.partitions
                        last = calls and calls[-1][1]
                except (AttributeError, KeyError):
                    return old()
                if not ev.is_set() and now and (set(now) != set(have) or list(last) != sorted(now)):
                    early.append("%s is signalled when %r were received, over %r and allocated over %r" % (n, now, have, last))
                return old()
            ev.set = f

        async def failing(a):
            x = RuntimeError("zk " + case["fail"])
            if case["fail"] == "unstarted":
                return never(a, x)
            s.fail[case["fail"]] = x
            if case["fail"] == "start":
                s.connect = lambda c: c.notify(KazooState.CONNECTED)

                def boom(c):
                    c.notify(KazooState.CONNECTED)
                    raise x
                s.fail.clear()
                s.connect = boom
            before = len(s.log)
            try:
                await finish(a.start({t: list(ps) for t, ps in case["seed"].items()}))
            except RuntimeError as e:
                return None if e is x else "start reports %r" % e
            ops = [o[1] for o in s.log[before:]]
            if case["fail"] in ops or case["fail"] == "start":
                return "an error of %s is not reported by start" % case["fail"]
            return None

        def never(a, x):
            """The connection cannot even be started, so its state never changes."""
            import asyncio
            out = []
            loop = asyncio.get_event_loop()

            def boom(c):
                raise x
            s.connect = boom

            def body():
                asyncio.set_event_loop(loop)
                try:
                    out.append(a.start({}))
                except BaseException as e:
                    out.append(e)
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join(5)
            if t.is_alive():
                s.clients[-1].notify(KazooState.CONNECTED)
                t.join(5)
                return "start waits for ever for a connection that could not be started"
            if isinstance(out[0], BaseException):
                return "start raises %r" % out[0]
            if not out[0].done() or out[0].exception() is not x:
                return "an error of starting the connection is not reported by start"
            return None

        async def threaded(a):
            s.defer = []
            out = []

            def run():
                out.append(a.start({t: list(ps) for t, ps in case["seed"].items()}))
            # the future belongs to this thread's loop: only its state is looked at
            import asyncio
            loop = asyncio.get_event_loop()

            def body():
                asyncio.set_event_loop(loop)
                try:
                    run()
                except BaseException as e:
                    out.append(e)
            s.connect = lambda c: None
            t = threading.Thread(target=body, daemon=True)
            t.start()

            def ended(wait=.02):
                t.join(wait)
                return not t.is_alive()
            if ended():
                return "start finishes before the connection is there"
            early = [o[1] for o in s.log if o[1] not in ("start", "add_listener")]
            if early:
                return "before the connection is there start does %r" % early
            s.clients[-1].notify(KazooState.CONNECTED)
            limit = time.time() + 5
            while time.time() < limit and not any(o[1] == "release" for o in s.log):
                time.sleep(.002)
            time.sleep(.01)
            if ended(.01):
                return "start finishes before members and partitions were received"
            pend = list(s.defer)
            kids = [(f, x) for f, x in pend if not isinstance(x[0], (bytes, type(None)))]
            data = [(f, x) for f, x in pend if isinstance(x[0], (bytes, type(None)))]
            first, second = (kids, data) if case["order"] else (data, kids)
            s.defer = None
            for f, x in first:
                f(*x)
            if ended():
                return "start finishes before %s were received" % ("partitions" if case["order"] else "members")
            for f, x in second:
                f(*x)
            t.join(5)
            if t.is_alive():
                s.clients[-1].notify(KazooState.CONNECTED)
                return "start does not finish though members and partitions were received"
            if isinstance(out[0], BaseException):
                return "start raises %r" % out[0]
            return None

        r = net.run(main)
        if r is None or isinstance(r, str):
            return r
        if not r.done() or r.exception() is not None:
            return "start gives %r" % (r.exception() if r.done() else "an unfinished future")
        if early:
            return early[0]
        if set(str(s.clients[-1].hosts).split(",")) != {"z1:1", "z2:2"}:
            return "the connection is to %r" % (s.clients[-1].hosts,)
        mine = group + "/members/me"
        if mine not in s.nodes:
            return "start does not join the group"
        stored = set(json.loads(s.nodes[group + "/partitions"][0].decode() or "[]"))
        want = set(case["stored"] or []) | {"%s:%d" % (t, p) for t, ps in case["seed"].items() for p in ps}
        if stored != want:
            return "the stored partitions are %r instead of %r" % (stored, want)
        members = set(case["others"]) | {"me"}
        parts = want

        def current(what):
            if not members and not parts:
                return None
            if not calls or calls[-1] != (sorted(members), sorted(parts)):
                return "%s: last allocated over %r instead of %r" % (
                    what, calls[-1:] and calls[-1], (sorted(members), sorted(parts)))
            n = len(calls)
            keep = list(calls)
            w = {t: list(v) for t, v in own(sorted(members), sorted(parts)).get("me", {}).items()}
            calls[:] = keep
            if snapshot(a) != w:
                return "%s: the allocation is %r instead of %r" % (what, snapshot(a), w)
            if not marks or marks[-1] != (n, w):
                return "%s: positions are not marked after the rebalance (%r)" % (what, marks[-1:])
            if len(marks) != n:
                return "%s: %d rebalances but positions marked %d times" % (what, n, len(marks))
        d = current("after start")
        if d:
            return d
        for k, e in enumerate(case["events"]):
            n = len(calls)
            changed = False
            if e[0] == "join":
                changed = e[1] not in members
                members.add(e[1])
                if changed:
                    s.make(group + "/members/" + e[1], b"", 1)
            elif e[0] == "leave":
                changed = e[1] in members
                members.discard(e[1])
                if changed:
                    s.drop(group + "/members/" + e[1])
            elif e[0] == "swap":
                # one leaves and another joins before anyone is told
                if e[1] in members and e[2] not in members:
                    changed = True
                    members = (members - {e[1]}) | {e[2]}
                    told, s.child_w = s.child_w, []
                    s.drop(group + "/members/" + e[1])
                    s.child_w = told
                    s.make(group + "/members/" + e[2], b"", 1)
            elif e[0] == "gone":
                # the set's node is removed, and another member may be the first to make it again
                path = group + "/partitions"

                def first(p):
                    s.on_create = None
                    if p == path:
                        s.make(path, json.dumps(e[1]).encode())
                if e[1] is not None:
                    changed, parts = set(e[1]) != parts, set(e[1])
                    s.on_create = first
                s.defer = []
                s.drop(path)
                try:
                    while s.defer:
                        f, x = s.defer.pop(0)
                        f(*x)
                except Exception as x:
                    return "event %d %r: the notification raises %r" % (k, e, x)
                s.defer = None
                if s.on_create is not None:
                    return "event %d %r: the set is not made again" % (k, e)
                if set(json.loads(s.nodes[path][0].decode() or "[]")) != parts:
                    return "event %d %r: the set made again holds %r" % (k, e, s.nodes[path][0])
            elif e[0] == "put":
                changed, parts = set(e[1]) != parts, set(e[1])
                s.put(group + "/partitions", json.dumps(e[1]).encode())
            elif e[0] in ("add", "remove"):
                items = {"%s:%d" % (t, p) for t, ps in e[1].items() for p in ps}
                new = parts | items if e[0] == "add" else parts - items
                changed, parts = new != parts, new
                (a.add_partitions if e[0] == "add" else a.remove_partitions)({t: list(ps) for t, ps in e[1].items()})
            elif e[0] == "renotify":
                s.touched(group + "/partitions", False)
                s.touched(group + "/members/me", True)
            elif e[0] == "lost":
                s.clients[-1].notify(KazooState.SUSPENDED)
                s.clients[-1].notify(KazooState.CONNECTED)
            if (len(calls) - n) != (1 if changed else 0):
                return "event %d %r: %d rebalances, the state %s" % (
                    k, e, len(calls) - n, "changed" if changed else "did not change")
            d = current("after event %d %r" % (k, e))
            if d:
                return d
        return None


class C23:
    rule = ("stored sets of 0-6 items (or nothing stored), 1-4 add/remove operations by two clients, with the other "
            "client changing the set at the moment the lock is taken and right after it is released")
    ITEMS = ["t:0", "t:1", "U.v:10", "é:3", "a\"b:0", "x y:7", "w:12345"]

    @staticmethod
    def gen(rng, size, i):
        sub = lambda: [x for x in C23.ITEMS if rng.random() < rng.choice([.1, .3, .6])]
        if rng.random() < .05:
            return {"away": rng.choice(["LOST", "SUSPENDED"]), "seed": {"t": rng.sample(range(4), 2), "u": [0]},
                    "add": rng.random() < .5, "parts": {rng.choice("tuv"): rng.sample(range(5), rng.choice([0, 1, 2]))}}
        return {"stored": rng.choice([None, None, sub(), sub(), []]), "ops": [
            {"op": rng.choice(["add", "add", "remove"]), "items": sub(), "who": rng.choice([0, 0, 1]),
             "before": sub() if rng.random() < .4 else None, "after": sub() if rng.random() < .4 else None}
            for _ in range(rng.choice([1, 2, 3, 4]))]}

    @staticmethod
    def away(case):
        """The partitions are changed through an allocator while its connection is away."""
        s = zk.Server()
        names = lambda d: {"%s:%d" % (t, p) for t, ps in d.items() for p in ps}

        async def main():
            a = importlib.import_module("kiel.zookeeper.allocator").PartitionAllocator(
                ["z:1"], "g", "me", lambda ms, ps: {m: {} for m in ms})
            await finish(a.start(case["seed"]))
            mark = len(s.log)
            s.clients[-1].notify(getattr(KazooState, case["away"]))
            change = a.add_partitions if case["add"] else a.remove_partitions
            t = threading.Thread(target=lambda: change({t: list(ps) for t, ps in case["parts"].items()}), daemon=True)
            t.start()
            t.join(.02)
            early, gone = [o[1] for o in s.log[mark:]], not t.is_alive()
            s.clients[-1].notify(KazooState.CONNECTED)
            t.join(5)
            if early or gone and names(case["parts"]):
                return "with the connection %s a change of the partitions does %r" % (case["away"], early)
            if t.is_alive():
                return "once the connection is back a waiting change of the partitions is not made"
            old, new = names(case["seed"]), names(case["parts"])
            want = old | new if case["add"] else old - new
            got = set(json.loads(s.nodes["/kiel/groups/g/partitions"][0].decode()))
            if got != want:
                return "the stored partitions are %r instead of %r" % (got, want)
        return net.run(main)

    @staticmethod
    def run(case):
        if "away" in case:
            return C23.away(case)
        s = zk.Server()
        SS = importlib.import_module("kiel.zookeeper").SharedSet
        import kazoo.client
        path = "/p/set"
        seen = [[], []]
        cl = [kazoo.client.KazooClient() for _ in range(2)]
        sets = [SS(cl[k], path, seen[k].append) for k in range(2)]
        if case["stored"] is not None:
            s.make_all(path)
            s.put(path, json.dumps(case["stored"]).encode())
        for x in sets:
            x.start()
        model = set(case["stored"] or [])

        def read():
            raw = s.nodes[path][0]
            if not isinstance(raw, bytes):
                raise AssertionError("stored %r" % (raw,))
            v = json.loads(raw.decode("utf-8") or "[]")
            if not isinstance(v, list) or len(set(v)) != len(v):
                raise AssertionError("stored %r" % (raw,))
            return set(v)
        for k in range(2):
            if seen[k] != [model]:
                return "the watcher is given %r instead of %r at the start" % (seen[k], model)
        for n, o in enumerate(case["ops"]):
            cur = read()
            if cur != model:
                return "op %d: stored %r instead of %r" % (n, cur, model)
            o = dict(o)
            flip = set(o["after"] or [])

            def acquired(lock, o=o):
                if lock.path == path + "/lock" or True:
                    if o["before"] is not None:
                        v = set(o["before"]) | (read() - set(C23.ITEMS[:2]))
                        model.clear()
                        model.update(v)
                        s.put(path, json.dumps(sorted(v)).encode())
                        o["before"] = None
                    base.clear()
                    base.update(model)
                    writes.clear()

            def released(lock, o=o):
                if o["after"] is not None:
                    v = read() ^ set(o["after"])
                    s.put(path, json.dumps(sorted(v)).encode())
                    post.append(v)
                    o["after"] = None
            base, post, writes = set(model), [], []
            s.on_acquire = lambda l, f=acquired: f(l)
            s.on_release = lambda l, f=released: f(l)
            mark = len(s.log)
            items = set(o["items"])
            given = set(items)
            x = sets[o["who"]]
            (x.add_items if o["op"] == "add" else x.remove_items)(given)
            s.on_acquire = s.on_release = None
            if given != items:
                return "op %d: the given set is changed" % n
            log = s.log[mark:]
            if len([e for e in log if e[1] == "acquire"]) < 1:
                return "op %d: no lock is taken" % n
            new = base | items if o["op"] == "add" else base - items
            sets_ = [e for e in log if e[1] == "set"]
            if bool(sets_) != (new != base):
                return "op %d: %d writes from %r to %r" % (n, len(sets_), base, new)
            for e in log:
                if e[1] in ("get", "set") and not e[-1]:
                    return "op %d: %s without the lock" % (n, e[1])
            model = set(post[-1]) if post else new
            if post and not (post[-1] == new ^ flip):
                return "op %d: stored %r before the lock was released instead of %r" % (
                    n, post[-1] ^ flip, new)
            if read() != model:
                return "op %d (%s %r): stored %r instead of %r" % (n, o["op"], items, read(), model)
            for k in range(2):
                if seen[k][-1] != model and not (seen[k][-1] is None):
                    return "op %d: the watcher is given %r instead of %r" % (n, seen[k][-1], model)
        x = sets[0]
        for st in (model, set(), set(C23.ITEMS)):
            b = x.serialize(st)
            if not isinstance(b, bytes) or sorted(json.loads(b.decode("utf-8"))) != sorted(st):
                return "%r is serialized as %r" % (st, b)
            if x.deserialize(b) != st:
                return "%r is deserialized as %r" % (b, x.deserialize(b))
        for nothing in (b"", None):
            if x.deserialize(nothing) != set():
                return "%r is deserialized as %r" % (nothing, x.deserialize(nothing))
        s.drop(path)
        if seen[0][-1] is not None:
            return "the watcher is given %r when the node is gone" % (seen[0][-1],)


def rngless(n, x):
    return [x.ConnectionLoss, x.SessionExpiredError, x.OperationTimeoutError, RuntimeError][n % 4]()


class C24:
    rule = ("any prior state of the node (absent, ours, another session's, path missing), other members coming and "
            "going, join and leave in any sequence")

    @staticmethod
    def gen(rng, size, i):
        return {"name": rng.choice(["me", "host:1234", "é", "a b"]), "path": rng.choice(["/g/members", "/kiel/groups/x/m"]),
                "prior": rng.choice(["none", "ours", "other", "other", "persistent"]), "root": rng.random() < .8,
                "ops": [rng.choice(["join", "join", "leave", "other+", "other-", "steal", "expire", "vanish", "lost"])
                        for _ in range(rng.choice([1, 2, 3, 5]))],
                "watch": rng.random() < .8,
                "alloc": [rng.choice([None, None, "delete", "stop", "close"]), rng.random() < .3, rng.random() < .5]
                if rng.random() < .12 else None}

    @staticmethod
    def allocator(case):
        """An allocator, of a grouped consumer or on its own, is started and stopped."""
        from .p_prod import world
        s = zk.Server()
        fail, vanish, consumer = case["alloc"]

        async def main():
            if consumer:
                w = world([1], {"t": {0: 1, 1: 1}})
                w.on["group_coordinator"] = lambda b, v, p, c: {
                    "error_code": 0, "coordinator_id": 1, "coordinator_host": "h", "coordinator_port": 1}
                y = kiel("clients.grouped").GroupedConsumer(["h1:9001"], "g", ["z:1"])
                x = kiel("clients.grouped").GroupedConsumer(["h1:9001"], "g", ["z:1"])
                if x.name == y.name:
                    return "two consumers are both named %r" % (x.name,)
                await finish(x.connect())
                stop = x.close
            else:
                x = importlib.import_module("kiel.zookeeper.allocator").PartitionAllocator(
                    ["z:1"], "g", case["name"], lambda ms, ps: {m: {} for m in ms})
                await finish(x.start({"t": [0, 1]}))
                stop = x.stop
            path = "/kiel/groups/g/members"
            mine = s.children(path)
            if len(mine) != 1 or s.nodes[path + "/" + mine[0]][1] != s.clients[-1].client_id[0]:
                return "after starting the members are %r" % (mine,)
            s.make(path + "/other", b"", 7)
            if vanish:
                s.drop(path + "/" + mine[0])
            boom = RuntimeError("zk") if fail else None
            if fail:
                s.fail[fail] = boom
            mark = len(s.log)
            try:
                await finish(stop())
                if boom is not None:
                    return "stopping reports nothing though %s fails" % fail
            except RuntimeError as e:
                if e is not boom:
                    raise
            ops = [(o[1],) + o[2:-1] for o in s.log[mark:]]
            want = [("delete", path + "/" + mine[0]), ("stop",), ("close",)]
            if boom is None and ops != want or fail == "delete" and ops[:1] != want[:1]:
                return "stopping does %r" % (ops,)
            if boom is None and s.children(path) != ["other"]:
                return "after stopping the members are %r" % (s.children(path),)
        return net.run(main)

    @staticmethod
    def run(case):
        if case.get("alloc"):
            return C24.allocator(case)
        s = zk.Server()
        P = importlib.import_module("kiel.zookeeper").Party
        import kazoo.client
        c = kazoo.client.KazooClient()
        me = c.client_id[0]
        seen = []
        p = P(c, case["name"], case["path"], lambda x: seen.append(list(x)))
        node = case["path"] + "/" + case["name"]
        if case["root"] or case["watch"]:
            s.make_all(case["path"])
        prior = case["prior"] if case["path"] in s.nodes else "none"
        if prior != "none":
            s.make(node, b"", {"ours": me, "other": 7, "persistent": None}[prior])
        if case["watch"]:
            p.start()
            if [sorted(x) for x in seen] != [sorted(s.children(case["path"]))]:
                return "the watcher is given %r at the start" % (seen,)
        nother, vanishing = 0, False
        if case["ops"] and case["watch"] and case["prior"] == "none" and not case["root"]:
            pass
        for n, o in enumerate(case["ops"]):
            mark, nseen = len(s.log), len(seen)
            ver = s.nodes[node] if node in s.nodes else None
            before = {q: (v[1], v[0]) for q, v in s.nodes.items() if q != node}
            if o == "join":
                owner = ver[1] if ver else None
                try:
                    p.join()
                except Exception as x:
                    return "op %d: joining raises %r" % (n, x)
                if vanishing and s.on_commit is None:
                    vanishing, owner, ver = False, None, None
                    if s.nodes.get(node, [0, 0])[1] != me:
                        return "op %d: not joined as the other session's node vanished meanwhile" % n
                    continue
                if node not in s.nodes:
                    return "op %d: no node after joining" % n
                if s.nodes[node][1] != me:
                    return "op %d: after joining the node is owned by %r" % (n, s.nodes[node][1])
                ops = [e[1] for e in s.log[mark:] if e[1] in ("create", "delete", "commit", "set")]
                if ver is not None and owner == me and (ops or s.nodes[node] is not ver):
                    return "op %d: a node that is ours already is not kept: %r" % (n, ops)
                if ver is not None and owner != me and ops != ["commit"]:
                    return "op %d: a node of another session is replaced by %r" % (n, ops)
                if ver is None and any(e in ops for e in ("delete",)):
                    return "op %d: %r on a node that is absent" % (n, ops)
            elif o == "lost":
                # the connection is lost while leaving
                import kazoo.exceptions
                boom = s.fail["delete"] = rngless(n, kazoo.exceptions)
                try:
                    p.leave()
                    if ver is not None:
                        return "op %d: leaving reports nothing though it fails" % n
                except type(boom) as x:
                    if x is not boom:
                        raise
                finally:
                    del s.fail["delete"]
            elif o == "leave":
                p.leave()
                if node in s.nodes:
                    return "op %d: the node is still there after leaving" % n
            elif o == "other+":
                if case["path"] in s.nodes:
                    nother += 1
                    s.make(case["path"] + "/o%d" % nother, b"", 9)
            elif o == "other-":
                s.expire(9)
            elif o == "vanish":
                # at the next transaction the other session's node has just gone
                vanishing = True

                def gone():
                    if node in s.nodes and s.nodes[node][1] != me:
                        s.on_commit = None
                        s.drop(node)
                s.on_commit = gone
            elif o == "steal":
                if node in s.nodes:
                    s.drop(node)
                if case["path"] in s.nodes:
                    s.make(node, b"", 8)
            elif o == "expire":
                s.expire(me)
            after = {q: (v[1], v[0]) for q, v in s.nodes.items() if q != node}
            if o in ("join", "leave") and {q: v for q, v in after.items() if q in before} != before:
                return "op %d: other nodes are changed" % n
            if o == "leave" and after != before:
                return "op %d: leaving changes other nodes" % n
            if case["watch"] and case["path"] in s.nodes and seen and sorted(seen[-1]) != sorted(s.children(case["path"])):
                return "op %d: the last notification is %r instead of %r" % (n, seen[-1], s.children(case["path"]))
