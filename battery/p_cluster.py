"""C19, C20: the cluster's view and its connections, at the wire."""
import asyncio
import importlib

from . import net, wire
from .net import finish, settle, StreamClosedError
from .p_prod import world, kiel
from .p_cons import NODES
from .p_codec import build

# with these a topic or partition is usable all the same
CODES = [-1, 1, 2, 4, 6, 7, 8, 10, 14, 15, 16]


def meta_topics(rng, ids, complete, names):
    out = []
    for t in rng.sample(names, rng.choice([0, 1, 2, 3])):
        tc = rng.choice([0, 0, 0, rng.choice(CODES)]) if complete else rng.choice([0, 0, 0, 0, 9, 5])
        if rng.random() < .12:
            tc = 3
        ps = []
        for p in rng.sample(range(7), rng.choice([0, 1, 2, 3, 4])):
            leader = rng.choice(ids) if complete or rng.random() < .8 else rng.choice([55, -1])
            pc = rng.choice([0, 0, 0, 9, 9, 1, rng.choice(CODES)]) if complete or rng.random() < .8 else 5
            ps.append({"error_code": pc, "partition_id": p, "leader": -1 if pc == 5 and rng.random() < .7 else leader,
                       "replicas": [leader], "isrs": []})
        if tc == 3 and rng.random() < .7:
            ps = []
        out.append({"error_code": tc, "name": t, "partitions": ps})
    return out


def view(topics, conns):
    """(usable {t: [(p, leader)]}, incomplete names, undecided names)"""
    ok, miss, skip = {}, set(), set()
    for t in topics:
        if t["error_code"] == 3:
            continue
        if t["error_code"] == 9:
            miss.add(t["name"])
            skip.add(t["name"])
            continue
        for p in t["partitions"]:
            if p["error_code"] == 5 or p["leader"] not in conns:
                miss.add(t["name"])
                continue
            ok.setdefault(t["name"], []).append((p["partition_id"], p["leader"]))
    return ok, miss, skip


def compare(c, ok, skip):
    got = {t: list(ps) for t, ps in c.topics.items() if ps and t not in skip}
    want = {t: [p for p, _ in v] for t, v in ok.items() if t not in skip}
    if got != want:
        return "known partitions are %r instead of %r" % (got, want)
    for t, v in ok.items():
        for p, l in v:
            if c.get_leader(t, p) != l:
                return "leader of %s/%d is %r instead of %r" % (t, p, c.get_leader(t, p), l)
    if hasattr(c, "leaders"):
        got = {(t, p): l for t, ps in c.leaders.items() if t not in skip for p, l in ps.items()}
        want = {(t, p): l for t, v in ok.items() if t not in skip for p, l in v}
        if got != want:
            return "leaders are %r instead of %r" % (got, want)


class C19:
    rule = ("sequences of 1-4 metadata answers over 0-3 topics of 0-4 partitions with any error codes, absent and "
            "unconnected leaders, processed directly and by healing until complete")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3]))
        names = ["a", "B.c ", "d", "E-é"]
        rounds = []
        for _ in range(rng.choice([1, 2, 3])):
            seq = [{"topics": meta_topics(rng, ids, False, names), "down": rng.random() < .15}
                   for _ in range(rng.choice([0, 1, 2, 3]))]
            seq.append({"topics": meta_topics(rng, ids, True, names), "down": False})
            rounds.append(seq)
        return {"ids": ids, "rounds": rounds, "late": rng.random() < .4}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], {})
            ids = list(case["ids"])
            c = kiel("cluster").Cluster(["h%d:%d" % (ids[0], 9000 + ids[0])])
            T = wire.RESPONSES["metadata"]
            late = w.broker(99, "late", 1)
            w.listed = ids
            script, used = [], []

            def meta():
                if not script:
                    return {"brokers": [], "topics": []}
                m = script.pop(0)
                used.append(m)
                late.up = not m["down"]
                w.listed = ids + ([99] if m["down"] else [])
                return {"brokers": w.metadata()["brokers"], "topics": m["topics"]}
            w.meta = meta
            for n, seq in enumerate(case["rounds"]):
                script[:] = [dict(m) for m in seq]
                del used[:]
                mark = len(w.log)
                if n == 0:
                    await finish(c.start())
                else:
                    await finish(c.heal())
                # the first round that has nothing missing ends the healing
                exp = 0
                for m in seq:
                    exp += 1
                    ok, miss, skip = view(m["topics"], set(ids))
                    if not miss and not m["down"]:
                        break
                reqs = [x for x in w.log[mark:] if x[1] == "metadata"]
                if len(reqs) != exp:
                    return "round %d: metadata is asked for %d times instead of %d" % (n, len(reqs), exp)
                for x in reqs:
                    if x[3]["topics"]:
                        return "round %d: metadata of only %r is asked for" % (n, x[3]["topics"])
                d = compare(c, ok, skip)
                if d:
                    return "round %d: %s" % (n, d)
                for m in seq:
                    r = [build(T.fields[1][1][0], t) for t in m["topics"]]
                    for t, x in zip(r, m["topics"]):
                        t.name = x["name"]
                    got = c.process_topics(r)
                    ok, miss, skip = view(m["topics"], set(c.conns))
                    if set(got) != miss:
                        return "round %d: topics %r are reported incomplete instead of %r" % (n, got, miss)
                    d = compare(c, ok, skip)
                    if d:
                        return "round %d, processed directly: %s" % (n, d)
        return net.run(main)


class C20:
    rule = ("bootstrap lists of 1-5 hosts failing in every way, broker lists of 0-5 against 0-5 existing connections "
            "some closing, failures to connect, metadata requests against connections failing in turn")
    HOW = ["ok", "ok", "refuse", "oserror", "valueerror", "close", "garbage"]

    @staticmethod
    def gen(rng, size, i):
        kind = ["boot", "brokers", "meta", "heal", "overlap", "life"][i % 6]
        n = rng.choice([1, 2, 3, 4, 5])
        case = {"kind": kind, "hosts": [[rng.choice(["x", "y", "z.example"]) + str(k), rng.choice([None, 9092, 1234]),
                                         rng.choice(C20.HOW)] for k in range(n)]}
        ids = rng.sample(NODES + [7, 8], rng.choice([1, 2, 3, 4]))
        case["ids"] = ids
        if kind in ("brokers", "heal"):
            case["lists"] = []
            for _ in range(rng.choice([1, 2, 3])):
                case["lists"].append([[b, rng.choice(["ok", "ok", "ok", "refuse", "oserror"])]
                                      for b in rng.sample(NODES + [7, 8], rng.choice([0, 1, 2, 3, 5]))])
            case["closing"] = [b for b in ids if rng.random() < .3]
        if kind == "overlap":
            both = rng.sample(NODES + [7, 8], rng.choice([1, 2, 3, 4]))
            case["rounds"] = [[rng.choice([0, 1, 5]), rng.choice(["brokers", "heal"]), sorted(set(
                both + rng.choice([[], [], rng.sample(NODES, 2)])))] for _ in range(rng.choice([2, 2, 3]))]
            case["both"] = both
            case["slow"] = [rng.choice([1, 2, 9]) for _ in range(12)]
            case["down"] = {str(b): rng.choice(["refuse", "oserror"]) for b in both if rng.random() < .15}
            case["closing"] = [b for b in ids if rng.random() < .2]
        if kind == "life":
            case["wait"], case["fails"] = rng.choice([0, 0, 1, 5]), rng.random() < .3
        if kind == "meta":
            case["how"] = {str(b): rng.choice(["ok", "close", "garbage", "gone", "gone"]) for b in ids}
            case["of"] = rng.choice([None, None, [], ["a"], ["é", "b.c"]])
        return case

    @staticmethod
    def run(case):
        return net.run(lambda: C20.both(case))

    @staticmethod
    async def life(case):
        """A client of its own kind is connected and closed."""
        Client = kiel("clients.client").Client
        w = world(case["ids"], {})
        b = w.nodes[case["ids"][0]]
        bad, log = [], []

        def live():
            return [s for s in w.streams if s.peer is not None and not s.is_closed]

        class Mine(Client):
            def wind_down(self):
                async def f():
                    log.append(len(live()))
                    if not self.closing:
                        bad.append("a client that winds down is not marked as closing")
                    if case["wait"]:
                        await settle(case["wait"])
                    log.append(len(live()))
                    if case["fails"]:
                        raise KeyError("winding down")
                return asyncio.ensure_future(f())
        c = Mine(["%s:%d" % (b.host, b.port)])
        await finish(c.connect())
        n = len(live())
        if n != len(case["ids"]):
            return "connecting makes %d connections for brokers %r" % (n, case["ids"])
        try:
            await finish(c.close())
            if case["fails"]:
                return "closing does not report what winding down raised"
        except KeyError:
            if not case["fails"]:
                return "closing raises KeyError"
        await settle(10)
        if log != [n, n]:
            bad.append("winding down is done %d times, with %r of %d connections" % (len(log) // 2, log, n))
        if not case["fails"] and live():
            bad.append("connections stay open when the client is closed")
        return bad[0] if bad else None

    @staticmethod
    async def both(case):
        if case["kind"] == "life":
            return await C20.life(case)
        w = world(case["ids"], {})
        made = []
        bad = await C20.main(case, w, made)
        if bad is None and made[0].conns:
            live = [s for s in w.streams if s.peer is not None and not s.is_closed]
            mine = {id(c.stream) for c in made[0].conns.values() if hasattr(c, "stream")}
            made[0].stop()
            await settle(5)
            for s in live:
                if id(s) in mine and not s.is_closed:
                    return "a connection stays open when the cluster is stopped"
        return bad

    @staticmethod
    async def main(case, w, made):
        E, K = kiel("exc"), kiel("cluster")
        up = {"ok": True, "refuse": False, "close": True, "garbage": True, "oserror": OSError("no"),
              "valueerror": ValueError("no")}
        if case["kind"] == "boot":
            how = {}
            for k, (h, p, s) in enumerate(case["hosts"]):
                b = w.broker(1000 + k, h, p or 9092)
                b.up = up[s]
                how[1000 + k] = s
            w.listed = case["ids"]

            def on(b, v, peer, corr):
                s = how.get(b.node, "ok")
                return "close" if s == "close" else b"\0\0" if s == "garbage" else w.metadata()
            w.on["metadata"] = on
            c = K.Cluster(["%s:%d" % (h, p) if p else h for h, p, s in case["hosts"]])
            made.append(c)
            exc = None
            try:
                await finish(c.start())
            except net.Pending:
                raise
            except Exception as e:
                exc = e
            want = []
            for h, p, s in case["hosts"]:
                want.append((h, p or 9092))
                if s == "ok":
                    break
            else:
                if not isinstance(exc, E.NoBrokersError):
                    return "with no working bootstrap host start gives %r" % (exc,)
                return None if w.attempts == want else "hosts tried are %r instead of %r" % (w.attempts, want)
            if exc is not None:
                return "start raises %r" % (exc,)
            if w.attempts[:len(want)] != want:
                return "hosts tried are %r instead of %r" % (w.attempts[:len(want)], want)
            for b in case["ids"]:
                if b not in c or (c[b].host, c[b].port) != ("h%d" % b, 9000 + b):
                    return "broker %d has no connection to its host after start" % b
            if set(c) != set(case["ids"]):
                return "connections are %r" % set(c)
            live = sorted(s.peer.broker.node for s in w.streams if s.peer is not None and not s.is_closed)
            tried = {1000 + k for k, x in enumerate(case["hosts"][:len(want) - 1])}
            if [b for b in live if b not in tried] != sorted(case["ids"]):
                return "after start there are live streams to %r" % live
            return None
        c = K.Cluster(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])])
        made.append(c)
        await finish(c.start())
        if case["kind"] == "meta":
            asked = []

            topics = []

            def on(b, v, peer, corr):
                asked.append(b.node)
                topics.append([t.decode() for t in v["topics"]])
                s = case["how"][str(b.node)]
                return "close" if s == "close" else b"\0\0" if s == "garbage" else dict(
                    w.metadata(), topics=[{"error_code": 0, "name": "from%d" % b.node, "partitions": []}])
            w.on["metadata"] = on
            order = list(c)
            for b in case["ids"]:
                if case["how"][str(b)] == "gone":
                    c[b].close()
            exp, hit = [], None
            for b in order:
                s = case["how"][str(b)]
                if s != "gone":
                    exp.append(b)
                if s == "ok":
                    hit = b
                    break
            try:
                of = case.get("of")
                r = await finish(c.get_metadata() if of is None else c.get_metadata(topics=list(of)))
            except E.NoBrokersError:
                return None if hit is None and asked == exp else "no-brokers error after asking %r, %r expected" % (asked, exp)
            if hit is None:
                return "metadata without an answering broker is %r" % (r,)
            if topics != [of or []] * len(topics):
                return "metadata is asked for %r instead of %r" % (topics, of)
            if asked != exp or [t.name for t in r.topics] != ["from%d" % hit]:
                return "brokers asked are %r instead of %r" % (asked, exp)
            return None
        for b in NODES + [7, 8]:
            if b not in w.nodes:
                w.broker(b, "h%d" % b, 9000 + b)
        Br = wire.RESPONSES["metadata"].fields[0][1][0]
        for b in case["closing"]:
            c[b].close()
        if case["kind"] == "overlap":
            slow = list(case["slow"])
            w.slow = lambda: slow.pop(0) if slow else 1
            for b, s in case["down"].items():
                w.nodes[int(b)].up = up[s]
            before = {b: c[b] for b in c if b not in case["closing"]}
            w.meta = lambda: dict(w.metadata(), brokers=[
                {"broker_id": b, "host": "h%d" % b, "port": 9000 + b} for b in case["both"] if str(b) not in case["down"]])
            runs = []
            for turns, what, lst in case["rounds"]:
                bs = [{"broker_id": b, "host": "h%d" % b, "port": 9000 + b} for b in lst]
                if what == "brokers" or case["down"]:
                    runs.append(c.process_brokers([build(Br, b) for b in bs]))
                else:
                    runs.append(c.heal(build(wire.RESPONSES["metadata"], {"brokers": bs, "topics": []})))
                await settle(turns)
            for n, f in enumerate(runs):
                try:
                    await finish(f)
                except net.Pending:
                    raise
                except Exception as e:
                    return "with rounds %r overlapping, round %d raises %r" % (case["rounds"], n, e)
            await settle()
            healed = not case["down"] and any(x[1] == "heal" for x in case["rounds"])
            for b in case["both"]:
                if str(b) in case["down"]:
                    continue
                if b not in c and (healed or b not in case["closing"]):
                    return "broker %d, listed by every overlapping round, has no connection" % b
                if b in before and c[b] is not before[b]:
                    return "the connection of broker %d, listed by every overlapping round, is replaced" % b
            live = sorted(s.peer.broker.node for s in w.streams if s.peer is not None and not s.is_closed)
            kept = sorted(b for b in c if not c[b].closing)
            if live != kept:
                return "after overlapping rounds %r there are live streams to %r but connections to %r" % (
                    case["rounds"], live, kept)
            return None
        if case["kind"] == "brokers":
            for lst in case["lists"]:
                before = {b: c[b] for b in c}
                for b, s in lst:
                    w.nodes[b].up = up[s]
                n0 = len(w.attempts)
                got = await finish(c.process_brokers(
                    [build(Br, {"broker_id": b, "host": "h%d" % b, "port": 9000 + b}) for b, s in lst]))
                new = [(b, s) for b, s in lst if b not in before]
                if set(got) != {b for b, s in new if s != "ok"}:
                    return "brokers %r are reported missing with %r" % (got, lst)
                for b, s in new:
                    if (b in c) != (s == "ok"):
                        return "broker %d (%s): connection %s" % (b, s, b in c)
                    if s == "ok" and ((c[b].host, c[b].port) != ("h%d" % b, 9000 + b) or c[b].closing):
                        return "broker %d is connected to %r" % (b, (c[b].host, c[b].port))
                tried = w.attempts[n0:]
                if sorted(tried) != sorted(("h%d" % b, 9000 + b) for b, s in new):
                    return "connections attempted are %r for %r" % (tried, new)
                listed = {b for b, s in lst}
                for b, conn in before.items():
                    if b in listed:
                        if b not in c or c[b] is not conn:
                            return "the connection of broker %d is replaced" % b
                        if conn.closing and b not in case["closing"] and b not in gone(case, lst):
                            return "the connection of broker %d, which is listed, is aborted" % b
                    elif not conn.closing:
                        return "the connection of broker %d, no longer listed, is not aborted" % b
            return None
        # heal: closing connections are discarded and made anew
        before = {b: c[b] for b in c}
        w.listed = None
        for b in [b for b in w.nodes if b not in case["ids"]]:
            del w.nodes[b]
        if len(case["closing"]) == len(case["ids"]):
            try:
                await finish(c.heal())
            except E.NoBrokersError:
                return None
            return "healing without live connections raises nothing"
        await finish(c.heal())
        for b in case["ids"]:
            if b not in c or c[b].closing:
                return "broker %d has no live connection after healing" % b
            if (c[b] is before[b]) != (b not in case["closing"]):
                return "the connection of broker %d is %s" % (b, "kept" if c[b] is before[b] else "replaced")
        return None


def gone(case, lst):
    """brokers whose connections were aborted by an earlier list"""
    out = set()
    for l in case["lists"]:
        if l is lst:
            break
        out |= set(case["ids"] + NODES + [7, 8]) - {b for b, s in l}
    return out
