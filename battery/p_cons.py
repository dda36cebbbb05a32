"""C12-C15: consumers, at the wire."""
import asyncio
import collections
import datetime
import importlib
import json
import time

from . import net, wire, zk
from .net import finish, settle
from .p_prod import world, kiel
from .wire import raw

UNKNOWN = [99, -7, 13]
NODES = [0, 1, 2, 3, 12]


class Log:
    """Simulated partitions: what the brokers answer to offset and fetch."""

    def __init__(self, w):
        self.w = w
        self.start = {}         # (topic, p) -> (code, [offsets])
        self.fetch = {}         # (topic, p) -> (code, messages)
        self.order = lambda x: x
        self.asked = []
        w.on["offset"] = self.on_offset
        w.on["fetch"] = self.on_fetch

    def on_offset(self, b, v, peer, corr):
        out = []
        for t in v["topics"]:
            n = t["name"].decode()
            ps = []
            for p in t["partitions"]:
                c, offs = self.start.get((n, p["partition_id"]), (0, [0]))
                ps.append({"partition_id": p["partition_id"], "error_code": c, "offsets": offs})
            out.append({"name": n, "partitions": self.order(ps)})
        return {"topics": out}

    def on_fetch(self, b, v, peer, corr):
        out = []
        for t in v["topics"]:
            n = t["name"].decode()
            ps = []
            for p in t["partitions"]:
                c, ms = self.fetch.get((n, p["partition_id"]), (0, []))
                ps.append({"partition_id": p["partition_id"], "error_code": c, "highwater_mark_offset": 9,
                           "message_set": ms})
            out.append({"name": n, "partitions": self.order(ps)})
        return {"topics": out}


def asked(log, api, field):
    """{(node, topic, partition): [field...]}"""
    out = {}
    for node, a, corr, v, peer in log:
        if a == api:
            for t in v["topics"]:
                for p in t["partitions"]:
                    out.setdefault((node, t["name"].decode(), p["partition_id"]), []).append(p[field])
    return out


def layout(rng, ids, names=("t", "U.v-1_x", "w")):
    return {t: {str(p): rng.choice(ids) for p in rng.sample(range(9), rng.choice([1, 1, 2, 3, 4, 5]))}
            for t in names[:rng.choice([1, 2, 3])]}


def topo(d):
    return {t: {int(p): l for p, l in ps.items()} for t, ps in d.items()}


async def grouped(w, ids, alloc, **kw):
    """A grouped consumer that is allocated exactly `alloc`."""
    zk.Server()
    G = kiel("clients.grouped")
    c = G.GroupedConsumer(["h%d:%d" % (ids[0], 9000 + ids[0])], "grp", ["zk1:2181"],
                          partition_allocator=lambda ms, ps: collections.defaultdict(
                              dict, {m: alloc() for m in ms}), **kw)
    return c


class C12:
    rule = ("single and grouped consumers, 1-4 brokers, topics of 1-5 partitions under any leaders, any tracked "
            "positions and limits; unknown, late-appearing and unallocated topics; closing")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3, 4]))
        topics = layout(rng, ids)
        return {"ids": ids, "topics": topics, "kind": rng.choice(["single", "single", "grouped"]),
                "pos": {t: {p: rng.choice([0, 1, 5, 2 ** 40, 77, None]) for p in topics[t]} for t in topics},
                "limit": rng.choice([1, 2, 7, 1000, 1024 * 1024, 2 ** 31 - 1, 1000003]), "wait": rng.choice([0, 1000, 31]),
                "min": rng.choice([0, 1, 9]), "seq": [rng.choice(sorted(topics) + ["x", "late"]) for _ in range(3)],
                "alloc": {t: [p for p in topics[t] if rng.random() < .6] for t in topics},
                "msgs": rng.choice([0, 0, 2]),
                "ahead": [[t, rng.random() < .5] for t in sorted(topics) if rng.random() < .2]}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            pos = {}
            for t in case["pos"]:
                for p, o in case["pos"][t].items():
                    # None: the broker knows of no offset
                    pos[t, int(p)] = o or 0
                    L.start[t, int(p)] = (0, [o] if o is not None else [])
            kw = dict(max_wait_time=case["wait"], min_bytes=case["min"], max_bytes=case["limit"])
            if case["kind"] == "single":
                c = kiel("clients.single").SingleConsumer(
                    ["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])], **kw)
                alloc = None
                await finish(c.connect())
            else:
                alloc = {t: [int(p) for p in ps] for t, ps in case["alloc"].items()}
                for t, front in case.get("ahead", ()):
                    # the group knows of a partition the metadata does not list yet
                    alloc[t].insert(0 if front else len(alloc[t]), 70)
                from .p_group import Group
                g = Group(w, case["ids"][-1])
                g.offsets = {k: (0, o) for k, o in pos.items()}
                c = await grouped(w, case["ids"], lambda: alloc, **kw)
                await finish(c.connect())
            w.topics["late"] = {3: case["ids"][0]}
            pos["late", 3] = 0
            L.start["late", 3] = (0, [0])
            known = set(case["topics"])
            for t in case["seq"]:
                if alloc is None:
                    parts = list(w.topics.get(t, {}))
                else:
                    parts = [p for p in alloc.get(t, []) if p in w.topics.get(t, {})]
                for p in parts:
                    ms = [[pos[t, p] + k, None, json.dumps("m%d" % k)] for k in range(case["msgs"])]
                    L.fetch[t, p] = (0, ms)
                mark = len(w.log)
                got = await finish(c.consume(t))
                fetches = [x for x in w.log[mark:] if x[1] == "fetch"]
                ahead = alloc is not None and 70 in alloc.get(t, ())
                again = bool([x for x in w.log[mark:] if x[1] == "metadata"])
                if again != (ahead or not parts) and (alloc is not None or not again):
                    return "topic %s: metadata is %srefreshed" % (t, "" if again else "not ")
                if not parts:
                    if fetches or got != []:
                        return "topic %s without partitions gives %r and %d requests" % (t, got, len(fetches))
                    if not [x for x in w.log[mark:] if x[1] == "metadata"]:
                        return "metadata is not refreshed for topic %s" % t
                    if t not in known and t in w.topics:
                        known.add(t)
                    continue
                by = {}
                for p in parts:
                    by.setdefault(w.topics[t][p], []).append(p)
                if sorted(x[0] for x in fetches) != sorted(by):
                    return "fetch requests go to %r instead of %r" % ([x[0] for x in fetches], sorted(by))
                for node, api, corr, v, peer in fetches:
                    if (v["replica_id"], v["max_wait_time"], v["min_bytes"]) != (-1, case["wait"], case["min"]):
                        return "fetch header %r" % (v,)
                    if [x["name"] for x in v["topics"]] != [t.encode()]:
                        return "fetch of topics %r" % [x["name"] for x in v["topics"]]
                    ps = v["topics"][0]["partitions"]
                    if sorted(x["partition_id"] for x in ps) != sorted(by[node]):
                        return "broker %d is asked for partitions %r instead of %r" % (
                            node, [x["partition_id"] for x in ps], by[node])
                    for x in ps:
                        if x["max_bytes"] != case["limit"] // len(by[node]):
                            return "max_bytes is %d with limit %d over %d" % (x["max_bytes"], case["limit"], len(by[node]))
                        want = pos.get((t, x["partition_id"]), 0)
                        if x["offset"] != want:
                            return "partition %d of %s is fetched from %d instead of %d" % (
                                x["partition_id"], t, x["offset"], want)
                for p in parts:
                    if case["msgs"]:
                        pos[t, p] = pos[t, p] + case["msgs"]
            f = c.close()
            mark = len(w.log)
            try:
                r = await finish(c.consume(case["seq"][0]))
            except Exception:
                r = None
            if r or [x for x in w.log[mark:] if x[1] == "fetch"]:
                return "a closing consumer fetches"
            await finish(f)
        return net.run(main)


def deser(kind):
    if kind == "json":
        return None

    def f(v):
        if v is None:
            raise TypeError("no value")
        s = v if isinstance(v, str) else v.decode("latin1")
        if s.startswith("!"):
            raise {"v": ValueError, "k": KeyError, "r": RuntimeError, "o": OSError}.get(s[1:2], Exception)(s)
        if s.startswith("0"):
            return {"00": 0, "01": None, "02": "", "03": [], "04": False}[s[:2]]
        return s
    return f


VALS = ["a", "b", "!v", "!k", "!x", "00", "01", "02", "03", "04", "é", "m" * 50, "!r"]


def msgs(rng, size, base):
    out, o = [], base
    for _ in range(rng.choice([0, 1, 2, 3, size + 2])):
        out.append([o, rng.choice([None, "k"]), rng.choice(VALS) + str(rng.randrange(30))])
        o += rng.choice([1, 1, 1, 2, 10])
    if out and rng.random() < .12:
        for m in out:
            if rng.random() < .5:
                m[0] = rng.choice([-1, -5])
    return out


class C13:
    rule = ("1-3 rounds of fetches over 1-5 partitions on 1-3 brokers, 0-8 messages each with values that are falsy, "
            "fail to deserialize or carry negative offsets; positions read off the next request")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 1, 2, 3]))
        topics = layout(rng, ids, ("t", "u"))
        rounds = []
        for _ in range(rng.choice([1, 2, 3])):
            t = rng.choice(sorted(topics))
            rounds.append({"t": t, "ms": {p: msgs(rng, size, rng.choice([0, 3, 100])) for p in topics[t]},
                           "codes": {p: rng.choice([0, 0, 0, 0, 0, 4, 99]) for p in topics[t]}})
        return {"ids": ids, "topics": topics, "rounds": rounds, "flip": rng.random() < .4}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            if case["flip"]:
                L.order = lambda x: x[::-1]
            c = kiel("clients.single").SingleConsumer(
                ["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])], deserializer=deser("own"))
            await finish(c.connect())
            pos = collections.defaultdict(int)
            for rnd in case["rounds"] + [{"t": t, "ms": {}, "codes": {}} for t in sorted(case["topics"])]:
                t = rnd["t"]
                L.fetch = {(t, int(p)): (rnd["codes"][p], ms) for p, ms in rnd["ms"].items()}
                mark = len(w.log)
                got = await finish(c.consume(t))
                for k, v in asked(w.log[mark:], "fetch", "offset").items():
                    if v != [pos[k[1], k[2]]]:
                        return "partition %d of %s is at %r instead of %d" % (k[2], t, v, pos[k[1], k[2]])
                by = {}
                f = deser("own")
                for p in L.order(list(case["topics"][t])):
                    vals = by.setdefault(case["topics"][t][p], [])
                    if rnd["codes"].get(p):
                        continue
                    for o, k, v in rnd["ms"].get(p, []):
                        try:
                            x = f(v)
                        except Exception:
                            continue
                        if x:
                            vals.append(x)
                        if o >= 0:
                            pos[t, int(p)] = o + 1
                # each broker's messages stay in order, brokers in any order
                if not interleaved(got, list(by.values())):
                    return "consuming %s gives %r instead of %r" % (t, got, list(by.values()))
        return net.run(main)


def interleaved(got, parts):
    import itertools
    parts = [p for p in parts if p]
    return any(sum(map(list, o), []) == got for o in itertools.permutations(parts)) if len(parts) < 6 else \
        sorted(got) == sorted(sum(parts, []))


class C14:
    rule = ("fetch responses with any combination of error codes (all known ones, unknown and negative) over 1-5 "
            "partitions; deliveries, metadata refreshes and offset requests of this and the next consume")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 1, 2]))
        topics = layout(rng, ids, ("t", "u"))
        pool = rng.choice([wire.CODES + UNKNOWN, [0, 0, 0, rng.choice(wire.CODES + UNKNOWN)], [0, 1, 6], [1, 0]])
        codes = {p: rng.choice(pool) for p in topics["t"]}
        if i < 40:
            codes[sorted(codes)[0]] = (wire.CODES + UNKNOWN)[i % 34] if i < 34 else 0
        return {"ids": ids, "topics": topics, "codes": codes, "flip": rng.random() < .4}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            if case["flip"]:
                L.order = lambda x: x[::-1]
            c = kiel("clients.single").SingleConsumer(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])])
            await finish(c.connect())
            for t in case["topics"]:
                for p in case["topics"][t]:
                    L.start[t, int(p)] = (0, [5])
            for p, code in case["codes"].items():
                L.fetch["t", int(p)] = (code, [[5 + k, None, json.dumps("p%s.%d" % (p, k))] for k in range(2)])
            if "u" in case["topics"]:
                await finish(c.consume("u"))
            mark = len(w.log)
            got = await finish(c.consume("t"))
            want = ["p%s.%d" % (p, k) for p, code in case["codes"].items() if code == 0 for k in range(2)]
            if sorted(got) != sorted(want):
                return "with codes %r consume gives %r instead of %r" % (case["codes"], got, want)
            seg = [x[1] for x in w.log[mark:]]
            if bool(seg.count("metadata")) != any(x in wire.RETRIABLE for x in case["codes"].values()):
                return "with codes %r metadata is refreshed %d times" % (case["codes"], seg.count("metadata"))
            for p in case["codes"]:
                L.fetch["t", int(p)] = (0, [])
            for t in sorted(case["topics"], reverse=True):
                mark = len(w.log)
                await finish(c.consume(t))
                again = [x[1] for x in w.log[mark:]].count("offset")
                if bool(again) != (t == "t" and any(x == 1 for x in case["codes"].values())):
                    return "with codes %r on t, the offsets of %s are asked for %d times by the next consume" % (
                        case["codes"], t, again)
                if [x for x in w.log[mark:] if x[1] == "metadata"]:
                    return "metadata is refreshed again by a consume without errors"
        return net.run(main)


class C15:
    rule = ("start points (none, -1, -2, explicit, datetimes, timedeltas), 1-5 partitions under 1-4 leaders, any "
            "returned offsets including negative ones, any error codes; positions read off the fetch that follows")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3, 4]))
        topics = layout(rng, ids, ("t",))
        t0 = 1400000000
        start = rng.choice([None, -1, -2, -2, ["dt", rng.randrange(2 * 10 ** 9), rng.choice([0, 0, 1, 500000, 999999])],
                            ["td", rng.randrange(10 ** 6), rng.choice([0, 0, 500000, 999999])], ["td", 86400 * 3, 0],
                            ["dt", 0, 0], 1234567])
        pool = rng.choice([[0], [0], [0, 0, 0] + wire.CODES + UNKNOWN, [0, 6], [0, 1], [0, 5, 99]])
        return {"ids": ids, "topics": topics, "start": start,
                "answers": {p: [rng.choice(pool), [rng.choice([0, 1, 50, -1, 2 ** 40])] +
                                [rng.choice([0, 3])] * rng.choice([0, 0, 1])] for p in topics["t"]},
                "again": {p: rng.choice([0, 0, 1, 7, -1, 10 ** 6]) for p in topics["t"]},
                "none": [p for p in topics["t"] if rng.random() < .1],
                "boom": rng.random() < .15, "apart": rng.choice(ids) if rng.random() < .15 else None,
                "flip": rng.random() < .4, "tz": rng.choice(["UTC", "IST-5:30", "EST5EDT"])}

    @staticmethod
    def run(case):
        import os
        import time
        before = os.environ.get("TZ")
        os.environ["TZ"] = case.get("tz", "UTC")
        time.tzset()
        try:
            return C15.main(case)
        finally:
            if before is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = before
            time.tzset()

    @staticmethod
    def main(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            if case["flip"]:
                L.order = lambda x: x[::-1]
            S = kiel("clients.single").SingleConsumer
            if (S.BEGINNING, S.END) != (-2, -1):
                return "BEGINNING and END are %r" % ((S.BEGINNING, S.END),)
            calls = []

            class Failing(S):
                def determine_offsets(self, *a, **k):
                    calls.append(1)
                    if len(calls) == 1:
                        raise ZeroDivisionError("not determined")
                    return super(Failing, self).determine_offsets(*a, **k)
            c = (Failing if case.get("boom") else S)(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])])
            await finish(c.connect())
            st = case["start"]
            if case.get("boom"):
                try:
                    await finish(c.consume("t"))
                except ZeroDivisionError:
                    pass
                if w.of("fetch") or w.of("offset"):
                    return "after a failure to determine the offsets consume sends requests"
            away = case.get("apart")
            if away in topo(case["topics"])["t"].values() and away in c.cluster.conns:
                # no connection to one of the leaders for now
                conn = c.cluster.conns.pop(away)
                got = await finish(c.consume("t"))
                if got != [] or w.of("fetch"):
                    return "with a leader without connection consume gives %r" % (got,)
                c.cluster.conns[away] = conn
                w.log[:] = [x for x in w.log if x[1] not in ("offset", "fetch")]
            kind = st[0] if isinstance(st, list) else None
            arg = st
            if kind == "dt":
                arg = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=st[1], microseconds=st[2])
            elif kind == "td":
                arg = datetime.timedelta(seconds=st[1], microseconds=st[2])
            parts = topo(case["topics"])["t"]
            pos = {p: 0 for p in parts}
            for p, (code, offs) in case["answers"].items():
                L.start["t", int(p)] = (code, [] if p in case.get("none", ()) else offs)
            for attempt in range(3):
                before = time.time()
                mark = len(w.log)
                got = await finish(c.consume("t") if st is None else c.consume("t", start=arg))
                after = time.time()
                lo = hi = -1 if st is None else st
                if kind == "dt":
                    lo = hi = st[1]
                elif kind == "td":
                    d = st[1] + st[2] / 1e6
                    lo, hi = int(int(before) - d) - 1, int(after - d) + 1
                seen = {}
                codes = {int(p): a[0] for p, a in case["answers"].items()}
                if attempt == 2:
                    codes = {p: 0 for p in parts}
                offreq = [x for x in w.log[mark:] if x[1] == "offset"]
                for node, api, corr, v, peer in offreq:
                    if v["replica_id"] != -1:
                        return "replica id %d" % v["replica_id"]
                    for t in v["topics"]:
                        for p in t["partitions"]:
                            if t["name"] != b"t" or not lo <= p["time"] <= hi or p["max_offsets"] != 1:
                                return "offset request asks %r of %r (start %r)" % (p, t["name"], st)
                            seen.setdefault(p["partition_id"], []).append(node)
                if seen != {p: [l] for p, l in parts.items()}:
                    return "offsets are asked of %r instead of %r" % (seen, parts)
                fatal = [p for p, x in codes.items() if x and x not in wire.RETRIABLE]
                retri = [p for p, x in codes.items() if x in wire.RETRIABLE]
                fetch = asked(w.log[mark:], "fetch", "offset")
                if fatal:
                    if got != [] or fetch:
                        return "with offset codes %r consume gives %r and fetches %r" % (codes, got, sorted(fetch))
                    if attempt == 0 and not retri and [x for x in w.log[mark:] if x[1] == "metadata"]:
                        return "metadata is refreshed with offset codes %r" % codes
                else:
                    for p in parts:
                        o = L.start["t", p][1]
                        if codes[p] == 0 and o and o[0] >= 0:
                            pos[p] = o[0]
                    want = {(l, "t", p): [pos[p]] for p, l in parts.items()}
                    if fetch != want:
                        return "with offset answers %r the fetch starts at %r instead of %r" % (
                            case["answers"], fetch, want)
                    if attempt == 0 and bool([x for x in w.log[mark:] if x[1] == "metadata"]) != bool(retri):
                        return "metadata refresh with offset codes %r" % codes
                if not fatal and not retri:
                    break
                if attempt == 1:
                    # now every partition answers well
                    for n, p in enumerate(parts):
                        L.start["t", p] = (0, [1000 + n])
            mark = len(w.log)
            await finish(c.consume("t"))
            if [x for x in w.log[mark:] if x[1] == "offset"]:
                return "offsets are asked for again though they were determined"
            # out of range: the positions are determined anew, backwards too
            for p in parts:
                L.fetch["t", p] = (1 if p == min(parts) else 0, [])
            await finish(c.consume("t"))
            L.fetch.clear()
            for p, o in case.get("again", {}).items():
                L.start["t", int(p)] = (0, [o])
                pos[int(p)] = o if o >= 0 else pos[int(p)]
            if case.get("again"):
                mark = len(w.log)
                await finish(c.consume("t") if st is None else c.consume("t", start=arg))
                fetch = asked(w.log[mark:], "fetch", "offset")
                want = {(l, "t", p): [pos[p]] for p, l in parts.items()}
                if fetch != want:
                    return "determined again as %r, the fetch starts at %r instead of %r" % (case["again"], fetch, want)
        return net.run(main)
