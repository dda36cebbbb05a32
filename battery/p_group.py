"""C16-C18: grouped consumers, at the wire and with a ZooKeeper stand-in."""
import asyncio
import collections
import importlib
import json

from . import net, wire, zk
from .net import finish, settle
from .p_prod import world, kiel
from .p_cons import Log, asked, layout, topo, grouped, NODES, UNKNOWN

FATAL = [c for c in wire.CODES + UNKNOWN if c and c not in wire.RETRIABLE]
RETRY = list(wire.RETRIABLE)


class Group:
    """What the coordinator answers."""

    def __init__(self, w, coord):
        self.w, self.coord = w, coord
        self.offsets = {}           # (topic, p) -> (code, offset)
        self.fetch_script = []      # per request: {p: code} | "close" (then offsets)
        self.commit_script = []     # per request: {topic: {p: code}} | "close"
        self.hook = None
        self.sparse = False
        self.order = lambda x: x
        w.on["group_coordinator"] = lambda b, v, p, c: {
            "error_code": 0, "coordinator_id": self.coord, "coordinator_host": "h", "coordinator_port": 1}
        w.on["offset_fetch"] = self.on_fetch
        w.on["offset_commit"] = self.on_commit

    def on_fetch(self, b, v, peer, corr):
        s = self.fetch_script.pop(0) if self.fetch_script else {}
        if s == "close":
            return "close"
        if self.hook:
            self.hook("offset_fetch")
        out = []
        for t in v["topics"]:
            n = t["name"].decode()
            ps = []
            for p in t["partitions"]:
                c, o = self.offsets.get((n, p), (0, 0))
                c = s.get(str(p), c)
                ps.append({"partition_id": p, "offset": o, "metadata": "m", "error_code": c})
            if ps or not self.sparse:
                out.append({"name": n, "partitions": self.order(ps)})
        return {"topics": out}

    def on_commit(self, b, v, peer, corr):
        s = self.commit_script.pop(0) if self.commit_script else {}
        if s == "close":
            return "close"
        return {"topics": self.order([
            {"name": t["name"].decode(), "partitions": self.order([
                {"partition_id": p["partition_id"],
                 "error_code": s.get(t["name"].decode(), {}).get(str(p["partition_id"]), 0)}
                for p in t["partitions"] if t["name"].decode() not in s.get("", ())])} for t in v["topics"]])}


def rebalance(i=[0]):
    """Another member joins or leaves the group."""
    s = zk.SERVER
    path = s.child_w[0][0]
    i[0] += 1
    s.make(path + "/other%d" % i[0], b"", 1)


class C16:
    rule = ("1-4 brokers, any allocation and coordinator; scripts of offset-fetch answers mixing success, load in "
            "progress, retriable and fatal codes and lost connections; rebalances between and during requests; "
            "out-of-range fetches; coordinator leaving the cluster")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3, 4]))
        topics = layout(rng, ids, ("t", "u"))
        steps = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            t = rng.choice(sorted(topics))
            script = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                script.append({p: rng.choice([0] + RETRY) for p in topics[t] if rng.random() < .7})
            if rng.random() < .2 and len(ids) > 1:
                script.append("close")
            elif rng.random() < .25:
                script.append({p: rng.choice([0, 0, rng.choice(FATAL), rng.choice(RETRY)]) for p in topics[t]})
            steps.append({"t": t, "script": script,
                          "offs": {p: rng.choice([0, 3, 10 ** 12, -1, 44]) for p in topics[t]},
                          "event": rng.choice([None, None, None, "rebalance", "during_offsets", "during_fetch",
                                               "range"])})
        return {"ids": ids, "topics": topics, "steps": steps, "coord": rng.choice(ids),
                "alloc": {t: [p for p in topics[t] if rng.random() < .8] or list(topics[t])[:1] for t in topics},
                "flip": rng.random() < .4, "leave": rng.random() < .15, "idle": rng.random() < .2,
                "sparse": rng.random() < .6}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            g = Group(w, case["coord"])
            g.sparse = case.get("sparse", False)
            if case["flip"]:
                g.order = lambda x: x[::-1]
            alloc = {t: [int(p) for p in ps] for t, ps in case["alloc"].items()}
            c = await grouped(w, case["ids"], lambda: alloc, autocommit=False)
            await finish(c.connect())
            if case.get("idle"):
                # a topic of which this consumer has no share
                got = await finish(c.consume("idle"))
                if got != [] or w.of("fetch"):
                    return "a topic that is not allocated gives %r" % (got,)
            synced, owed = set(), False
            for n, st in enumerate(case["steps"]):
                t = st["t"]
                parts = alloc[t]
                for p in case["topics"][t]:
                    g.offsets[t, int(p)] = (0, st["offs"][p])
                script = [s if s == "close" else {p: x for p, x in s.items() if int(p) in parts} for s in st["script"]]
                asks = t not in synced
                g.fetch_script = [dict(s) if isinstance(s, dict) else s for s in script] if asks else []
                rounds = script + [{}]
                used, outcome = 0, "ok"
                for s in rounds:
                    used += 1
                    if s == "close":
                        outcome = "lost"
                        break
                    if any(x and x not in wire.RETRIABLE for x in s.values()):
                        outcome = "fatal"
                        break
                    if not any(s.values()):
                        break
                ev = st["event"]
                fired = []

                def hook(what, ev=ev, fired=fired):
                    if not fired and ev == "during_offsets":
                        fired.append(1)
                        rebalance()
                g.hook = hook
                for p in parts:
                    L.fetch[t, p] = (1 if ev == "range" and p == parts[0] else 0, [])
                real = L.on_fetch

                def on_fetch(b, v, peer, corr, ev=ev, fired=fired, real=real):
                    if ev == "during_fetch" and not fired:
                        fired.append(1)
                        rebalance()
                    return real(b, v, peer, corr)
                w.on["fetch"] = on_fetch
                mark = len(w.log)
                got = await finish(c.consume(t))
                g.hook = None
                w.on["fetch"] = real
                reqs = [x for x in w.log[mark:] if x[1] == "offset_fetch"]
                if asks:
                    if len(reqs) != used:
                        return "step %d: %d offset fetches instead of %d (script %r)" % (n, len(reqs), used, script)
                elif reqs:
                    return "step %d: offsets are asked for again without reason" % n
                for node, api, corr, v, peer in reqs:
                    if node != case["coord"] or v["group_name"] != b"grp":
                        return "step %d: broker %d is asked for group %r" % (n, node, v["group_name"])
                    if [(x["name"].decode(), sorted(x["partitions"])) for x in v["topics"]] != [(t, sorted(parts))]:
                        return "step %d: offsets asked of %r instead of %s %r" % (n, v["topics"], t, parts)
                seen = [x[1] for x in w.log[mark:]]
                at = [k for k, a in enumerate(seen) if a == "offset_fetch"]
                for k, s in zip(at, rounds):
                    nx = at[at.index(k) + 1] if k != at[-1] else len(seen)
                    nm = seen[k:nx].count("metadata")
                    if s == "close" or any(x and x not in wire.RETRIABLE for x in s.values()):
                        owed = True         # perhaps, it is made later
                    elif owed:
                        owed = False
                    elif ev is None:
                        call = any(x in wire.RETRIABLE and x != 14 for x in s.values())
                        if bool(nm) != call:
                            return "step %d: with offset answers %r metadata is refreshed %d times" % (n, s, nm)
                if asks and outcome != "ok":
                    if got != []:
                        return "step %d: %s offsets give %r" % (n, outcome, got)
                    if outcome == "fatal" and hasattr(c, "offsets"):
                        s = rounds[used - 1]
                        order = [p for p in parts]
                        if case["flip"]:
                            order = order[::-1]
                        for p in order:
                            x = s.get(str(p), 0)
                            if x and x not in wire.RETRIABLE:
                                break
                            if not x and c.offsets[t][p] != st["offs"][str(p)]:
                                return "step %d: offset of partition %d before the fatal one is not kept" % (n, p)
                    synced.discard(t)
                    if fired:
                        synced.clear()
                    continue
                if asks:
                    fetch = asked(w.log[mark:], "fetch", "offset")
                    want = {(case["topics"][t][str(p)], t, p): [st["offs"][str(p)]] for p in parts}
                    if fetch != want:
                        return "step %d: fetches start at %r instead of %r" % (n, fetch, want)
                    synced.add(t)
                if ev == "range":
                    synced.discard(t)
                if fired:
                    synced.clear()
                if ev == "rebalance":
                    rebalance()
                    synced.clear()
            if case["leave"] and len(case["ids"]) > 1:
                # the coordinator leaves the cluster for good
                other = [b for b in case["ids"] if b != case["coord"]]
                for t in case["topics"]:
                    w.topics[t] = {p: (l if l in other else other[0]) for p, l in w.topics[t].items()}
                w.listed = other
                for _ in range(3):
                    rebalance()
                    await finish(c.cluster.heal())
                    r = await finish(c.consume(case["steps"][0]["t"]))
                    if r != []:
                        return "a lost coordinator gives %r" % (r,)
        return net.run(main)


class C17:
    rule = ("consumes of 1-3 topics with and without autocommit, manual commits; commit answers mixing success, "
            "retriable, fatal, unknown and metadata-too-large codes per partition, lost connections; "
            "coordinator leaving the cluster")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3]))
        topics = layout(rng, ids)
        steps = []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            op = rng.choice([["consume", rng.choice(sorted(topics))]] * 4 + [["commit"]] * 2 + [["rebalance"]])
            script = []
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                pool = rng.choice([[0, 12], RETRY + [0], FATAL + [0], [0, 6, 12, 99], [0, 0, 0, 99], [0, 16]])
                script.append({t: {p: rng.choice(pool) for p in topics[t]} for t in topics})
                if rng.random() < .1:
                    # an answer that names the topic but none of its partitions
                    script[-1][""] = [rng.choice(sorted(topics))]
            if rng.random() < .1 and len(ids) > 1:
                script.append("close")
            steps.append({"op": op, "script": script, "n": rng.choice([0, 1, 2])})
            if op[0] == "commit" and rng.random() < .5:
                steps[-1]["op"] = ["commit", rng.choice(["mine", "x" * 9])]
            if op[0] == "consume" and rng.random() < .25:
                # the offsets of the topic cannot be determined
                steps[-1]["bad"] = {rng.choice(sorted(topics[op[1]])): rng.choice(FATAL)}
        return {"ids": ids, "topics": topics, "steps": steps, "coord": rng.choice(ids), "auto": rng.random() < .6,
                "alloc": {t: [p for p in topics[t] if rng.random() < .8] or list(topics[t])[:1] for t in topics},
                "flip": rng.random() < .4, "leave": rng.random() < .15}

    @staticmethod
    def run(case):
        async def main():
            w = world(case["ids"], topo(case["topics"]))
            L = Log(w)
            g = Group(w, case["coord"])
            if case["flip"]:
                g.order = lambda x: x[::-1]
            alloc = {t: [int(p) for p in ps] for t, ps in case["alloc"].items()}
            c = await grouped(w, case["ids"], lambda: alloc, autocommit=case["auto"])
            await finish(c.connect())
            pos, marked = {}, set()
            for t in alloc:
                for p in alloc[t]:
                    pos[t, p] = 10
                    g.offsets[t, p] = (0, 10)
            synced = set()
            for n, st in enumerate(case["steps"]):
                g.commit_script = json.loads(json.dumps(st["script"]))
                mark = len(w.log)
                commits = True
                if st["op"][0] == "rebalance":
                    # positions are unknown now, those of the group may differ
                    rebalance()
                    marked.clear()
                    synced.clear()
                    for k in pos:
                        pos[k] += 5
                        g.offsets[k] = (0, pos[k])
                    continue
                if st["op"][0] == "consume":
                    t = st["op"][1]
                    bad = {p: x for p, x in st.get("bad", {}).items() if int(p) in alloc[t]}
                    if bad and t not in synced:
                        g.fetch_script = [bad]
                        got = await finish(c.consume(t))
                        if got != []:
                            return "step %d: undetermined offsets give %r" % (n, got)
                        if any(x[1] == "offset_commit" for x in w.log[mark:]):
                            return "step %d: a consume without offsets commits" % n
                        continue
                    for p in alloc[t]:
                        L.fetch[t, p] = (0, [[pos[t, p] + k, None, '"x"'] for k in range(st["n"])])
                        pos[t, p] += st["n"]
                    marked.add(t)
                    synced.add(t)
                    commits = case["auto"]
                    try:
                        got = await finish(c.consume(t))
                    except net.Pending:
                        raise
                    except Exception as e:
                        return "step %d: consume raises %r with commit answers %r" % (n, e, st["script"])
                    if len(got) != st["n"] * len(alloc[t]):
                        return "step %d: consume gives %r" % (n, got)
                else:
                    try:
                        await finish(c.commit_offsets(*st["op"][1:]))
                    except net.Pending:
                        raise
                    except Exception as e:
                        return "step %d: commit raises %r with answers %r" % (n, e, st["script"])
                reqs = [x for x in w.log[mark:] if x[1] == "offset_commit"]
                md = st["op"][1].encode() if st["op"][0] == "commit" and len(st["op"]) > 1 else None
                at = [j for j, x in enumerate(w.log[mark:]) if x[1] == "offset_commit"] + [len(w.log) - mark]
                if not commits:
                    if reqs:
                        return "step %d: commits without autocommit" % n
                    continue
                k, empty = 0, False
                while True:
                    if k >= len(reqs):
                        if k == 0 and not marked:
                            break
                        return "step %d: %d commit requests, another was expected (answers %r)" % (
                            n, len(reqs), st["script"])
                    node, api, corr, v, peer = reqs[k]
                    if node != case["coord"] or v["group"] != b"grp":
                        return "step %d: commit for %r goes to broker %d" % (n, v["group"], node)
                    got = {}
                    for t in v["topics"]:
                        nm = t["name"].decode()
                        if nm in got:
                            return "step %d: topic %s twice in a commit" % (n, nm)
                        got[nm] = sorted((p["partition_id"], p["offset"]) for p in t["partitions"])
                        if empty and any(p["metadata"] for p in t["partitions"]):
                            return "step %d: metadata is not empty after it was too large" % n
                        for p in t["partitions"]:
                            md = p["metadata"] if md is None else md
                            if not empty and p["metadata"] != md:
                                return "step %d, request %d: metadata is %r instead of %r" % (n, k, p["metadata"], md)
                    want = {t: sorted((p, pos[t, p]) for p in alloc[t]) for t in marked}
                    if got != want:
                        return "step %d, request %d: commits %r instead of %r" % (n, k, got, want)
                    s = st["script"][k] if k < len(st["script"]) else {}
                    k += 1
                    if s == "close":
                        break
                    again = call = False
                    for t in list(marked):
                        if t in s.get("", ()):
                            continue
                        cs = [s.get(t, {}).get(str(p), 0) for p in alloc[t]]
                        call = call or any(x in wire.RETRIABLE for x in cs)
                        if not any(cs):
                            marked.discard(t)
                        if any(x in wire.RETRIABLE for x in cs):
                            again = True
                        if 12 in cs:
                            again = empty = True
                    nm = [x[1] for x in w.log[mark:][at[k - 1]:at[k]]].count("metadata")
                    if bool(nm) != call:
                        return "step %d, request %d: metadata is refreshed %d times (answers %r)" % (
                            n, k - 1, nm, st["script"])
                    if not again:
                        break
                if k != len(reqs):
                    return "step %d: %d commit requests instead of %d (answers %r)" % (n, len(reqs), k, st["script"])
            if case["leave"] and len(case["ids"]) > 1:
                other = [b for b in case["ids"] if b != case["coord"]]
                for t in case["topics"]:
                    w.topics[t] = {p: (l if l in other else other[0]) for p, l in w.topics[t].items()}
                w.listed = other
                for _ in range(3):
                    await finish(c.cluster.heal())
                    try:
                        await finish(c.commit_offsets())
                    except net.Pending:
                        raise
                    except Exception as e:
                        return "a commit after the coordinator left raises %r" % (e,)
        return net.run(main)


class C18:
    rule = ("1-5 brokers, scripts of up to 12 answers (retriable codes, lost connections, brokers leaving the "
            "cluster) before one names a coordinator; clusters without brokers")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample(NODES, rng.choice([1, 2, 3, 4, 5]))
        script = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 7, 12])):
            script.append(rng.choice([rng.choice(RETRY)] * 3 + ["close" if len(ids) > 1 else 5]))
        if len(ids) > 2 and rng.random() < .35:
            k = rng.choice(ids)
            script.insert(rng.randint(0, len(script)), ["leave", k])
        return {"ids": ids, "script": script, "coord": rng.choice(ids + [0, 0, 55]), "group": rng.choice(["grp", "é-g"]),
                "none": rng.random() < .04}

    @staticmethod
    def run(case):
        async def main():
            E = kiel("exc")
            w = world(case["ids"], {"t": {0: case["ids"][0]}})
            zk.Server()
            script = list(case["script"])
            left = set()

            def on(b, v, peer, corr):
                while script and isinstance(script[0], list):
                    k = script.pop(0)[1]
                    if k != b.node:
                        left.add(k)
                        w.listed = [x for x in case["ids"] if x not in left]
                        if case["ids"][0] in left:
                            w.topics["t"] = {0: w.listed[0]}
                s = script.pop(0) if script else 0
                if s == "close":
                    return "close"
                return {"error_code": s, "coordinator_id": -1 if s else case["coord"],
                        "coordinator_host": "" if s else "h", "coordinator_port": 0}
            w.on["group_coordinator"] = on
            c = kiel("clients.grouped").GroupedConsumer(
                ["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])], case["group"], ["z:1"])
            if case["none"]:
                try:
                    await finish(c.determine_coordinator())
                except E.NoBrokersError:
                    return None
                except Exception as e:
                    return "without brokers discovery raises %r" % e
                return "without brokers discovery raises nothing"
            await finish(c.connect())
            reqs = [x for x in w.log if x[1] == "group_coordinator"]
            n = len([s for s in case["script"] if not isinstance(s, list)]) + 1
            if len(reqs) != n:
                return "%d requests instead of %d (script %r)" % (len(reqs), n, case["script"])
            if any(x[3]["group"] != case["group"].encode() for x in reqs):
                return "asked for another group: %r" % [x[3]["group"] for x in reqs]
            nodes = [x[0] for x in reqs]
            if c.coordinator_id != case["coord"]:
                return "the coordinator is %r instead of %r" % (c.coordinator_id, case["coord"])
            if not [s for s in case["script"] if isinstance(s, list)]:
                size = len(case["ids"])
                for k in range(0, len(nodes), size):
                    r = nodes[k:k + size]
                    if len(set(r)) != len(r):
                        return "brokers are asked in the order %r" % (nodes,)
        return net.run(main)
