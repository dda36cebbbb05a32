"""C09-C11: the producer, at the wire."""
import asyncio
import gzip
import importlib

from . import net, wire
from .net import finish, settle
from .p_codec import unsnappy

CODES = wire.CODES + [99, -5, 13]


def kiel(name):
    return importlib.import_module("kiel." + name)


def world(ids, topics):
    w = net.World()
    for b in ids:
        w.broker(b, "h%d" % b, 9000 + b)
    w.topics = topics
    return w


def messages(req, compression=None):
    """[(topic, partition, key, value)] of a produce request's value, in order"""
    out = []
    for t in req["topics"]:
        for p in t["partitions"]:
            ms = p["message_set"]
            if compression and ms:
                if len(ms) != 1 or ms[0][2] != compression:
                    raise AssertionError("set is not compressed as configured: %r" % (ms,))
                ms = wire.dec_set(gzip.decompress(ms[0][4]) if compression == 1 else unsnappy(ms[0][4]))
            for o, magic, attr, k, v in ms:
                if attr:
                    raise AssertionError("message with attributes %d" % attr)
                out.append((t["name"].decode(), p["partition_id"], k, v))
    return out


def acks(req, code=lambda t, p: 0, order=lambda x: x):
    return {"topics": order([{"name": t["name"].decode(), "partitions": order(
        [{"partition_id": p["partition_id"], "error_code": code(t["name"].decode(), p["partition_id"]), "offset": 7}
         for p in t["partitions"]])} for t in req["topics"]])}


def merge(reqs, compression=None):
    """{(node, topic, partition): [(key, value)...]} over produce requests of a log"""
    out = {}
    for node, api, corr, v, peer in reqs:
        for t, p, k, x in messages(v, compression):
            out.setdefault((node, t, p), []).append((k, x))
    return out


class C09:
    rule = ("batch sizes None,0,1..5; 1-14 produce calls over known, late-appearing and unknown topics, some flushes "
            "answered with retriable errors so that messages are queued again; then close and produce again")

    @staticmethod
    def gen(rng, size, i):
        return {"batch": rng.choice([None, 0, 1, 1, 2, 3, 4, 5]),
                "steps": [[rng.choice(["a", "a", "b", "c", "late", "x"]), rng.randrange(1000)]
                          for _ in range(rng.randint(1, 3 * size))],
                "retry": rng.choice([None, None, "a", "b"]), "hide": rng.choice([None, None, None, "b"]),
                "together": rng.random() < .15, "key": rng.choice(["none", "mod", "id"])}

    @staticmethod
    def run(case):
        async def main():
            P = kiel("clients.producer")
            w = world([1, 2], {"a": {0: 1, 1: 2}, "b": {0: 2}, "c": {5: 1}})
            keys = {"none": lambda m: None, "mod": lambda m: b"k%d" % (m["n"] % 7), "id": lambda m: "é%d" % m["n"]}
            made = []

            def ser(m):
                made.append(m["n"])
                return "v%d" % m["n"]
            p = P.Producer(["h1:9001"], serializer=ser, key_maker=keys[case["key"]], batch_size=case["batch"],
                           partitioner=lambda k, ps: sorted(ps)[0])
            retry = [case["retry"]]

            def on_produce(b, v, peer, corr):
                return acks(v, lambda t, q: 5 if t == retry[0] else 0)
            w.on["produce"] = on_produce
            await finish(p.connect())
            w.topics["late"] = {0: 1}
            first = {"a": (1, 0), "b": (2, 0), "c": (1, 5), "late": (1, 0)}
            if case["hide"]:
                w.topics[case["hide"]] = w.topics.pop(case["hide"])     # order only
            queue = {}

            def kv(m):
                k = keys[case["key"]](m)
                return (wire.bts(k), b"v%d" % m["n"])

            def expected_flush():
                out = {}
                for t, ms in queue.items():
                    if ms:
                        out.setdefault(first[t] + (t,), []).extend(ms)
                queue_new = {t: list(ms) for t, ms in queue.items() if t == retry[0] and ms}
                queue.clear()
                queue.update(queue_new)
                retry[0] = None if queue_new else retry[0]
                return {(n, t, q): ms for (n, q, t), ms in out.items()}

            if case["together"]:
                p.batch_size = 10 ** 6
                fs = [p.produce(t, {"n": n}) for t, n in case["steps"]]
                for f in fs:
                    await finish(f)
                for t, n in case["steps"]:
                    if t != "x":
                        queue.setdefault(t, []).append(kv({"n": n}))
                if merge(w.of("produce")):
                    return "messages are sent before the batch is full"
            else:
                seen = {"a", "b", "c"}
                for t, n in case["steps"]:
                    mark, nm = len(w.log), len(made)
                    was = retry[0]
                    await finish(p.produce(t, {"n": n}))
                    await settle(3)
                    sent = [x for x in w.log[mark:] if x[1] == "produce"]
                    if t == "x":
                        if sent or p.unsent_count != sum(map(len, queue.values())):
                            return "a message to an unknown topic is queued or causes a flush"
                        if not [x for x in w.log[mark:] if x[1] == "metadata"]:
                            return "metadata is not refreshed for an unknown topic"
                        continue
                    if made[nm:] != [n]:
                        return "the serializer is called with %r for message %d" % (made[nm:], n)
                    if t in seen and not sent and [x for x in w.log[mark:] if x[1] == "metadata"]:
                        return "metadata is refreshed for a known topic"
                    seen.add(t)
                    queue.setdefault(t, []).append(kv({"n": n}))
                    total = sum(map(len, queue.values()))
                    want = expected_flush() if not case["batch"] or total >= case["batch"] else {}
                    got = merge(sent)
                    if got != want:
                        return "after producing %r with %d queued (batch %r): sent %r instead of %r" % (
                            [t, n], total, case["batch"], got, want)
                    if p.unsent_count != sum(map(len, queue.values())):
                        return "%d messages are queued instead of %d" % (
                            p.unsent_count, sum(map(len, queue.values())))
            mark = len(w.log)
            retry[0] = None
            want = expected_flush()
            held = []
            w.on["produce"] = lambda b, v, peer, corr: held.append((peer, corr, acks(v)))
            f = p.close()
            await settle(12)
            if held and f.done():
                return "closing does not wait for the answer of the flush"
            for peer, corr, a in held:
                if peer.gone:
                    return "closing closes a connection that is waiting for the answer of the flush"
                w.answer(peer, corr, "produce", a)
            w.on["produce"] = on_produce
            await finish(f)
            got = merge([x for x in w.log[mark:] if x[1] == "produce"])
            if got != want:
                return "closing sends %r instead of %r" % (got, want)
            mark = len(w.log)
            await finish(p.produce("a", {"n": 1}))
            await settle(10)
            if p.unsent_count or len(w.log) != mark:
                return "a message produced after closing is queued or causes requests"
        return net.run(main)


class C10:
    rule = ("1-4 brokers, 1-4 topics of 1-4 partitions, 0-20 queued messages, any partitioner, brokers disconnected "
            "and topics gone between queueing and flushing; three compressions, random acks and timeouts; flushed twice")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample([0, 1, 2, 3, 12], rng.choice([1, 2, 3, 4]))
        topics = {}
        for t in rng.sample(["a", "b", "C.d", "topic-E"], rng.choice([1, 2, 3, 4])):
            topics[t] = {str(p): rng.choice(ids) for p in rng.sample(range(6), rng.choice([1, 2, 3, 4]))}
        n = rng.choice([0, 1, 2, 5, 4 * size])
        return {"ids": ids, "topics": topics,
                "msgs": [[rng.choice(sorted(topics)), rng.randrange(50), j] for j in range(n)],
                "compression": rng.choice([None, None, 1, 2]), "acks": rng.choice([-1, 1, 2]),
                "timeout": rng.choice([0, 500, 77777]),
                "drop": [b for b in ids if rng.random() < .25], "gone": [t for t in topics if rng.random() < .2],
                "salt": rng.randrange(100)}

    @staticmethod
    def run(case):
        async def main():
            P = kiel("clients.producer")
            w = world(case["ids"], {t: {int(p): l for p, l in ps.items()} for t, ps in case["topics"].items()})
            w.on["produce"] = lambda b, v, peer, corr: acks(v)
            calls = []

            def choose(k, ps):
                ps = list(ps)
                calls.append((k, sorted(ps)))
                ps = sorted(ps)
                return ps[(hash_(k) + case["salt"]) % len(ps)]

            def hash_(k):
                return int(k[1:]) * 7919 % 104729
            p = P.Producer(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])], serializer=lambda m: m[1],
                           key_maker=lambda m: m[0], partitioner=choose, batch_size=10 ** 6,
                           compression=case["compression"], required_acks=case["acks"], ack_timeout=case["timeout"])
            await finish(p.connect())
            byt = {}
            for t, k, j in case["msgs"]:
                m = ("k%d" % k, "v%d" % j)
                byt.setdefault(t, []).append(m)
                await finish(p.produce(t, m))
            full = {t: dict(ps) for t, ps in w.topics.items()}
            if case["gone"]:
                for t in case["gone"]:
                    w.topics.pop(t)
                await finish(p.cluster.heal())
                w.topics = {t: dict(ps) for t, ps in full.items()}
            for b in case["drop"]:
                c = p.cluster.conns.pop(b)
                c.close()
            mark = len(w.log)
            exc = None
            alive = [b for b in case["ids"] if b not in case["drop"]]
            back = {}
            for t, ms in byt.items():
                for k, v in ms:
                    ps = sorted(full[t])
                    q = ps[(hash_(k) + case["salt"]) % len(ps)]
                    if t in case["gone"] or full[t][q] in case["drop"]:
                        back.setdefault(t, []).append((k, v))
            retried = sum(map(len, back.values()))
            try:
                await finish(p.flush())
            except Exception as e:
                if alive or not retried:
                    raise
                exc = e
            sent = [x for x in w.log[mark:] if x[1] == "produce"]
            want = {}
            for t, ms in byt.items():
                for k, v in ms:
                    ps = sorted(full[t])
                    q = ps[(hash_(k) + case["salt"]) % len(ps)]
                    if not (t in case["gone"] or full[t][q] in case["drop"]):
                        want.setdefault((full[t][q], t, q), []).append((wire.bts(k), wire.bts(v)))
            d = check(sent, want, case, calls, byt, full, case["gone"])
            if d:
                return "flush: " + d
            if p.unsent_count != retried:
                return "%d messages are queued after the flush instead of %d" % (p.unsent_count, retried)
            nm = len([x for x in w.log[mark:] if x[1] == "metadata"])
            if bool(nm) != bool(retried) and exc is None:
                return "metadata is refreshed %d times with %d messages put back" % (nm, retried)
            if exc is not None:
                return None
            mark = len(w.log)
            del calls[:]
            await finish(p.flush())
            sent = [x for x in w.log[mark:] if x[1] == "produce"]
            want = {}
            for t, ms in back.items():
                for k, v in ms:
                    ps = sorted(full[t])
                    q = ps[(hash_(k) + case["salt"]) % len(ps)]
                    want.setdefault((full[t][q], t, q), []).append((wire.bts(k), wire.bts(v)))
            d = check(sent, want, case, calls, back, full, [])
            if d:
                return "second flush: " + d
            if p.unsent_count:
                return "messages are left after the second flush"

        def check(sent, want, case, calls, byt, full, gone):
            nodes = [x[0] for x in sent]
            if len(set(nodes)) != len(nodes):
                return "one broker gets several requests: %r" % nodes
            for x in sent:
                if x[3]["required_acks"] != case["acks"] or x[3]["timeout"] != case["timeout"]:
                    return "acks/timeout sent are %r/%r" % (x[3]["required_acks"], x[3]["timeout"])
            got = merge(sent, case["compression"])
            if got != want:
                return "sent %r instead of %r" % (got, want)
            exp = sorted((k, sorted(full[t])) for t, ms in byt.items() if t not in gone for k, _ in ms)
            if sorted(calls) != exp:
                return "the partitioner is called with %r instead of %r" % (sorted(calls), exp)
        return net.run(main)


class C11:
    rule = ("1-3 brokers, 1-3 topics of 1-4 partitions, any error code (known, unknown, negative) per partition, topics "
            "and partitions of the answers in any order; one broker's answer held back while the other is handled")

    @staticmethod
    def gen(rng, size, i):
        ids = rng.sample([1, 2, 3], rng.choice([1, 2, 3]))
        topics = {t: {str(p): rng.choice(ids) for p in range(rng.choice([1, 2, 3, 4]))}
                  for t in ["a", "b", "c"][:rng.choice([1, 2, 3])]}
        msgs, j = [], 0
        for t in sorted(topics):
            for p in sorted(topics[t]):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    msgs.append([t, int(p), j])
                    j += 1
        rng.shuffle(msgs)
        pool = rng.choice([CODES, list(wire.RETRIABLE) + [0], [0, 6, 1, 99]])
        return {"ids": ids, "topics": topics, "msgs": msgs,
                "codes": {t: {p: rng.choice(pool) for p in topics[t]} for t in topics},
                "flip": rng.random() < .5, "hold": rng.random() < .5, "skip": rng.random() < .1}

    @staticmethod
    def run(case):
        async def main():
            P = kiel("clients.producer")
            topics = {t: {int(p): l for p, l in ps.items()} for t, ps in case["topics"].items()}
            w = world(case["ids"], topics)
            code = lambda t, q: case["codes"][t][str(q)]
            order = (lambda x: x[::-1]) if case["flip"] else (lambda x: x)
            state = {"first": True}
            held = []

            def on_produce(b, v, peer, corr):
                if not state["first"]:
                    return acks(v)
                a = acks(v, code, order)
                if case["hold"]:
                    held.append((b.node, peer, corr, a))
                    return None
                return a
            w.on["produce"] = on_produce
            p = P.Producer(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0])],
                           serializer=lambda m: b"v%d" % m[2], key_maker=lambda m: "%d" % m[1],
                           partitioner=lambda k, ps: int(k), batch_size=10 ** 6)
            await finish(p.connect())
            for m in case["msgs"]:
                await finish(p.produce(m[0], m))
            mark = len([x for x in w.log if x[1] == "metadata"])
            f = p.flush()
            await settle(6)
            n0 = len(p.sent) if hasattr(p, "sent") else None
            retriable = set()
            for t in topics:
                for q in topics[t]:
                    if code(t, q) in wire.RETRIABLE:
                        retriable.add((t, q))
            done = set()
            for node, peer, corr, a in held:
                peer.reply(corr, wire.enc(wire.RESPONSES["produce"], a))
                await settle(12)
                done.add(node)
                n = len([m for m in case["msgs"] if (m[0], m[1]) in retriable and topics[m[0]][m[1]] in done])
                if p.unsent_count != n:
                    return "%d messages are queued instead of %d after the answer of broker %d" % (
                        p.unsent_count, n, node)
                if n0 is not None and len(p.sent) != n0 - len(done):
                    return "%d requests are remembered instead of %d" % (len(p.sent), n0 - len(done))
            await finish(f)
            nm = len([x for x in w.log if x[1] == "metadata"]) - mark
            if bool(nm) != bool(retriable):
                return "metadata is refreshed %d times with retriable partitions %r" % (nm, sorted(retriable))
            if hasattr(p, "sent") and len(p.sent):
                return "requests are still remembered: %r" % (dict(p.sent),)
            n = len([m for m in case["msgs"] if (m[0], m[1]) in retriable])
            if p.unsent_count != n:
                return "%d messages are queued again instead of %d" % (p.unsent_count, n)
            state["first"] = False
            mark = len(w.log)
            await finish(p.flush())
            got = merge([x for x in w.log[mark:] if x[1] == "produce"])
            want = {}
            for t, q, j in case["msgs"]:
                if (t, q) in retriable:
                    want.setdefault((topics[t][q], t, q), []).append((b"%d" % q, b"v%d" % j))
            if got != want:
                return "sent again %r instead of %r" % (got, want)
            mark = len(w.log)
            await finish(p.flush())
            if w.log[mark:] or p.unsent_count:
                return "something is sent a third time"
        return net.run(main)
