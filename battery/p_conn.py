"""C06-C08: connections and client fan-out, at the wire."""
import asyncio
import importlib
import struct

from . import net, wire
from .p_codec import build, differs, value
from .net import StreamClosedError, finish, settle

APIS = ["metadata", "produce", "fetch", "offset", "offset_commit", "offset_fetch", "group_coordinator"]


def small(api, rng, side):
    T = (wire.REQUESTS if side == "req" else wire.RESPONSES)[api]
    return value(T, rng, 1, side)


def kiel(name):
    return importlib.import_module("kiel." + name)


async def connected(w, port=9001):
    c = kiel("connection").Connection("h", port)
    await finish(c.connect())
    await settle(3)
    return c


def far_ids(M, bits):
    """Correlation ids after very many requests: a counter found in the
    module is moved to shortly before 2**bits for a while."""
    R = kiel("protocol.request")
    if not bits:
        return None
    one = build(M, {"topics": []}).correlation_id
    names = [n for n, v in vars(R).items() if type(v) is int and v == one]
    two = build(M, {"topics": []}).correlation_id
    names = [n for n in names if getattr(R, n) == two]
    if len(names) != 1 or 2 ** bits < two + 10:
        return None
    try:
        setattr(R, names[0], 2 ** bits - 4)
        ids = [build(M, {"topics": []}).correlation_id for _ in range(8)]
        if len(set(ids)) != 8 or min(ids) <= two:
            return "correlation ids after request number 2**%d: %r" % (bits, ids)
    finally:
        setattr(R, names[0], two)


class C06:
    rule = ("1-8 requests of mixed apis sent at different moments on one connection, responses arriving in any order "
            "and cut into any chunks; the wire and every future compared after every step")

    @staticmethod
    def gen(rng, size, i):
        n = rng.choice([1, 2, 2, 3, 4, 5, 8])
        reqs = []
        for _ in range(n):
            a = rng.choice(APIS)
            reqs.append({"api": a, "req": small(a, rng, "req"), "resp": small(a, rng, "resp")})
        steps, waiting, j = [], [], 0
        while j < n or waiting:
            if j < n and (not waiting or rng.random() < .5):
                steps.append(["send", j])
                waiting.append(j)
                j += 1
            else:
                k = waiting.pop(rng.randrange(len(waiting)))
                steps.append(["reply", k, rng.choice([0, 0, 1, 2, 3, 4, 5, 7])])
        # sometimes several responses arrive in one piece
        return {"reqs": reqs, "steps": steps, "glue": rng.random() < .35, "ids": 200 if i % 50 else 30000,
                "bits": i % 31 if i % 31 > 16 else None}

    @staticmethod
    def run(case):
        async def main():
            w = net.World()
            w.broker(1, "h", 9001)
            w.on["metadata"] = lambda *a: None
            c = await connected(w)
            st = w.streams[-1]
            futs, objs, sent, glue, corr = {}, {}, [], b"", {}
            used = set()
            for step in list(case["steps"]) + [["flush"]]:
                if step[0] == "send":
                    j = step[1]
                    rq = case["reqs"][j]
                    r = build(wire.REQUESTS[rq["api"]], rq["req"])
                    before = len(b"".join(st.writes))
                    objs[j] = r
                    futs[j] = c.send(r)
                    await settle(3)
                    out = b"".join(st.writes)[before:]
                    if len(out) < 4 or struct.unpack("!i", out[:4])[0] != len(out) - 4:
                        return "request %d goes out as %r" % (j, out)
                    try:
                        api, cid, _ = wire.request(out[4:])
                    except Exception as e:
                        return "request %d on the wire is not a request: %s" % (j, e)
                    want = wire.header(api, cid) + wire.enc(wire.REQUESTS[rq["api"]], rq["req"])
                    if api != rq["api"] or out[4:] != want:
                        return "request %d goes out as %r instead of %r" % (j, out[4:], want)
                    if cid in used:
                        return "correlation id %d used twice" % cid
                    used.add(cid)
                    corr[j] = cid
                elif step[0] == "reply":
                    j = step[1]
                    rq = case["reqs"][j]
                    p = wire.enc(wire.RESPONSES[rq["api"]], rq["resp"])
                    f = struct.pack("!ii", len(p) + 4, corr[j]) + p
                    if case["glue"]:
                        glue += f
                        sent.append(j)
                        continue
                    k = step[2]
                    if k:
                        head = min(len(f) - 1, 60)
                        for x in range(0, head, k):
                            st.feed(f[x:min(x + k, head)])
                            await settle(1)
                        st.feed(f[head:-1])
                        await settle(3)
                        if futs[j].done():
                            return "request %d is completed before its response has arrived in full" % j
                        st.feed(f[-1:])
                    else:
                        st.feed(f)
                    sent.append(j)
                    await settle(8)
                else:
                    if glue:
                        st.feed(glue)
                        glue = b""
                    await settle(20 + 6 * len(case["reqs"]))
                if case["glue"] and glue:
                    continue
                for j, f in futs.items():
                    if j in sent:
                        if not f.done():
                            return "response to request %d does not complete it" % j
                        if f.exception() is not None:
                            return "request %d fails with %r" % (j, f.exception())
                        rq = case["reqs"][j]
                        d = differs(wire.RESPONSES[rq["api"]], f.result(), rq["resp"])
                        if d or f.result().api != rq["api"]:
                            return "request %d (%s) gets a wrong response: %s" % (j, rq["api"], d)
                    elif f.done():
                        return "request %d is completed without a response" % j
            M = wire.REQUESTS["metadata"]
            for _ in range(case["ids"]):
                cid = build(M, {"topics": []}).correlation_id
                if cid in used:
                    return "correlation id %d used twice" % cid
                used.add(cid)
            d = far_ids(M, case.get("bits"))
            if d:
                return d
            c.close()
        return net.run(main)


FAILS = ["remote_close", "remote_close_mid", "garbage", "short", "unknown_id", "write_closed_now", "write_other_now",
         "write_closed_later", "write_other_later", "local_close", "abort", "abort_twice", "close_then_abort"]


class C07:
    rule = ("0-6 outstanding requests, some answered, then one failure (remote close at any byte, undecodable or "
            "unknown response, write failures now or later, local close or abort); then sends on the closing connection")

    @staticmethod
    def gen(rng, size, i):
        return {"n": rng.choice([0, 1, 2, 3, 6]), "answered": rng.choice([0, 0, 1, 2]),
                "apis": [rng.choice(APIS) for _ in range(6)], "fail": FAILS[i % len(FAILS)],
                "at": rng.randint(1, 9), "soon": rng.random() < .5, "wait": rng.choice([0, 0, 3]), "seed": rng.randrange(1 << 30),
                "port": rng.choice([9001, 1234])}

    @staticmethod
    def run(case):
        import random
        rng = random.Random(case["seed"])

        async def main():
            E = kiel("exc")
            w = net.World()
            w.broker(1, "h", case["port"])
            w.on["metadata"] = lambda *a: None
            c = await connected(w, case["port"])
            st = w.streams[-1]
            futs, corr = [], []

            def send(k):
                a = case["apis"][k % 6]
                r = build(wire.REQUESTS[a], small(a, rng, "req"))
                f = c.send(r)
                futs.append(f)
                corr.append((a, r.correlation_id))
            for k in range(case["n"]):
                send(k)
            await settle(3)
            ans = min(case["answered"], case["n"])
            for k in range(ans):
                a, cid = corr[k]
                p = wire.enc(wire.RESPONSES[a], small(a, rng, "resp"))
                st.feed(struct.pack("!ii", len(p) + 4, cid) + p)
            await settle(4 + 8 * ans)
            for k in range(ans):
                if not futs[k].done() or futs[k].exception() is not None:
                    return "an answered request is not completed"
            kind = case["fail"]
            live = ans < len(futs)
            failed = True
            if kind == "remote_close":
                st.shut()
            elif kind == "remote_close_mid":
                cid = corr[-1][1] if corr else 1
                st.feed((struct.pack("!ii", 100, cid) + b"\0" * 20)[:case["at"]])
                await settle(case["wait"])
                st.shut()
            elif kind == "garbage" and live:
                a, cid = corr[-1]
                p = struct.pack("!i", 2 ** 30) + b"\xff" * 3
                st.feed(struct.pack("!ii", len(p) + 4, cid) + p)
            elif kind == "short" and live:
                a, cid = corr[-1]
                st.feed(struct.pack("!ii", 4 + case["at"] % 3, cid) + b"\0" * (case["at"] % 3))
            elif kind == "unknown_id":
                st.feed(struct.pack("!ii", 8, 1999999999) + b"\0" * 4)
            elif kind.startswith("write"):
                x = StreamClosedError() if "closed" in kind else OSError("broken") if case["at"] % 2 else ValueError("x")
                when = kind.rsplit("_", 1)[1]
                st.fail_writes = lambda d: (when, x)
                send(case["n"])
                if case["at"] % 3 == 0 and when == "later":
                    st.fail_writes = None
                    send(case["n"] + 1)
            elif kind == "local_close":
                if case["at"] % 2:
                    send(case["n"])                    # not written yet
                c.close()
            elif kind == "abort":
                if case["at"] % 2:
                    send(case["n"])
                c.abort()
            elif kind == "abort_twice":
                c.abort()
                c.abort()
            elif kind == "close_then_abort":
                c.close()
                c.abort()
            else:
                failed = False
            if case.get("soon") and failed and c.closing:
                before = sum(map(len, st.writes))
                f = c.send(build(wire.REQUESTS["metadata"], {"topics": []}))
                x = f.exception() if f.done() else None
                if not isinstance(x, E.BrokerConnectionError) or x.host != "h" or int(x.port) != case["port"]:
                    return "a send right after %s gives %r" % (kind, x)
                if sum(map(len, st.writes)) != before:
                    return "a send right after %s writes" % kind
            await settle(60)
            if not failed:
                return None
            for k, f in enumerate(futs):
                if k < ans:
                    continue
                if not f.done():
                    return "%s: request %d is still waiting" % (kind, k)
                if f.exception() is None:
                    return "%s: request %d completes with %r instead of an error" % (kind, k, f.result())
            if not c.closing:
                return "%s: the connection is not marked closing" % kind
            before = sum(map(len, st.writes))
            f = c.send(build(wire.REQUESTS["metadata"], {"topics": []}))
            if not f.done():
                return "a send on a closing connection does not fail immediately"
            x = f.exception()
            if not isinstance(x, E.BrokerConnectionError) or x.host != "h" or int(x.port) != case["port"]:
                return "a send on a closing connection gives %r" % (x,)
            await settle(10)
            if sum(map(len, st.writes)) != before:
                return "a send on a closing connection writes"
        return net.run(main)


async def cluster_of(w, client, wait=True):
    await finish(client.connect())
    await settle(5)


class C08:
    rule = ("1-5 brokers, one request each, answered in any order or failing (close, undecodable answer, already "
            "closed); handlers returning values or futures, some calling for a refresh; sent twice")

    @staticmethod
    def gen(rng, size, i):
        n = rng.choice([1, 2, 3, 4, 5])
        ids = rng.sample([0, 1, 2, 3, 7, 10, 11, 100, 2 ** 31 - 1], n)
        if i % 6 == 5:
            # several sends at once, the metadata they ask for arriving late
            ids = ids[:3]
            sends = [rng.sample(ids, rng.randint(1, len(ids))) for _ in range(rng.choice([2, 2, 3]))]
            acts = [["answer", k, b, rng.choice(["ok", "ok", "heal", "heal"])] for k, s in enumerate(sends) for b in s]
            acts += [["metadata"]] * rng.choice([1, 2, 3])
            rng.shuffle(acts)
            return {"ids": ids, "sends": sends, "acts": acts}
        rounds = []
        for _ in range(2):
            which = [b for b in ids if rng.random() < .85] or ids[:1]
            order = list(which)
            rng.shuffle(order)
            rounds.append({"to": which, "order": order,
                           "how": {str(b): rng.choice(["ok"] * 6 + ["heal", "future", "close", "garbage", "gone", "lost", "odd"])
                                   for b in which}})
        if rng.random() < .08:
            rounds[-1]["unhandled"] = True
            rounds[-1]["how"] = {b: "ok" if h in ("lost", "odd") else h for b, h in rounds[-1]["how"].items()}
        return {"ids": ids, "rounds": rounds}

    @staticmethod
    async def at_once(case, w, cl, events, results):
        held, metas, runs, called = {}, [], [], []
        w.on["group_coordinator"] = lambda b, v, peer, corr: held.__setitem__((v["group"], b.node), (peer, corr))
        w.on["metadata"] = lambda b, v, peer, corr: (events.append("metadata"), metas.append((peer, corr)))[2:] or None
        T_ = wire.REQUESTS["group_coordinator"]
        del events[:]
        for b in case["ids"]:
            results[b] = "r%d" % b
        for k, to in enumerate(case["sends"]):
            runs.append(cl.send({b: build(T_, {n: {"group": "g%d" % k}[n] for n, _ in T_.fields}) for b in to}))
        await settle(5)

        def release():
            for peer, corr in metas:
                w.answer(peer, corr, "metadata", w.metadata())
            del metas[:]
        for a in case["acts"]:
            if a[0] == "metadata":
                release()
            else:
                peer, corr = held[b"g%d" % a[1], a[2]]
                n = len(events)
                w.answer(peer, corr, "group_coordinator", {
                    "error_code": 0, "coordinator_id": a[2], "coordinator_host": a[3], "coordinator_port": 1})
                await settle(12)
                if a[3] == "heal":
                    called.append([k for k in range(n, len(events)) if events[k] != "metadata"][-1:])
            await settle(12)
        for _ in range(6):
            release()
            await settle(12)
        for k, f in enumerate(runs):
            got = await finish(f)
            if got != {b: "r%d" % b for b in case["sends"][k]}:
                return "send %d gives %r" % (k, got)
        if not called and "metadata" in events:
            return "metadata is refreshed though nothing called for it"
        for at in called:
            if at and "metadata" not in events[at[0]:]:
                return "an answer calls for a refresh while another send waits for one: it is never made"
        return None

    @staticmethod
    def run(case):
        async def main():
            C = kiel("clients.client")
            E = kiel("exc")
            concurrent = importlib.import_module("tornado.concurrent")
            w = net.World()
            for b in case["ids"]:
                w.broker(b, "h%d" % b, 9000 + b % 1000)
            w.topics = {"t": {0: case["ids"][0]}}
            events = []
            real_meta = w.metadata

            def meta(*a):
                events.append("metadata")
                return real_meta()
            w.meta = meta

            class T(C.Client):
                def wind_down(self):
                    return None

                def handle_group_coordinator_response(self, resp):
                    events.append(("handled", resp.coordinator_id))
                    if resp.coordinator_host == "heal":
                        self.heal_cluster = True
                    val = results[resp.coordinator_id]
                    if resp.coordinator_host == "future":
                        f = concurrent.Future()

                        def later():
                            events.append(("handled", resp.coordinator_id))
                            f.set_result(val)
                        net.soon(later)
                        return f
                    return val

            cl = T(["h%d:%d" % (case["ids"][0], 9000 + case["ids"][0] % 1000)])
            await cluster_of(w, cl)
            results, gone = {}, {}
            if "sends" in case:
                return await C08.at_once(case, w, cl, events, results)

            def lose(conn, how):
                """The request goes out; what its future fails with is decided later."""
                real = conn.send

                def send(r):
                    real(r)
                    conn.send = real
                    for b in case["ids"]:
                        if b in cl.cluster and cl.cluster[b] is conn:
                            gone[b] = concurrent.Future()
                            return gone[b]
                conn.send = send
            for rnd in case["rounds"]:
                held = {}
                w.on["group_coordinator"] = lambda b, v, peer, corr: held.__setitem__(b.node, (peer, corr, v))
                del events[:]
                mark = len(w.log)
                reqs = {}
                api = "offset_commit" if rnd.get("unhandled") else "group_coordinator"
                w.on["offset_commit"] = lambda b, v, peer, corr: {"topics": []}
                for b in rnd["to"]:
                    results[b] = [None, False, {"b": b}, [], "r%d" % b, 0][b % 6]
                    v = {"group": "g%d" % b, "topics": []}
                    T_ = wire.REQUESTS[api]
                    reqs[b] = build(T_, {n: v[n] for n, _ in T_.fields})
                    if rnd["how"][str(b)] == "gone":
                        cl.cluster[b].close()
                    if rnd["how"][str(b)] in ("lost", "odd"):
                        lose(cl.cluster[b], rnd["how"][str(b)])
                fut = cl.send(reqs)
                if rnd.get("unhandled"):
                    alive = [b for b in rnd["to"] if rnd["how"][str(b)] != "gone"]
                    try:
                        await finish(fut)
                    except E.UnhandledResponseError as e:
                        return None if e.api == api and alive else "wrong api named: %r" % e.api
                    except Exception as e:
                        return "unhandled response gives %r" % e if alive else None
                    return "an unhandled response raises nothing" if alive else None
                await settle(5)
                for node, api_, cid, v, p in w.log[mark:]:
                    if api_ == "group_coordinator" and node not in rnd["to"]:
                        return "broker %d is sent a request it should not get" % node
                for b in rnd["to"]:
                    got = [x for x in w.log[mark:] if x[0] == b and x[1] == "group_coordinator"]
                    n = 0 if rnd["how"][str(b)] == "gone" else 1
                    if len(got) != n or (n and got[0][3]["group"] != b"g%d" % b):
                        return "broker %d gets %r" % (b, [g[3] for g in got])
                for b in rnd["order"]:
                    how = rnd["how"][str(b)]
                    if how == "gone":
                        continue
                    peer, corr, _ = held[b]
                    if how in ("lost", "odd"):
                        gone[b].set_exception(StreamClosedError() if how == "lost" else ValueError("odd"))
                        await settle(4)
                        continue
                    if how == "close":
                        peer.close()
                    elif how == "garbage":
                        peer.reply(corr, b"\0")
                    else:
                        peer.reply(corr, wire.enc(wire.RESPONSES["group_coordinator"], {
                            "error_code": 0, "coordinator_id": b, "coordinator_host": how, "coordinator_port": 1}))
                    await settle(4)
                bad = [b for b in rnd["to"] if rnd["how"][str(b)] in ("close", "garbage", "gone", "lost", "odd")]
                healthy = [b for b in case["ids"] if b not in bad or rnd["how"].get(str(b)) in ("lost", "odd")]
                # a closed stream alone does not call for a refresh
                call = any(h in ("heal", "close", "garbage", "gone", "odd") for h in rnd["how"].values())
                try:
                    res = await finish(fut)
                except E.NoBrokersError:
                    if call and not healthy:
                        return None
                    raise
                good = {b: results[b] for b in rnd["to"] if b not in bad}
                if res != good:
                    return "results are %r instead of %r" % (res, good)
                nm = events.count("metadata")
                if call:
                    if nm != 1:
                        return "metadata is refreshed %d times where it was called for" % nm
                    if any(e != "metadata" for e in events[events.index("metadata"):]):
                        return "metadata is refreshed before all responses were handled"
                elif nm:
                    return "metadata is refreshed without being called for"
        return net.run(main)
