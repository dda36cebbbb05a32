"""C01-C05: the wire codec against an independent one."""
import gzip
import importlib
import io
import random
import struct
import zlib

from . import net, wire
from .wire import Rec, u, raw, bts

STR = ["", "a", "topic", "t.1", "é", "日本", "x" * 127, "y" * 128, "z" * 255, "w" * 256, "n:0", "None", "\x00", " "]
BIN = [b"", b"\xff\xfe", b"\x00", b"\x80abc", b"\xed\xa0\x80", b"k" * 300, b"{}", b"\xc3"]


def rint(rng, bits):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return rng.choice([0, 1, -1, -2, 2, lo, hi, lo + 1, hi - 1, 127, 128, 255, 256, 65535,
                       rng.randint(lo, hi), rng.randint(lo, hi)]) % (1 << bits) - 0


def signed(x, bits):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x


def value(T, rng, size, mode):
    if isinstance(T, Rec):
        return {n: value(t, rng, size, mode) for n, t in T.fields}
    if isinstance(T, list):
        n = rng.choice([0, 1, 1, 2, 3, size])
        if rng.random() < .03:
            n = rng.choice([127, 128, 255, 256, 257, 1000] if T[0] in ("i", "q") else [9, 17, 33, 130])
        return [value(T[0], rng, max(1, size - 1), mode) for _ in range(n)]
    if T in wire.WIDTH:
        bits = 8 * wire.WIDTH[T]
        return signed(rint(rng, bits), bits)
    if T == "S":
        c = rng.random()
        if c < .15:
            return None
        if c < .25:
            return u(rng.choice(BIN))
        if c < .3 and mode == "req":
            return rng.choice([0, 7, -12, 123456789012])
        return rng.choice(STR) if c < .9 else "s" * rng.choice([rng.randint(0, 600), 32767])
    if T == "B":
        c = rng.random()
        return None if c < .15 else u(rng.choice(BIN)) if c < .6 else rng.choice(STR) if c < .98 else "v" * rng.choice([32768, 65536, 70001])
    if T == "MS":
        return [[-1 if mode == "req" else signed(rint(rng, 64), 64), value("B", rng, 1, "x"), value("B", rng, 1, "x")]
                for _ in range(rng.choice([0, 1, 2, size]))]
    raise AssertionError(T)


def cls(path):
    m, c = path.split(".")
    return getattr(importlib.import_module("kiel.protocol." + m), c)


def build(T, v):
    if isinstance(T, Rec):
        return cls(T.cls)(**{n: build(t, v[n]) for n, t in T.fields})
    if isinstance(T, list):
        return [build(T[0], x) for x in v]
    if T in ("S", "B"):
        return raw(v)
    if T == "MS":
        return mset(v)
    return v


def mset(v):
    M = importlib.import_module("kiel.protocol.messages")
    return M.MessageSet([(o, M.Message(magic=0, attributes=0, key=raw(k), value=raw(x))) for o, k, x in v])


def text(b):
    if b is None:
        return None
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return b


def differs(T, got, v, where="value"):
    """First difference between a decoded instance and the expected value."""
    if isinstance(T, Rec):
        if type(got).__name__ != T.cls.split(".")[1]:
            return "%s is a %s, not a %s" % (where, type(got).__name__, T.cls)
        for n, t in T.fields:
            if not hasattr(got, n):
                return "%s has no %s" % (where, n)
            d = differs(t, getattr(got, n), v[n], where + "." + n)
            if d:
                return d
        return None
    if isinstance(T, list):
        if len(got) != len(v):
            return "%s has %d elements instead of %d" % (where, len(got), len(v))
        for i, (g, x) in enumerate(zip(got, v)):
            d = differs(T[0], g, x, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    if T in ("S", "B"):
        want = text(bts(v))
        if got != want or type(got) is not type(want):
            return "%s is %r instead of %r" % (where, got, want)
        return None
    if T == "MS":
        return set_differs(got, [[o, k, x] for o, k, x in v], where)
    if got != v or type(got) is bool:
        return "%s is %r instead of %r" % (where, got, v)
    return None


def set_differs(got, want, where="message set"):
    g = list(got.messages)
    if len(g) != len(want):
        return "%s has %d messages instead of %d: %r" % (where, len(g), len(want), [o for o, _ in g])
    for i, ((o, m), w) in enumerate(zip(g, want)):
        o2, k, x = w[:3]
        for n, a, b in (("offset", o, o2), ("key", m.key, text(bts(k))), ("value", m.value, text(bts(x)))):
            if a != b or type(a) is not type(b):
                return "%s: %s of message %d is %r instead of %r" % (where, n, i, a, b)
    return None


class C01:
    rule = "every request type, random field values over all widths, absent/empty/long/non-ascii strings, array sizes 0-5"

    @staticmethod
    def gen(rng, size, i):
        names = sorted(wire.REQUESTS)
        n = names[i % len(names)]
        return {"type": n, "value": value(wire.REQUESTS[n], rng, size, "req")}

    @staticmethod
    def run(case):
        T = wire.REQUESTS[case["type"]]
        r = build(T, case["value"])
        got = r.serialize()
        want = wire.header(case["type"].split("/")[0], r.correlation_id) + wire.enc(T, case["value"])
        if bytes(got) != want:
            return "%s serializes as %r instead of %r" % (T.cls, bytes(got), want)
        if bytes(r.serialize()) != want:
            return "%s serializes differently the second time" % T.cls


class C02:
    rule = "every response type, random field values, decoded alone and at an offset with other bytes around it"

    @staticmethod
    def gen(rng, size, i):
        names = sorted(wire.RESPONSES)
        n = names[i % len(names)]
        return {"type": n, "value": value(wire.RESPONSES[n], rng, size, "resp"),
                "before": rng.choice([0, 1, 5]), "after": u(rng.choice(BIN))}

    @staticmethod
    def run(case):
        T, v = wire.RESPONSES[case["type"]], case["value"]
        b = wire.enc(T, v)
        c = cls(T.cls)
        d = differs(T, c.deserialize(b), v)
        if d:
            return "decoding %r as %s: %s" % (b, T.cls, d)
        pre = b"\x01" * case["before"]
        got, off = c.parse(pre + b + raw(case["after"]), len(pre))
        d = differs(T, got, v)
        if d:
            return "decoding %r at offset %d as %s: %s" % (b, len(pre), T.cls, d)
        if off != len(pre) + len(b):
            return "decoding %s ends at %d instead of %d" % (T.cls, off, len(pre) + len(b))


def forge(prefix, target):
    """4 bytes that make crc32(prefix + them) == target"""
    rev = FORGE
    state = target ^ 0xffffffff
    idx = []
    for _ in range(4):
        i = next(j for j in range(256) if TABLE[j] >> 24 == state >> 24)
        idx.append(i)
        state = ((state ^ TABLE[i]) << 8) & 0xffffffff
    cur = (zlib.crc32(prefix) & 0xffffffff) ^ 0xffffffff
    out = b""
    for i in reversed(idx):
        byte = (cur ^ i) & 0xff
        out += bytes([byte])
        cur = (cur >> 8) ^ TABLE[i]
    assert zlib.crc32(prefix + out) & 0xffffffff == target
    return out


def _table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0xedb88320 if c & 1 else c >> 1
        t.append(c)
    return t


TABLE, FORGE = _table(), None
CRCS = [0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 0x7fff0000, 0x80000001, 12345]


class C03:
    rule = ("lists of 0-6 messages with absent/empty/binary/text keys and values and forged checksums, "
            "under the three compressions, plus sets with explicit offsets")

    @staticmethod
    def gen(rng, size, i):
        msgs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, size])):
            k, v = value("B", rng, 1, "x"), value("B", rng, 1, "x")
            if rng.random() < .4:
                n = rng.randint(0, 9)
                stem = bytes(rng.randrange(256) for _ in range(n))
                head = struct.pack("!bb", 0, 0) + wire.enc("B", k) + struct.pack("!i", n + 4) + stem
                v = u(stem + forge(head, rng.choice(CRCS)))
            msgs.append([rng.choice([0, 5, -1, 2**40]), k, v])
        if rng.random() < .08:
            msgs.append([3, None, u(bytes(rng.randrange(256) for _ in range(rng.choice([32767, 32768, 40000, 65537]))))])
        return {"compression": [None, 1, 2, "offsets"][i % 4], "messages": msgs}

    @staticmethod
    def run(case):
        M = importlib.import_module("kiel.protocol.messages")
        P = importlib.import_module("kiel.protocol.produce")
        msgs = [M.Message(magic=0, attributes=0, key=raw(k), value=raw(v)) for _, k, v in case["messages"]]
        c = case["compression"]
        if c == "offsets":
            ms = M.MessageSet([(m[0], x) for m, x in zip(case["messages"], msgs)])
            want = wire.enc_set(case["messages"])
        else:
            ms = M.MessageSet.compressed(c, msgs)
            want = wire.enc_set([[-1, k, v] for _, k, v in case["messages"]])
        r = P.ProduceRequest(required_acks=1, timeout=2, topics=[P.TopicRequest(
            name="t", partitions=[P.PartitionRequest(partition_id=3, message_set=ms)])])
        got = bytes(r.serialize())
        head = wire.header("produce", r.correlation_id) + struct.pack("!hiih", 1, 2, 1, 1) + b"t" + struct.pack("!ii", 1, 3)
        if not got.startswith(head):
            return "request around the set is %r" % got[:60]
        got = got[len(head):]
        if c in (None, "offsets"):
            want = struct.pack("!i", len(want)) + want
            return None if got == want else "the set is encoded as %r instead of %r" % (got[:400], want[:400])
        if struct.unpack("!i", got[:4])[0] != len(got) - 4:
            return "size of the set does not match: %r" % got[:60]
        try:
            ms = wire.dec_set(got[4:])
        except wire.Short as e:
            return "compressed set: %s" % e
        if len(ms) != 1:
            return "a compressed set has %d messages" % len(ms)
        o, magic, attr, k, v = ms[0]
        if (o, magic, attr, k) != (-1, 0, c, None) or v is None:
            return "envelope message is %r" % (ms[0],)
        try:
            inner = gzip.decompress(v) if c == 1 else unsnappy(v)
        except Exception as e:
            return "the value cannot be decompressed: %r" % e
        if inner != want:
            return "the value decompresses to %r instead of %r" % (inner[:300], want[:300])


HEADER = bytes([0x82]) + b"SNAPPY\x00" + struct.pack("!ii", 1, 1)
HEADER = struct.pack("!b", -126) + b"SNAPPY" + struct.pack("!bii", 0, 1, 1)


def unsnappy(v):
    import snappy
    return b"".join(snappy.uncompress(b) for b in blocks(v))


def blocks(v):
    if v[:len(HEADER)] != HEADER:
        raise ValueError("header is %r" % v[:len(HEADER)])
    v, out = v[len(HEADER):], []
    while v:
        n = struct.unpack("!i", v[:4])[0]
        if n < 0 or len(v) < 4 + n:
            raise ValueError("block of %d bytes, %d left" % (n, len(v) - 4))
        out.append(v[4:4 + n])
        v = v[4 + n:]
    return out


def ensnappy(data, cuts):
    import snappy
    out, p = HEADER, 0
    for c in list(cuts) + [len(data)]:
        b = snappy.compress(data[p:c])
        out += struct.pack("!i", len(b)) + b
        p = c
    return out


class C04:
    rule = ("sets of 0-5 plain or gzip/snappy messages with any other attribute bits (inner sets possibly cut as well), cut at every byte, "
            "followed by other data and by other partitions")

    @staticmethod
    def gen(rng, size, i):
        def plain(n):
            return [[rng.choice([0, 1, 7, 2**33, 41]) + j, value("B", rng, 1, "x"), value("B", rng, 1, "x")] + (
                [rng.choice([4, 8, 64, -128, -4])] if rng.random() < .08 else []) for j in range(n)]
        ms = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < .35:
                inner = plain(rng.choice([0, 1, 2, 3]))
                if inner and rng.random() < .3:
                    inner.append("nest")
                ms.append({"c": rng.choice([1, 2]), "o": rng.randint(0, 99), "in": inner,
                           "cut": rng.choice([0, 0, 0, 1, 9, 13]), "high": rng.choice([0, 0, 0, 8, -128])})
            else:
                ms.extend(plain(rng.choice([1, 2])))
        return {"set": ms, "follow": rng.choice(["", "00", "ff" * 7, "00" * 40, "01" * 30]),
                "more": plain(rng.choice([0, 1, 2])), "step": rng.choice([1, 1, 2, 3])}

    @staticmethod
    def encode(ms):
        """[(bytes, [offset,key,value]...)] per outer message"""
        out = []
        for m in ms:
            if isinstance(m, dict):
                parts = C04.encode([x if x != "nest" else {"c": 1, "o": 4, "in": [[90, None, "n"]], "cut": 0}
                                    for x in m["in"]])
                data = b"".join(p[0] for p in parts)
                if m["cut"] and parts:
                    k = min(m["cut"], len(parts[-1][0]))
                    data = data[:len(data) - k]
                    parts = parts[:-1]
                c = gzip.compress(data) if m["c"] == 1 else ensnappy(data, [len(data) // 2] if data else [])
                out.append((wire.enc_set([[m["o"], None, u(c), m["c"] + m.get("high", 0)]]), [x for p in parts for x in p[1]]))
            else:
                out.append((wire.enc_set([m]), [m]))
        return out

    @staticmethod
    def run(case):
        F = cls("fetch.FetchResponse")
        parts = C04.encode(case["set"])
        data = b"".join(p[0] for p in parts)
        ends, p = [0], 0
        for b, _ in parts:
            p += len(b)
            ends.append(p)
        cuts = list(range(0, len(data) + 1, case["step"])) if len(data) < 700 else sorted(
            set(list(range(0, len(data), max(1, len(data) // 150))) + ends + [len(data)]))
        more = wire.enc_set(case["more"])
        M = cls("messages.MessageSet")
        follow = bytes.fromhex(case["follow"])
        for cut in cuts:
            want = [x for (b, xs), e in zip(parts, ends[1:]) if e <= cut for x in xs]
            s = data[:cut]
            got, off = M.parse(struct.pack("!i", len(s)) + s + follow, 0)
            d = set_differs(got, want)
            if d:
                return "set %r cut at %d: %s" % (case["set"], cut, d)
            if off != 4 + len(s):
                return "set cut at %d of %d: decoding ends at %d instead of %d" % (cut, len(data), off, 4 + len(s))
        for cut in cuts[:: max(1, len(cuts) // 40)] + [len(data)]:
            want = [x for (b, xs), e in zip(parts, ends[1:]) if e <= cut for x in xs]
            T = wire.RESPONSES["fetch"]
            v = {"topics": [{"name": "t", "partitions": [
                {"partition_id": 0, "error_code": 0, "highwater_mark_offset": 5, "message_set": u(data[:cut])},
                {"partition_id": 1, "error_code": 0, "highwater_mark_offset": 6, "message_set": u(more)}]}]}
            r = F.deserialize(wire.enc(T, v))
            ps = r.topics[0].partitions
            d = set_differs(ps[0].message_set, want) or set_differs(ps[1].message_set, case["more"])
            if d or len(ps) != 2 or ps[1].partition_id != 1 or ps[1].highwater_mark_offset != 6:
                return "response with a set cut at %d of %d: %s" % (cut, len(data), d or "what follows is not decoded")


class C05:
    rule = "byte strings of lengths around block borders (0..200000), random and repetitive, and hand-made block sequences"
    LENS = [0, 1, 2, 5, 17, 18, 19, 100, 32766, 32767, 32768, 32769, 32786, 65535, 65536, 65537, 98304, 98305, 131072]

    @staticmethod
    def gen(rng, size, i):
        n = C05.LENS[i % len(C05.LENS)] if i < 3 * len(C05.LENS) else rng.choice(
            [rng.randint(0, 300), rng.randint(0, 200000)])
        kind = rng.choice(["rand", "zero", "text"])
        cuts = sorted(rng.sample(range(n + 1), min(n + 1, rng.choice([0, 1, 2, 3, 7])))) if n < 3000 else \
            sorted(rng.randint(0, n) for _ in range(3))
        return {"n": n, "kind": kind, "seed": rng.randrange(1 << 30), "cuts": cuts}

    @staticmethod
    def run(case):
        G = importlib.import_module("kiel.compression.gzip")
        S = importlib.import_module("kiel.compression.snappy")
        n = case["n"]
        data = {"rand": lambda: random.Random(case["seed"]).randbytes(n), "zero": lambda: b"\0" * n,
                "text": lambda: (b"some text %d " % case["seed"] * (n // 10 + 1))[:n]}[case["kind"]]()
        g = G.compress(data)
        if gzip.decompress(g) != data:
            return "gzip output of %d bytes holds other data" % n
        if G.decompress(g) != data or G.decompress(gzip.compress(data)) != data:
            return "gzip round trip of %d bytes fails" % n
        s = S.compress(data)
        try:
            bl = blocks(s)
        except Exception as e:
            return "snappy framing of %d bytes: %s" % (n, e)
        import snappy
        want = [data[j:j + 32768] for j in range(0, n, 32768)]
        if [snappy.uncompress(b) for b in bl] != want:
            return "snappy blocks of %d bytes do not cover the input in 32 KiB pieces" % n
        if S.decompress(s) != data:
            return "snappy round trip of %d bytes fails" % n
        own = ensnappy(data, case["cuts"])
        got = S.decompress(own)
        if got != data:
            return "snappy blocks cut at %r of %d bytes decompress to %d other bytes" % (case["cuts"], n, len(got))
        if S.decompress(HEADER) != b"":
            return "no blocks do not decompress to nothing"
