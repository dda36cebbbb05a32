"""The wire grammar as documented, written independently of /repo.

A type is: 'b','h','i','q' (big-endian signed integers), 'S'/'B' (length-prefixed
with 16/32 bits, -1 for absent), [T] (array), 'MS' (message set) or a Rec."""
import struct
import zlib

WIDTH = {"b": 1, "h": 2, "i": 4, "q": 8}


class Rec:
    def __init__(self, cls, *fields):
        self.cls, self.fields = cls, fields       # cls: "module.Class" below kiel.protocol


def u(b):
    """JSON form of bytes / back."""
    return {"hex": b.hex()} if isinstance(b, bytes) else b


def raw(x):
    return bytes.fromhex(x["hex"]) if isinstance(x, dict) and set(x) == {"hex"} else x


def bts(x):
    x = raw(x)
    if x is None or isinstance(x, bytes):
        return x
    return (x if isinstance(x, str) else str(x)).encode("utf-8")


def enc(T, v):
    if isinstance(T, Rec):
        return b"".join(enc(t, v[n]) for n, t in T.fields)
    if isinstance(T, list):
        return struct.pack("!i", len(v)) + b"".join(enc(T[0], x) for x in v)
    if T in WIDTH:
        return struct.pack("!" + T, v)
    if T in ("S", "B"):
        w = "!h" if T == "S" else "!i"
        b = bts(v)
        return struct.pack(w, -1) if b is None else struct.pack(w, len(b)) + b
    if T == "MS":
        s = enc_set(v)
        return struct.pack("!i", len(s)) + s
    raise AssertionError(T)


def body(key, value, attributes=0, magic=0):
    p = struct.pack("!bb", magic, attributes) + enc("B", key) + enc("B", value)
    return struct.pack("!I", zlib.crc32(p) & 0xffffffff) + p


def enc_set(v):
    """v: a raw set {"hex"}, or a list of [offset, key, value(, attributes)]"""
    if not isinstance(v, list):
        return raw(v)
    out = b""
    for m in v:
        b = body(m[1], m[2], m[3] if len(m) > 3 else 0)
        out += struct.pack("!qi", m[0], len(b)) + b
    return out


class Short(Exception):
    pass


def take(buf, off, n):
    if n < 0 or off + n > len(buf):
        raise Short("%d bytes at %d of %d" % (n, off, len(buf)))
    return buf[off:off + n], off + n


def dec(T, buf, off=0):
    if isinstance(T, Rec):
        d = {}
        for n, t in T.fields:
            d[n], off = dec(t, buf, off)
        return d, off
    if isinstance(T, list):
        n, off = dec("i", buf, off)
        out = []
        for _ in range(n):
            x, off = dec(T[0], buf, off)
            out.append(x)
        return out, off
    if T in WIDTH:
        b, off = take(buf, off, WIDTH[T])
        return struct.unpack("!" + T, b)[0], off
    if T in ("S", "B"):
        n, off = dec("h" if T == "S" else "i", buf, off)
        if n == -1:
            return None, off
        return take(buf, off, n)
    if T == "MS":
        n, off = dec("i", buf, off)
        s, off = take(buf, off, n)
        return dec_set(s), off
    raise AssertionError(T)


def dec_set(s):
    """[(offset, magic, attributes, key, value)], every size and crc checked"""
    out, off = [], 0
    while off < len(s):
        o, off = dec("q", s, off)
        n, off = dec("i", s, off)
        b, off = take(s, off, n)
        crc = struct.unpack("!I", b[:4])[0]
        if crc != zlib.crc32(b[4:]) & 0xffffffff:
            raise Short("crc of a message does not match")
        magic, p = dec("b", b, 4)
        attr, p = dec("b", b, p)
        k, p = dec("B", b, p)
        v, p = dec("B", b, p)
        if p != len(b):
            raise Short("message size does not match its body")
        out.append((o, magic, attr, k, v))
    return out


R = Rec
_ta = R("{}.TopicAssignment", ("name", "S"), ("partitions", ["i"]))


def assignment(m):
    return R(m + ".Assignment", ("version", "h"),
             ("topics", [R(m + ".TopicAssignment", ("name", "S"), ("partitions", ["i"]))]), ("user_data", "B"))


def tp(mod, cls, *fields, **kw):
    return [R("%s.Topic%s" % (mod, cls), ("name", "S"),
              ("partitions", [R("%s.Partition%s" % (mod, cls), *fields)]))]


REQUESTS = {
    "produce": R("produce.ProduceRequest", ("required_acks", "h"), ("timeout", "i"),
                 ("topics", tp("produce", "Request", ("partition_id", "i"), ("message_set", "MS")))),
    "fetch": R("fetch.FetchRequest", ("replica_id", "i"), ("max_wait_time", "i"), ("min_bytes", "i"),
               ("topics", tp("fetch", "Request", ("partition_id", "i"), ("offset", "q"), ("max_bytes", "i")))),
    "offset": R("offset.OffsetRequest", ("replica_id", "i"),
                ("topics", tp("offset", "Request", ("partition_id", "i"), ("time", "q"), ("max_offsets", "i")))),
    "metadata": R("metadata.MetadataRequest", ("topics", ["S"])),
    "offset_commit": R("offset_commit.OffsetCommitV0Request", ("group", "S"),
                       ("topics", tp("offset_commit", "Request", ("partition_id", "i"), ("offset", "q"),
                                     ("metadata", "S")))),
    "offset_commit/1": R("offset_commit.OffsetCommitV1Request", ("group", "S"), ("generation", "i"),
                         ("consumer_id", "i"),
                         ("topics", tp("offset_commit", "V1Request", ("partition_id", "i"), ("offset", "q"),
                                       ("timestamp", "q"), ("metadata", "S")))),
    "offset_commit/2": R("offset_commit.OffsetCommitV2Request", ("group", "S"), ("generation", "i"),
                         ("consumer_id", "i"), ("retention_time", "q"),
                         ("topics", tp("offset_commit", "Request", ("partition_id", "i"), ("offset", "q"),
                                       ("metadata", "S")))),
    "offset_fetch": R("offset_fetch.OffsetFetchRequest", ("group_name", "S"),
                      ("topics", [R("offset_fetch.TopicRequest", ("name", "S"), ("partitions", ["i"]))])),
    "group_coordinator": R("coordinator.GroupCoordinatorRequest", ("group", "S")),
    "join_group": R("join_group.JoinGroupRequest", ("group_id", "S"), ("session_timeout", "i"), ("member_id", "S"),
                    ("protocol_type", "S"),
                    ("group_protocols", [R("join_group.GroupProtocol", ("name", "S"), ("version", "h"),
                                           ("subscription", ["S"]), ("user_data", "B"))])),
    "heartbeat": R("heartbeat.HeartbeatRequest", ("group_id", "S"), ("generation_id", "i"), ("member_id", "S")),
    "leave_group": R("leave_group.LeaveGroupRequest", ("group_id", "S"), ("member_id", "S")),
    "sync_group": R("sync_group.SyncGroupRequest", ("group_id", "S"), ("generation_id", "i"), ("member_id", "S"),
                    ("assignments", [R("sync_group.MemberAssignment", ("member_id", "S"),
                                       ("assignment", assignment("sync_group")))])),
    "describe_groups": R("describe_groups.DescribeGroupsRequest", ("groups", ["S"])),
    "list_groups": R("list_groups.ListGroupsRequest"),
}
RESPONSES = {
    "produce": R("produce.ProduceResponse",
                 ("topics", tp("produce", "Response", ("partition_id", "i"), ("error_code", "h"), ("offset", "q")))),
    "fetch": R("fetch.FetchResponse",
               ("topics", tp("fetch", "Response", ("partition_id", "i"), ("error_code", "h"),
                             ("highwater_mark_offset", "q"), ("message_set", "MS")))),
    "offset": R("offset.OffsetResponse",
                ("topics", tp("offset", "Response", ("partition_id", "i"), ("error_code", "h"), ("offsets", ["q"])))),
    "metadata": R("metadata.MetadataResponse",
                  ("brokers", [R("metadata.Broker", ("broker_id", "i"), ("host", "S"), ("port", "i"))]),
                  ("topics", [R("metadata.TopicMetadata", ("error_code", "h"), ("name", "S"),
                                ("partitions", [R("metadata.PartitionMetadata", ("error_code", "h"),
                                                  ("partition_id", "i"), ("leader", "i"), ("replicas", ["i"]),
                                                  ("isrs", ["i"]))]))])),
    "offset_commit": R("offset_commit.OffsetCommitResponse",
                       ("topics", tp("offset_commit", "Response", ("partition_id", "i"), ("error_code", "h")))),
    "offset_fetch": R("offset_fetch.OffsetFetchResponse",
                      ("topics", tp("offset_fetch", "Response", ("partition_id", "i"), ("offset", "q"),
                                    ("metadata", "S"), ("error_code", "h")))),
    "group_coordinator": R("coordinator.GroupCoordinatorResponse", ("error_code", "h"), ("coordinator_id", "i"),
                           ("coordinator_host", "S"), ("coordinator_port", "i")),
    "join_group": R("join_group.JoinGroupResponse", ("error_code", "h"), ("generation_id", "i"), ("protocol", "S"),
                    ("leader_id", "S"), ("member_id", "S"),
                    ("members", [R("join_group.Member", ("member_id", "S"), ("metadata", "B"))])),
    "heartbeat": R("heartbeat.HeartbeatResponse", ("error_code", "h")),
    "leave_group": R("leave_group.LeaveGroupResponse", ("error_code", "h")),
    "sync_group": R("sync_group.SyncGroupResponse", ("error_code", "h"),
                    ("assignments", [R("sync_group.MemberAssignment", ("member_id", "S"),
                                       ("assignment", assignment("sync_group")))])),
    "describe_groups": R("describe_groups.DescribeGroupsResponse",
                         ("groups", [R("describe_groups.GroupDescription", ("error_code", "h"), ("group_id", "S"),
                                       ("state", "S"), ("protocol_type", "S"), ("protocol", "S"),
                                       ("members", [R("describe_groups.MemberDescription", ("member_id", "S"),
                                                      ("client_id", "S"), ("client_host", "S"), ("metadata", "B"),
                                                      ("assignment", assignment("describe_groups")))]))])),
    "list_groups": R("list_groups.ListGroupsResponse", ("error_code", "h"),
                     ("groups", [R("list_groups.Group", ("group_id", "S"), ("protocol_type", "S"))])),
}
KEYS = {"produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8, "offset_fetch": 9,
        "group_coordinator": 10, "join_group": 11, "heartbeat": 12, "leave_group": 13, "sync_group": 14,
        "describe_groups": 15, "list_groups": 16}
NAMES = {v: k for k, v in KEYS.items()}
RETRIABLE = (2, 3, 5, 6, 7, 14, 15, 16, 19, 20)
CODES = [0, -1] + [c for c in range(1, 32) if c != 13]


def header(api, corr):
    return struct.pack("!hhi", KEYS[api], 0, corr) + enc("S", "kiel")


def request(payload):
    """A request as a broker reads it; Short if it is not the grammar's."""
    key, off = dec("h", payload)
    ver, off = dec("h", payload, off)
    corr, off = dec("i", payload, off)
    cid, off = dec("S", payload, off)
    if ver != 0 or cid != b"kiel":
        raise Short("bad request header")
    api = NAMES[key]
    v, off = dec(REQUESTS[api], payload, off)
    if off != len(payload):
        raise Short("%d bytes after the end of a %s request" % (len(payload) - off, api))
    return api, corr, v
