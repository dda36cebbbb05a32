"""In-process ZooKeeper stand-in, installed as kazoo.client.KazooClient."""
import collections
import threading
import time

import kazoo.client
from kazoo import exceptions
from kazoo.client import KazooState

SERVER = None
Stat = collections.namedtuple("Stat", "owner_session_id ephemeralOwner version")


class Server:
    def __init__(self):
        global SERVER
        SERVER = self
        self.nodes = {"/": [b"", None, 0]}
        self.data_w, self.child_w = [], []
        self.clients = []
        self.sessions = 100
        self.log = []
        self.holders = {}           # lock path -> client
        self.fail = {}              # op name -> exception
        self.connect = lambda c: c.notify(KazooState.CONNECTED)
        self.on_acquire = None
        self.on_release = None
        self.on_commit = None       # called before a transaction is done
        self.on_create = None       # called with the path before a node is created
        self.defer = None           # None: watches fire at once; else: list that collects the calls

    def fire(self, f, *a):
        if self.defer is not None:
            self.defer.append((f, a))
        else:
            f(*a)

    def touched(self, path, existence):
        for p, f in list(self.data_w):
            if p == path:
                n = self.nodes.get(path)
                self.fire(f, n[0] if n else None, stat(n) if n else None)
        if existence:
            par = path.rpartition("/")[0] or "/"
            for p, f in list(self.child_w):
                if p == par and par in self.nodes:
                    self.fire(f, self.children(par))

    def children(self, path):
        pre = path.rstrip("/") + "/"
        return [p[len(pre):] for p in self.nodes if p.startswith(pre) and "/" not in p[len(pre):] and p != path]

    def make(self, path, value=b"", owner=None):
        if path in self.nodes:
            raise exceptions.NodeExistsError()
        par = path.rpartition("/")[0] or "/"
        if par not in self.nodes:
            raise exceptions.NoNodeError()
        if self.nodes[par][1] is not None:
            raise exceptions.NoChildrenForEphemeralsError()
        self.nodes[path] = [value, owner, 0]
        self.touched(path, True)

    def make_all(self, path):
        cur = ""
        for part in path.strip("/").split("/"):
            cur += "/" + part
            if cur not in self.nodes:
                self.make(cur)

    def put(self, path, value):
        if path not in self.nodes:
            raise exceptions.NoNodeError()
        self.nodes[path][0] = value
        self.nodes[path][2] += 1
        self.touched(path, False)

    def drop(self, path):
        if path not in self.nodes:
            raise exceptions.NoNodeError()
        if self.children(path):
            raise exceptions.NotEmptyError()
        del self.nodes[path]
        self.touched(path, True)

    def expire(self, session):
        for p in [p for p, n in self.nodes.items() if n[1] == session]:
            self.drop(p)


def stat(n):
    return Stat(n[1] or 0, n[1] or 0, n[2])


class FakeKazoo:
    def __init__(self, hosts="127.0.0.1:2181", *a, **k):
        self.server = SERVER
        self.hosts = hosts
        self.server.sessions += 1
        self.client_id = (self.server.sessions, b"pw")
        self.listeners = []
        self.state = KazooState.LOST
        self.started = self.stopped = self.closed = False
        self.server.clients.append(self)
        self.held = []

    def op(self, name, *a):
        self.server.log.append((self.client_id[0], name) + a + (tuple(self.held),))
        x = self.server.fail.get(name)
        if x is not None:
            raise x

    @property
    def connected(self):
        return self.state == KazooState.CONNECTED

    def add_listener(self, f):
        self.listeners.append(f)

    def remove_listener(self, f):
        self.listeners.remove(f)

    def notify(self, state):
        self.state = state
        for f in list(self.listeners):
            f(state)

    def start_async(self):
        self.op("start")
        self.started = True
        self.server.connect(self)
        e = threading.Event()
        e.set()
        return e

    def start(self, timeout=15):
        self.start_async()

    def stop(self):
        self.op("stop")
        self.stopped = True
        self.server.expire(self.client_id[0])

    def close(self):
        self.op("close")
        self.closed = True

    def ensure_path(self, path, acl=None):
        self.op("ensure_path", path)
        self.server.make_all(path)
        return True

    def exists(self, path, watch=None):
        self.op("exists", path)
        n = self.server.nodes.get(path)
        return stat(n) if n else None

    def get(self, path, watch=None):
        self.op("get", path)
        n = self.server.nodes.get(path)
        if n is None:
            raise exceptions.NoNodeError()
        return n[0], stat(n)

    def get_children(self, path, watch=None, include_data=False):
        self.op("get_children", path)
        if path not in self.server.nodes:
            raise exceptions.NoNodeError()
        return self.server.children(path)

    def set(self, path, value, version=-1):
        if not isinstance(value, bytes):
            raise TypeError("Invalid type for 'value' (must be a byte string)")
        self.op("set", path, value)
        self.server.put(path, value)
        return stat(self.server.nodes[path])

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False, makepath=False,
               include_data=False):
        if value is not None and not isinstance(value, bytes):
            raise TypeError("Invalid type for 'value' (must be a byte string)")
        self.op("create", path, value, ephemeral)
        if self.server.on_create is not None:
            self.server.on_create(path)
        if makepath:
            par = path.rpartition("/")[0]
            if par:
                self.server.make_all(par)
        self.server.make(path, value or b"", self.client_id[0] if ephemeral else None)
        return path

    def delete(self, path, version=-1, recursive=False):
        self.op("delete", path)
        self.server.drop(path)
        return True

    def transaction(self):
        return Txn(self)

    def Lock(self, path, identifier=None):
        return Lock(self, path)

    WriteLock = Lock

    def DataWatch(self, path, func=None, *a, **k):
        def reg(f):
            def call(data, st):
                f(data, st)
            self.server.data_w.append((path, call))
            n = self.server.nodes.get(path)
            self.server.fire(call, n[0] if n else None, stat(n) if n else None)
            return f
        return reg if func is None else reg(func)

    def ChildrenWatch(self, path, func=None, *a, **k):
        def reg(f):
            def call(ch):
                f(ch)
            self.server.child_w.append((path, call))
            if path not in self.server.nodes:
                raise exceptions.NoNodeError()
            self.server.fire(call, self.server.children(path))
            return f
        return reg if func is None else reg(func)


class Txn:
    def __init__(self, client):
        self.client, self.ops = client, []

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False):
        self.ops.append(("create", path, value, ephemeral))

    def delete(self, path, version=-1):
        self.ops.append(("delete", path))

    def set_data(self, path, value, version=-1):
        self.ops.append(("set", path, value))

    def check(self, path, version):
        self.ops.append(("check", path))

    def commit(self):
        c, s = self.client, self.client.server
        c.op("commit", tuple(self.ops))
        if s.on_commit is not None:
            s.on_commit()
        saved = {p: list(n) for p, n in s.nodes.items()}
        defer, s.defer = s.defer, []
        out = []
        try:
            for o in self.ops:
                if o[0] == "create":
                    s.make(o[1], o[2], c.client_id[0] if o[3] else None)
                elif o[0] == "delete":
                    s.drop(o[1])
                elif o[0] == "set":
                    s.put(o[1], o[2])
                out.append(True)
        except exceptions.KazooException as e:
            s.nodes = saved
            s.defer = defer
            return [e] * len(self.ops)
        pend, s.defer = s.defer, defer
        for f, a in pend:
            s.fire(f, *a)
        return out

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if not t:
            self.commit()


class Lock:
    def __init__(self, client, path):
        self.client, self.path = client, path

    def acquire(self, blocking=True, timeout=None, **k):
        s = self.client.server
        s.log.append((self.client.client_id[0], "acquire", self.path, tuple(self.client.held)))
        if s.on_acquire is not None:
            s.on_acquire(self)
        if s.holders.get(self.path) is not None:
            raise RuntimeError("deadlock: lock already held")
        s.holders[self.path] = self.client
        self.client.held.append(self.path)
        return True

    def release(self):
        s = self.client.server
        s.log.append((self.client.client_id[0], "release", self.path, tuple(self.client.held)))
        s.holders.pop(self.path, None)
        self.client.held.remove(self.path)
        if s.on_release is not None:
            s.on_release(self)
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


kazoo.client.KazooClient = FakeKazoo
