"""Loads the source of /repo (transformed) into fresh modules."""
import builtins
import os
import sys
import types
from . import core, rt, stubs, transform, values
from .core import Unsupported

REPO = os.environ.get("KV_REPO", "/repo")


class Repo:
    def __init__(self, root=REPO):
        self.root = root
        self.mods = {}
        self.trans = {}
        self.snap = {}
        self.patched = {}
        self.builtins = None
        self.lib = None

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def make_builtins(self):
        b = dict(builtins.__dict__)
        b.update({"isinstance": rt.b_isinstance, "issubclass": rt.b_issubclass, "len": rt.b_len,
                  "int": rt.b_int, "str": rt.b_str, "bytes": rt.b_bytes, "list": rt.b_list,
                  "tuple": rt.b_tuple, "set": rt.b_set, "frozenset": rt.b_frozenset, "dict": rt.b_dict,
                  "bool": rt.b_bool, "float": rt.b_float, "type": rt.b_type, "range": rt.b_range,
                  "enumerate": rt.b_enumerate, "zip": rt.b_zip, "iter": rt.b_iter, "next": rt.b_next,
                  "reversed": rt.RevIter, "sorted": rt.b_sorted, "hash": rt.b_hash, "repr": rt.b_repr,
                  "max": rt.b_max, "min": rt.b_min, "callable": rt.b_callable,
                  "print": lambda *a, **k: None, "__build_class__": rt.build_class,
                  "__import__": self.import_, "memoryview": lambda x: x, "bytearray": self.bad("bytearray"),
                  "open": self.bad("open"), "exec": self.bad("exec"), "eval": self.bad("eval")})
        if self.lib is not None:
            for n in ("any", "all", "sum", "map", "filter"):
                b[n] = self.lib.__dict__["b_" + n]
        return b

    def bad(self, what):
        def f(*a, **k):
            raise Unsupported(what)
        return f

    def load_lib(self):
        p = os.path.join(os.path.dirname(__file__), "kvlib.py")
        self.builtins = self.make_builtins()
        self.lib = self.exec_module("kvlib", open(p).read(), p)
        self.builtins.update(self.make_builtins())
        L = self.lib.__dict__
        stubs.functools.partial = L["partial"]
        stubs.functools.reduce = L["reduce"]
        stubs.itertools.chain = Chain(L)
        stubs.itertools.product = L["product"]

    def exec_module(self, name, src, path, pkg=False):
        t = transform.Module(name, src, path)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__kv__"] = RT
        m.__dict__["__kv_module__"] = m
        self.mods[name] = m
        self.trans[name] = t
        for q, why in t.unsupported:
            parts = q.split(".")
            for f in t.functions:
                if q == f or q.startswith(f + "."):
                    UNSUP[f] = why
        rt.LOADING[0] += 1
        try:
            exec(t.code, m.__dict__)
        finally:
            rt.LOADING[0] -= 1
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if self.lib is None:
            self.load_lib()
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        if name in self.mods:
            return self.mods[name]
        p, pkg = self.path(name)
        with open(p) as f:
            src = f.read()
        m = self.exec_module(name, src, p, pkg)
        if parent and name.rpartition(".")[2] not in self.mods[parent].__dict__:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        self.snapshot(m)
        return m

    def snapshot(self, m):
        self.snap[m.__name__] = dict(m.__dict__)

    def patch(self, cls, name, value):
        """A method replaced by its contract, until the next path."""
        if (cls, name) not in self.patched:
            self.patched[cls, name] = cls.__dict__.get(name, self)
        type.__setattr__(cls, name, value)

    def restore(self):
        for (cls, name), old in self.patched.items():
            if old is self:
                type.__delattr__(cls, name)
            else:
                type.__setattr__(cls, name, old)
        self.patched = {}
        for n, d in self.snap.items():
            m = self.mods[n].__dict__
            for k in list(m):
                if k not in d:
                    del m[k]
            m.update(d)
        for m in self.mods.values():
            core.E.register(m)

    def exists(self, name):
        return os.path.exists(self.path(name)[0])

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "kiel" or name.startswith("kiel."):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split(".")[0])
            for f in fromlist:
                if f not in m.__dict__ and hasattr(m, "__path__") and self.exists(name + "." + f):
                    self.load(name + "." + f)
                    if f not in m.__dict__:
                        setattr(m, f, self.mods[name + "." + f])
            return m
        if name == "struct":
            from . import ropes
            return ropes.struct_module
        m = stubs.MODULES.get(name)
        if m is None:
            raise Unsupported("import of %s" % name)
        if not fromlist and "." in name:
            return stubs.MODULES[name.split(".")[0]]
        return m


class Chain:
    def __init__(self, lib):
        self.lib = lib

    def __call__(self, *a):
        return self.lib["chain"](*a)

    def from_iterable(self, x):
        return self.lib["chain_from_iterable"](x)


class _RT:
    pass


RT = _RT()
for _n in dir(rt):
    if not _n.startswith("__"):
        setattr(RT, _n, getattr(rt, _n))
RT.locals = builtins.locals
CURRENT = [None]


UNSUP = {}


def enter(q):
    core.E.funcs_run.add(q)
    if q in UNSUP:
        raise Unsupported(UNSUP[q])


RT.enter = enter


# ------------------------------------------------------------------ records
def record_hook(cls):
    names = [c.__name__ for c in cls.__mro__]
    modname = cls.__dict__.get("__module__", "") or ""
    if not modname.startswith("kiel.protocol"):
        return
    if "Part" in names and cls.__name__ != "Part":
        cls._kv_record = True
        cls._kv_recname = modname.rpartition(".")[2] + "." + cls.__name__
        cls._kv_fields = staticmethod(part_fields)
    elif cls.__name__ == "MessageSet":
        cls._kv_record = True
        cls._kv_recname = "MessageSet"
        cls._kv_fields = staticmethod(lambda x, d: ["messages"])


def part_fields(x, d):
    names = [p[0] for p in type(x).parts]
    mro = [c.__name__ for c in type(x).__mro__]
    if "Request" in mro:
        names += ["api_key", "api_version", "client_id", "correlation_id"]
    if "Response" in mro:
        names += ["correlation_id"]
    return sorted(set(names))


rt.CLASS_HOOKS.append(record_hook)
