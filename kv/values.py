"""Symbolic Python values and their correspondence with terms of sort V."""
import z3
from . import core
from .core import (V, SeqV, NONE, UNDEF, PathEnd, Unsupported, mk_int, int_of, mk_bool,
                   bool_of, mk_list, seq_of, mk_dict, ddom, dval, mk_set, sdom,
                   EMPTY_SEQ, EMPTY_DOM, EMPTY_VAL, kind, truthy_f, strid)

I = z3.IntSort()


def E():
    return core.E


# ---------------------------------------------------------------- descriptors
class Ty:
    def __init__(self, k, *args, **kw):
        self.k, self.args = k, args
        self.factory = kw.get("factory")
        self.cls = kw.get("cls")
        self.fields = kw.get("fields")
        self.wrapper = kw.get("wrapper")
        self.total = kw.get("total", False)

    def __repr__(self):
        if self.k == "rec":
            return "rec:" + getattr(self.cls, "__name__", "?")
        return self.k + (repr(list(self.args)) if self.args else "")


TInt, TBool, TStr, TBytes, TAny, TNone = [Ty(k) for k in ("int", "bool", "str", "bytes", "any", "none")]


def TList(t):
    return Ty("list", t)


def TSet(t):
    return Ty("set", t)


def TDict(kt, vt, factory=None, total=False):
    return Ty("dict", kt, vt, factory=factory, total=total)


def TOpt(t):
    return Ty("opt", t)


def TTuple(*ts):
    return Ty("tuple", *ts)


def TRec(cls, **fields):
    return Ty("rec", cls=cls, fields=fields)


def TObj(wrapper):
    return Ty("obj", wrapper=wrapper)


def tjoin(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    if a.k == b.k:
        if a.k in ("int", "bool", "str", "bytes", "any", "none"):
            return a
        if a.k in ("list", "set"):
            return Ty(a.k, tjoin(a.args[0], b.args[0]))
        if a.k == "dict":
            return Ty("dict", tjoin(a.args[0], b.args[0]), tjoin(a.args[1], b.args[1]),
                      factory=a.factory or b.factory, total=a.total)
        if a.k == "opt":
            return TOpt(tjoin(a.args[0], b.args[0]))
        if a.k == "tuple" and len(a.args) == len(b.args):
            return Ty("tuple", *[tjoin(x, y) for x, y in zip(a.args, b.args)])
        if a.k == "rec" and a.cls is b.cls and set(a.fields) == set(b.fields):
            return Ty("rec", cls=a.cls, fields={f: tjoin(a.fields[f], b.fields[f]) for f in a.fields})
        if a.k == "obj":
            return a if a.wrapper is b.wrapper else TAny
        return TAny
    if a.k == "none":
        return b if b.k == "opt" else TOpt(b)
    if b.k == "none":
        return a if a.k == "opt" else TOpt(a)
    if a.k == "opt":
        return TOpt(tjoin(a.args[0], b))
    if b.k == "opt":
        return TOpt(tjoin(a, b.args[0]))
    return TAny


# ---------------------------------------------------------------- scalars
def iterm(x):
    """z3 Int of an int-like value, or None."""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return None


fdiv_f = z3.Function("fdiv", I, I, I)


imod_f = z3.Function("imod", I, I, I)


def imod(a, b):
    """a mod b for a symbolic b: what is used of it is that it is a remainder."""
    t = imod_f(a, b)
    E().axiom_once(t, z3.Implies(b > 0, z3.And(t >= 0, t < b)),
                   z3.Implies(z3.And(a >= 0, a < b), t == a))
    return t


def fdiv(a, b):
    """floor division, b > 0 known"""
    if z3.is_int_value(b):
        return a / b
    return fdiv_f(a, b)


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.simplify(t) if not z3.is_const(t) else t

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)

    def _bin(self, o, f):
        u = iterm(o)
        if u is None:
            return NotImplemented
        return SInt.mk(f(self.t, u))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes)):
            raise Unsupported("repetition of a string")
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SInt.mk(-self.t)
    def __pos__(self): return self

    def __abs__(self):
        return self if E().fork(self.t >= 0) else SInt.mk(-self.t)

    def __truediv__(self, o):
        u = iterm(o)
        return NotImplemented if u is None else SRatio.mk(self.t, u)

    def __rtruediv__(self, o):
        u = iterm(o)
        return NotImplemented if u is None else SRatio.mk(u, self.t)

    def _fd(self, a, b):
        if E().fork(b == 0):
            raise ZeroDivisionError("division by zero")
        if not E().fork(b > 0):
            raise Unsupported("division by a negative number")
        return a, b

    def __floordiv__(self, o):
        u = iterm(o)
        if u is None:
            return NotImplemented
        a, b = self._fd(self.t, u)
        return SInt.mk(fdiv(a, b))

    def __rfloordiv__(self, o):
        a, b = self._fd(iterm(o), self.t)
        return SInt.mk(fdiv(a, b))

    def __mod__(self, o):
        u = iterm(o)
        if u is None:
            return NotImplemented
        a, b = self._fd(self.t, u)
        return SInt.mk(a % b if z3.is_int_value(b) else imod(a, b))

    def __divmod__(self, o):
        return self // o, self % o

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return SInt.mk(self.t % (o + 1))
        raise Unsupported("bit operation on symbolic ints")
    __rand__ = __and__

    def __or__(self, o): raise Unsupported("bit operation on symbolic ints")
    __ror__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = __invert__ = __or__

    def _cmp(self, o, f):
        u = iterm(o)
        if u is None:
            return NotImplemented
        return SBool.mk(f(self.t, u))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        u = iterm(o)
        if u is None:
            if isinstance(o, SVal):
                return SBool.mk(lift(self) == o.v)
            return False
        return SBool.mk(self.t == u)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic int")

    def __bool__(self):
        return E().fork(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic int used as an index")

    def __repr__(self):
        return "<int %s>" % self.t


class SRatio(Sym):
    """An exact quotient; stands for the float of a true division."""
    __slots__ = ("n", "d")

    @staticmethod
    def mk(n, d):
        if E().fork(d == 0):
            raise ZeroDivisionError("division by zero")
        r = SRatio()
        r.n, r.d = n, d
        return r

    def to_int(self):
        n, d = self.n, self.d
        if not E().fork(d > 0):
            n, d = -n, -d
        if E().fork(n >= 0):
            return SInt.mk(fdiv(n, d))
        return SInt.mk(-fdiv(-n, d))

    def _lin(self, o, f):
        u = iterm(o)
        if u is not None:
            return SRatio.mk(f(self.n, u * self.d), self.d)
        if isinstance(o, SRatio):
            return SRatio.mk(f(self.n * o.d, o.n * self.d), self.d * o.d)
        return NotImplemented

    def __add__(self, o): return self._lin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._lin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._lin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._lin(o, lambda a, b: b - a)
    def __neg__(self): return SRatio.mk(-self.n, self.d)

    def _cmp(self, o, f):
        r = self._lin(o, lambda a, b: a - b)
        if r is NotImplemented:
            return r
        if not E().fork(r.d > 0):
            raise Unsupported("comparison of quotients by negative numbers")
        return SBool.mk(f(r.n, z3.IntVal(0)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def floor(self):
        if not E().fork(self.d > 0):
            raise Unsupported("floor of a quotient by a negative number")
        return SInt.mk(fdiv(self.n, self.d))

    def __bool__(self):
        return E().fork(self.n != 0)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def z3bool(self):
        return self.t

    def __bool__(self):
        return E().fork(self.t)

    def __eq__(self, o):
        if isinstance(o, bool):
            return SBool.mk(self.t == z3.BoolVal(o))
        if isinstance(o, SBool):
            return SBool.mk(self.t == o.t)
        u = iterm(o)
        if u is not None:
            return SBool.mk(iterm(self) == u)
        if isinstance(o, SVal):
            return SBool.mk(lift(self) == o.v)
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __and__(self, o):
        return SBool.mk(z3.And(self.t, core.asbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool.mk(z3.Or(self.t, core.asbool(o)))
    __ror__ = __or__

    def __add__(self, o):
        return SInt.mk(iterm(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return "<bool %s>" % self.t


def not_(r):
    if r is NotImplemented:
        return r
    if isinstance(r, SBool):
        return SBool.mk(z3.Not(r.t))
    return not r


class SVal(Sym):
    """A value nothing is known about but its identity/equality."""
    __slots__ = ("v", "origin", "opt")

    def __init__(self, v, origin=None, opt=None):
        self.v, self.origin, self.opt = v, origin, opt

    def __eq__(self, o):
        return SBool.mk(self.v == lift(o))

    def __ne__(self, o):
        return SBool.mk(self.v != lift(o))

    def __hash__(self):
        raise Unsupported("hash of an opaque value")

    def __bool__(self):
        return E().fork(truthy_f(self.v))

    def __getattr__(self, name):
        if name.startswith("_kv") or name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of an opaque value" % name)

    def __call__(self, *a, **k):
        raise Unsupported("call of an opaque value")

    def __iter__(self):
        raise Unsupported("iteration over an opaque value")

    def __getitem__(self, k):
        raise Unsupported("subscript of an opaque value")

    def __len__(self):
        raise Unsupported("len of an opaque value")

    def _no(self, *a):
        raise Unsupported("operation on an opaque value")
    __add__ = __radd__ = __sub__ = __rsub__ = __lt__ = __gt__ = __le__ = __ge__ = __mul__ = _no
    __mod__ = __and__ = __or__ = __contains__ = _no

    def __repr__(self):
        return "<val %s>" % self.v


class Dead:
    """A name whose value is unknown at this point (e.g. a loop local)."""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported("use of a value unknown here: %s" % object.__getattribute__(self, "why"))
    __getattr__ = __setattr__ = __bool__ = __call__ = __iter__ = __getitem__ = __setitem__ = _no
    __len__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = _no
    __sub__ = __rsub__ = __hash__ = __contains__ = __str__ = __mod__ = __and__ = __or__ = _no
    __enter__ = __exit__ = __truediv__ = __floordiv__ = __mul__ = _no

    def __repr__(self):
        return "<dead>"


# ---------------------------------------------------------------- lifting
def is_native_record(x):
    return getattr(type(x), "_kv_record", False)


def strlit(s):
    e = E()
    tag = ("s" if isinstance(s, str) else "b")
    key = (tag, s)
    if key not in e.strlits:
        c = z3.Const("lit_%s_%r" % (tag, s), V)
        e.strlits[key] = c
        k = core.K_STR if tag == "s" else core.K_BYTES
        e.add(strid(c) == len(e.strlits), kind(c) == k, truthy_f(c) == bool(s))
        from . import ropes
        ropes.literal_axioms(c, s)
    return e.strlits[key]


def obj_const(o):
    e = E()
    if id(o) not in e.objconst:
        n = len(e.objconst)
        c = z3.Const("obj!%d" % n, V)
        e.objconst[id(o)] = c
        e.keep.append(o)
        e.add(kind(c) == core.K_OBJ, strid(c) == -1 - n, truthy_f(c))
    return e.objconst[id(o)]


def lift(x):
    """The V term of a value (a snapshot of mutable ones)."""
    if x is None:
        return NONE
    if isinstance(x, bool):
        return mk_bool(x)
    if isinstance(x, int):
        return mk_int(x)
    if isinstance(x, SInt):
        return mk_int(x.t)
    if isinstance(x, SBool):
        return mk_bool(x.t)
    if isinstance(x, SVal):
        return x.v
    if isinstance(x, (str, bytes)):
        return strlit(x)
    lv = getattr(x, "_kv_lift", None)
    if lv is not None and not isinstance(x, (Dead, type)):
        return lv()
    if isinstance(x, tuple):
        return core.mk_tuple(*[lift(i) for i in x])
    if isinstance(x, Dead):
        x._no()
    if isinstance(x, (list, dict, set, frozenset)):
        return lift(sympy_container(x))
    if is_native_record(x):
        return lift_record(x)
    if isinstance(x, z3.ExprRef):
        raise Unsupported("internal: lifting a z3 term")
    return obj_const(x)


def lift_record(x):
    src = x.__dict__.get("_kv_src")
    if src is not None and not view_dirty(x, x.__dict__["_kv_ver"]):
        return src
    d = {k: v for k, v in x.__dict__.items() if not k.startswith("_kv")}
    r = core.rec(type(x)._kv_recname, sorted(type(x)._kv_fields(x, d)))
    return r.mk({f: lift(d[f]) if f in d else UNDEF for f in r.fields})


def typeof(x):
    if x is None:
        return TNone
    if isinstance(x, (bool, SBool)):
        return TBool
    if isinstance(x, (int, SInt)):
        return TInt
    if isinstance(x, SVal):
        return TAny
    if isinstance(x, str):
        return TStr
    if isinstance(x, bytes):
        return TBytes
    t = getattr(x, "_kv_type", None)
    if t is not None and not isinstance(x, (Dead, type)):
        return t()
    if isinstance(x, tuple):
        return TTuple(*[typeof(i) for i in x])
    if isinstance(x, (list, dict, set, frozenset)):
        return typeof(sympy_container(x))
    if is_native_record(x):
        d = {k: v for k, v in x.__dict__.items() if not k.startswith("_kv")}
        return TRec(type(x), **{f: typeof(d[f]) for f in type(x)._kv_fields(x, d) if f in d})
    return Ty("const", x, cls=x)


def sympy_container(x):
    if isinstance(x, list):
        return SList.of(x)
    if isinstance(x, dict):
        return SDict.of(x)
    return SSet.of(x)


def wrap(v, t, ro=False, origin=None):
    """The Python value of a V term known to have type t."""
    if t is None:
        raise Unsupported("value of unknown type")
    k = t.k
    if k == "int":
        e = E()
        iv = int_of(v)
        key = ("ci", v.get_id())
        if key not in e.ax_seen:
            e.ax_seen.add(key)
            e.keep.append(v)
            e.add(v == mk_int(iv))
        return SInt.mk(iv)
    if k == "bool":
        bv = bool_of(v)
        e = E()
        key = ("cb", v.get_id())
        if key not in e.ax_seen:
            e.ax_seen.add(key)
            e.keep.append(v)
            e.add(v == mk_bool(bv))
        return SBool.mk(bv)
    if k == "any":
        return SVal(v, origin)
    if k == "none":
        return None
    if k == "str":
        from . import ropes
        return ropes.SStr.atom(v)
    if k == "bytes":
        from . import ropes
        return ropes.SBytes.atom(v)
    if k == "opt":
        if E().fork(v == NONE):
            return None
        return wrap(v, t.args[0], ro, origin)
    if k == "list":
        s = seq_of(v)
        canon(v, lambda: v == mk_list(s))
        L = SList(s, t.args[0])
        L.ro = ro
        return L
    if k == "set":
        canon(v, lambda: v == mk_set(sdom(v)))
        S = SSet(sdom(v), t.args[0])
        S.ro = ro
        return S
    if k == "dict":
        canon(v, lambda: v == mk_dict(ddom(v), dval(v)))
        D = SDict(ddom(v), dval(v), t.args[0], t.args[1], factory=t.factory, total=t.total)
        D.ro = ro
        D.src = v
        return D
    if k == "tuple":
        n = len(t.args)
        key = ("ct", v.get_id())
        e = E()
        if key not in e.ax_seen:
            e.ax_seen.add(key)
            e.keep.append(v)
            e.add(v == core.mk_tuple(*[core.tup_proj(n, i)(v) for i in range(n)]))
        return tuple(wrap(core.tup_proj(n, i)(v), t.args[i], ro) for i in range(n))
    if k == "rec":
        cls = t.cls
        r = core.rec(cls._kv_recname, sorted(t.fields))
        r.canon(v)
        o = object.__new__(cls)
        for f in r.fields:
            x = wrap_lazy(r.proj[f](v), t.fields[f], ro, o)
            o.__dict__[f] = x
        o.__dict__["_kv_src"] = v
        o.__dict__["_kv_ro"] = ro
        o.__dict__["_kv_ver"] = len(E().mutlog)
        E().register(o)
        return o
    if k == "obj":
        return t.wrapper(v)
    if k == "const":
        E().add(v == lift(t.cls))
        return t.cls
    raise Unsupported("wrap of type %s" % t)


def wrap_lazy(v, t, ro, origin):
    if t.k == "opt":
        return SOpt(v, t.args[0], ro) if False else wrap_opt(v, t, ro, origin)
    return wrap(v, t, ro, origin)


def wrap_opt(v, t, ro, origin):
    # optional scalars stay opaque until tested
    return SVal(v, origin, opt=t.args[0])


def canon(v, mk):
    e = E()
    key = ("cc", v.get_id())
    if key not in e.ax_seen:
        e.ax_seen.add(key)
        e.keep.append(v)
        e.add(mk())


# ---------------------------------------------------------------- containers
class Mut:
    """Base of mutable symbolic containers."""
    _kv_record = False

    def _init(self):
        self.ro = False
        self.parents = []
        self.detached = None
        self.holders = 0
        E().register(self)

    def touch(self):
        """About to mutate."""
        if self.ro:
            raise Unsupported("mutation of an input value")
        if self.detached:
            raise Unsupported("mutation of a container whose holder was summarised (%s)" % self.detached)
        if self.holders > 1:
            raise Unsupported("mutation of a container held in two places")
        self.mark()

    def mark(self):
        E().mutated(self)
        self._prop(set())

    def _prop(self, seen):
        for p in self.parents:
            if id(p) in seen:
                continue
            seen.add(id(p))
            E().mutated(p, None, self)
            if hasattr(p, "_prop"):
                p._prop(seen)

    def use(self):
        if self.detached:
            raise Unsupported("use of a container whose holder was summarised (%s)" % self.detached)

    def __hash__(self):
        raise TypeError("unhashable type")

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __eq__(self, o):
        if isinstance(o, (list, dict, set)):
            o = sympy_container(o)
        if type(o) is not type(self):
            if isinstance(o, SVal):
                return SBool.mk(lift(self) == o.v)
            return False
        return SBool.mk(lift(self) == lift(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))


def adopt(parent, child):
    """child (mutable) becomes reachable from parent."""
    if isinstance(child, Mut):
        child.holders += 1
        child.parents.append(parent)
    elif is_native_record(child):
        ps = child.__dict__.setdefault("_kv_parents", [])
        ps.append(parent)
        for f, x in list(child.__dict__.items()):
            if not f.startswith("_kv") and isinstance(x, Mut) and not any(p is child for p in x.parents):
                x.parents.append(RecProxy.get(child))


class RecProxy:
    """Parent link through a native record."""

    def __init__(self, o):
        self.o = o

    @staticmethod
    def get(o):
        p = o.__dict__.get("_kv_proxy")
        if p is None:
            p = RecProxy(o)
            o.__dict__["_kv_proxy"] = p
        return p

    def _prop(self, seen):
        for p in self.o.__dict__.get("_kv_parents", ()):
            if id(p) in seen:
                continue
            seen.add(id(p))
            E().mutated(p, None, self.o)
            if hasattr(p, "_prop"):
                p._prop(seen)


def live_view(x):
    return isinstance(x, Mut) or is_native_record(x)


class SList(Mut):
    """A Python list: an arbitrary sequence of V followed by live elements."""

    def __init__(self, base=None, elemT=None, tail=None):
        self._init()
        self.base = base          # Seq(V) term or None for empty
        self.elemT = elemT
        self.tail = tail if tail is not None else []

    @classmethod
    def of(cls, xs):
        L = cls(None, None, list(xs))
        for x in L.tail:
            adopt(L, x)
        return L

    # -- terms
    def seq(self):
        self.use()
        parts = [] if self.base is None else [self.base]
        for x in self.tail:
            if getattr(x, "_kv_segment", False):
                parts.append(x.seq_term())
            else:
                parts.append(z3.Unit(lift(x)))
        if not parts:
            return EMPTY_SEQ
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def _kv_lift(self):
        return mk_list(self.seq())

    def _kv_type(self):
        t = self.elemT
        for x in self.tail:
            if getattr(x, "_kv_segment", False):
                t = tjoin(t, x.elemT)
            else:
                t = tjoin(t, typeof(x))
        return TList(t)

    def et(self):
        return self._kv_type().args[0]

    def segs(self):
        return any(getattr(x, "_kv_segment", False) for x in self.tail)

    def concrete(self):
        return self.base is None and not self.segs()

    def length(self):
        self.use()
        n = z3.IntVal(0) if self.base is None else z3.Length(self.base)
        k = 0
        for x in self.tail:
            if getattr(x, "_kv_segment", False):
                n = n + x.count()
            else:
                k += 1
        return SInt.mk(n + k)

    # -- mutation
    def append(self, x):
        self.touch()
        self.tail.append(x)
        adopt(self, x)

    def extend(self, xs):
        from . import rt
        self.touch()
        if isinstance(xs, SList):
            xs.use()
            if xs.base is not None:
                if self.base is None and not self.tail:
                    self.base = xs.base
                    self.elemT = tjoin(self.elemT, xs.elemT)
                else:
                    self.tail.append(SeqSeg(xs.base, xs.elemT))
            self.tail.extend(xs.tail)
            for x in xs.tail:
                adopt(self, x)
            return
        for piece in rt.pieces(xs):
            self.tail.append(piece)
            adopt(self, piece)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        self.touch()
        if i == 0 and isinstance(i, int):
            if self.base is not None:
                self.tail.insert(0, SeqSeg(self.base, self.elemT))
                self.base = None
            self.tail.insert(0, x)
            adopt(self, x)
            return
        if self.concrete():
            self.tail.insert(i, x)
            adopt(self, x)
            return
        raise Unsupported("list.insert in the middle of a symbolic list")

    def pop(self, *a):
        self.touch()
        if self.concrete() and all(isinstance(i, int) for i in a):
            return self.tail.pop(*a)
        if not a or a[0] == -1:
            if self.tail and not getattr(self.tail[-1], "_kv_segment", False):
                return self.tail.pop()
            if self.tail:
                raise Unsupported("pop from a segment")
            n = z3.Length(self.base)
            if not E().fork(n > 0):
                raise IndexError("pop from empty list")
            x = wrap(core.nth(self.base, n - 1), self.elemT)
            self.base = z3.Extract(self.base, z3.IntVal(0), n - 1)
            return x
        if isinstance(a[0], int) and a[0] == 0:
            if self.base is None:
                if not getattr(self.tail[0], "_kv_segment", False):
                    return self.tail.pop(0)
                raise Unsupported("pop(0) from a segment")
            n = z3.Length(self.base)
            if not E().fork(n > 0):
                if self.tail:
                    return self.tail.pop(0)
                raise IndexError("pop from empty list")
            x = wrap(core.nth(self.base, z3.IntVal(0)), self.elemT)
            self.base = z3.Extract(self.base, z3.IntVal(1), n - 1)
            return x
        raise Unsupported("list.pop at a symbolic position")

    def clear(self):
        self.touch()
        self.base, self.tail = None, []

    def remove(self, x):
        raise Unsupported("list.remove")

    def sort(self, *a, **k):
        from . import rt
        self.touch()
        s = rt.b_sorted(self, *a, **k)
        self.base, self.tail, self.elemT = s.base, s.tail, s.elemT

    def reverse(self):
        self.touch()
        if self.concrete():
            self.tail.reverse()
            return
        raise Unsupported("list.reverse")

    def copy(self):
        self.use()
        return SList(self.base, self.elemT, list(self.tail))

    def index(self, *a):
        if self.concrete():
            return self.tail.index(*a)
        raise Unsupported("list.index")

    def count(self, *a):
        raise Unsupported("list.count")

    # -- access
    def explode(self, i):
        """Make the element at a constant position a live one."""
        if self.ro or self.elemT is None or self.elemT.k not in ("rec", "list", "dict", "set"):
            return
        n = z3.Length(self.base)
        if i == -1:
            if not self.tail and E().fork(n > 0):
                x = wrap(core.nth(self.base, n - 1), self.elemT)
                self.base = z3.Extract(self.base, z3.IntVal(0), n - 1)
                self.tail = [x]
                adopt(self, x)
            return
        if i > 3 or not E().fork(n > i):
            return
        xs = [wrap(core.nth(self.base, z3.IntVal(j)), self.elemT) for j in range(i + 1)]
        for x in xs:
            adopt(self, x)
        rest = z3.Extract(self.base, z3.IntVal(i + 1), n - (i + 1))
        self.tail = xs + [SeqSeg(rest, self.elemT)] + self.tail
        self.base = None

    def _get(self, i):
        self.use()
        if isinstance(i, int) and self.base is not None and (i >= 0 or i == -1):
            self.explode(i)
        if isinstance(i, int):
            if i < 0:
                k = -i
                if len(self.tail) >= k and not any(getattr(x, "_kv_segment", False) for x in self.tail[-k:]):
                    return self.tail[i]
                n = iterm(self.length())
                if not E().fork(n >= k):
                    raise IndexError("list index out of range")
                return wrap(core.nth(self.seq(), n - k), self.et(), ro=True)
            if self.base is None:
                if not any(getattr(x, "_kv_segment", False) for x in self.tail[:i + 1]):
                    return self.tail[i]
            n = iterm(self.length())
            if not E().fork(z3.IntVal(i) < n):
                raise IndexError("list index out of range")
            return self.at(z3.IntVal(i))
        t = iterm(i)
        if t is None:
            raise Unsupported("list index of type %s" % type(i).__name__)
        n = iterm(self.length())
        if E().fork(z3.And(t >= 0, t < n)):
            return self.at(t)
        if E().fork(z3.And(t < 0, t >= -n)):
            return self.at(t + n)
        raise IndexError("list index out of range")

    def at(self, t):
        """Element at a term index known to be in range."""
        if self.base is not None and not self.tail:
            return wrap(core.nth(self.base, t), self.elemT, ro=True)
        if self.base is not None:
            if E().fork(t < z3.Length(self.base)):
                return wrap(core.nth(self.base, t), self.elemT, ro=True)
            for j, x in enumerate(self.tail):
                if getattr(x, "_kv_segment", False):
                    raise Unsupported("index into a segment")
                if E().fork(t == z3.Length(self.base) + j):
                    return x
            raise PathEnd()
        return wrap(core.nth(self.seq(), t), self.et(), ro=True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return self._get(i)

    def _slice(self, s):
        self.use()
        if s.step is not None and s.step != 1:
            if self.concrete():
                return SList.of(self.tail[s])
            raise Unsupported("extended slice")
        if self.concrete() and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
            return SList.of(self.tail[s])
        if s.start is None and s.stop is None:
            return self.copy()
        if isinstance(s.start, int) and s.start == 1 and s.stop is None and self.base is None and self.tail \
                and not getattr(self.tail[0], "_kv_segment", False):
            return SList(None, self.elemT, self.tail[1:])
        n = iterm(self.length())

        def norm(x, default):
            if x is None:
                return default
            t = iterm(x)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        ln = z3.If(b > a, b - a, z3.IntVal(0))
        return SList(z3.simplify(z3.Extract(self.seq(), a, ln)), self.et())

    def __setitem__(self, i, x):
        self.touch()
        if isinstance(i, int):
            if (i >= 0 and self.base is None and not any(
                    getattr(y, "_kv_segment", False) for y in self.tail[:i + 1])) or (
                    i < 0 and len(self.tail) >= -i and not any(
                        getattr(y, "_kv_segment", False) for y in self.tail[i:])):
                self.tail[i] = x
                adopt(self, x)
                return
        raise Unsupported("assignment to a symbolic list position")

    def __delitem__(self, i):
        self.touch()
        if self.concrete() and isinstance(i, (int, slice)):
            del self.tail[i]
            return
        if isinstance(i, slice) and i.start is None and i.stop is None:
            self.base, self.tail = None, []
            return
        raise Unsupported("del of a symbolic list position")

    def __add__(self, o):
        if not isinstance(o, (SList, list)):
            return NotImplemented
        r = self.copy()
        r.extend(o if isinstance(o, SList) else SList.of(o))
        return r

    def __radd__(self, o):
        return SList.of(o) + self

    def __mul__(self, n):
        if self.concrete() and isinstance(n, int):
            return SList.of(self.tail * n)
        raise Unsupported("list repetition")

    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(x, self))

    def __iter__(self):
        self.use()
        if not self.concrete():
            raise Unsupported("native iteration over a symbolic list")
        # a live list iterator
        i = 0
        while i < len(self.tail):
            yield self.tail[i]
            i += 1

    def __len__(self):
        if self.concrete():
            return len(self.tail)
        raise Unsupported("native len of a symbolic list")

    def havoc(self, v, t):
        self.base, self.elemT, self.tail = seq_of(v), t.args[0], []
        canon(v, lambda: v == mk_list(seq_of(v)))

    def setpieces(self, base, elemT, tail):
        self.base, self.elemT, self.tail = base, elemT, tail

    def __repr__(self):
        return "<list %s + %r>" % (self.base, self.tail)


class SeqSeg:
    """A run of elements inside a list: a Seq(V) term."""
    _kv_segment = True

    def __init__(self, seq, elemT):
        self.seq, self.elemT = seq, elemT

    def seq_term(self):
        return self.seq

    def count(self):
        return z3.Length(self.seq)

    def same(self, o):
        return isinstance(o, SeqSeg) and o.seq.eq(self.seq)


MISSING = object()
NATIVE = (int, str, bytes, type(None))


class SDict(Mut):
    """A Python dict: arrays over V plus live entries with distinct keys."""

    def __init__(self, dom=None, val=None, keyT=None, valT=None, factory=None, total=False):
        self._init()
        self.dom, self.val = dom, val      # None: empty base
        self.keyT, self.valT = keyT, valT
        self.factory = factory
        self.total = total
        self.entries = []                  # [key value, key term, live value]; distinct keys
        self.removed = []
        self.src = None

    @classmethod
    def of(cls, d, factory=None):
        D = cls(factory=factory)
        if isinstance(d, dict):
            for k, x in d.items():
                D.entries.append([k, lift(k), x])
                adopt(D, x)
            return D
        for k, x in d:
            D[k] = x
        return D

    def concrete(self):
        return self.dom is None

    # -- terms
    def arrays(self):
        self.use()
        dom = EMPTY_DOM if self.dom is None else self.dom
        val = EMPTY_VAL if self.val is None else self.val
        for k, kt, x in self.entries:
            if not self.total:
                nd = z3.Store(dom, kt, z3.BoolVal(True))
                if self.dom is None or not self._clean(kt, x):
                    dom = nd
            xt = self._clean_term(kt, x)
            if xt is None:
                val = z3.Store(val, kt, lift(x))
        return dom, val

    def _clean(self, kt, x):
        return self._clean_term(kt, x) is not None

    def _clean_term(self, kt, x):
        """If x is an unmodified view of val[kt], its term."""
        src = getattr(x, "_kv_view", None) if isinstance(x, Mut) else (
            x.__dict__.get("_kv_view") if is_native_record(x) else None)
        if src is None:
            return None
        holder, ver = src
        if holder is self and not view_dirty(x, ver):
            return kt
        return None

    def _kv_lift(self):
        d, v = self.arrays()
        if self.total:
            return mk_dict(d, v)
        return mk_dict(d, v)

    def _kv_type(self):
        kt, vt = self.keyT, self.valT
        for k, _, x in self.entries:
            kt, vt = tjoin(kt, typeof(k)), tjoin(vt, typeof(x))
        return TDict(kt, vt, self.factory, self.total)

    def length(self):
        self.use()
        if self.dom is None:
            return len(self.entries)
        d, _ = self.arrays()
        n = dlen(d)
        E().axiom_once(n, n >= 0, (n == 0) == (d == EMPTY_DOM))
        return SInt.mk(n)

    # -- lookup
    def find(self, kt, k=MISSING):
        for ent in self.entries:
            if ent[1].eq(kt):
                return ent
        for ent in self.entries:
            if isinstance(k, NATIVE) and isinstance(ent[0], NATIVE):
                continue              # distinct constants
            if E().fork(ent[1] == kt):
                return ent
        return None

    def typed(self, k):
        """None is no key of a dict whose keys are numbers or texts."""
        if k is None and self.dom is not None and self.keyT is not None and self.keyT.k in ("int", "str", "bytes"):
            E().add(z3.Not(z3.Select(self.dom, NONE)))

    def has(self, k):
        """z3 Bool / bool: membership."""
        self.use()
        if self.total:
            raise Unsupported("membership in a position table")
        self.typed(k)
        kt = lift(k)
        conds = []
        ki = iterm(k)
        for ent in self.entries:
            if ent[1].eq(kt):
                return True
            if isinstance(k, NATIVE) and isinstance(ent[0], NATIVE):
                continue
            ei = iterm(ent[0]) if ki is not None else None
            conds.append(ent[1] == kt if ei is None else ei == ki)
        if self.dom is not None:
            conds.append(z3.Select(self.dom, kt))
        if not conds:
            return False
        c = z3.simplify(z3.Or(*conds))
        return True if z3.is_true(c) else False if z3.is_false(c) else c

    def lookup(self, k):
        """Live value of k or MISSING (forks on presence)."""
        self.use()
        self.typed(k)
        kt = lift(k)
        ent = self.find(kt, k)
        if ent is not None:
            return ent[2]
        if self.dom is None:
            return MISSING
        if not self.total:
            if not E().fork(z3.Select(self.dom, kt)):
                return MISSING
        if self.valT is None:
            if self.total:
                raise Unsupported("position table of unknown type")
            raise Unsupported("dict of unknown value type")
        x = wrap(z3.Select(self.val, kt), self.valT, ro=self.ro or getattr(self, "ro_values", False))
        if live_view(x):
            mark_view(x, self)
            if not self.ro:
                x_parent(x, self)
            self.entries.append([k, kt, x])
        return x

    def __getitem__(self, k):
        x = self.lookup(k)
        if x is MISSING:
            if self.factory is not None:
                x = self.factory()
                self._put(k, lift(k), x)
                return x
            raise KeyError(k)
        return x

    def get(self, k, default=None):
        self.use()
        if not self.total and not any(live_view(e[2]) for e in self.entries) and len(self.entries) > 1 \
                and self.dom is None and not isinstance(k, (str, int)):
            # a table of constants: no case split per key
            h = self.has(k)
            if not E().fork(core.asbool(h)):
                return default
            kt = lift(k)
            t = None
            for _, kk, x in self.entries:
                t = tjoin(t, typeof(x))
            if t.k in ("str", "bytes", "any"):
                from . import rt
                return rt.opaque("table", k)
            r = lift(self.entries[-1][2])
            for _, kk, x in self.entries[:-1]:
                r = z3.If(kk == kt, lift(x), r)
            return wrap(r, t)
        x = self.lookup(k)
        return default if x is MISSING else x

    def setdefault(self, k, default=None):
        x = self.lookup(k)
        if x is MISSING:
            self._put(k, lift(k), default)
            return default
        return x

    def _put(self, k, kt, x):
        self.touch()
        ent = self.find(kt, k)
        if ent is not None:
            ent[2] = x
        else:
            self.entries.append([k, kt, x])
        adopt(self, x)

    def __setitem__(self, k, x):
        self._put(k, lift(k), x)

    def _remove(self, kt):
        self.touch()
        for i, ent in enumerate(self.entries):
            if ent[1].eq(kt):
                del self.entries[i]
                break
        if self.dom is not None:
            self.dom = z3.Store(self.dom, kt, z3.BoolVal(False))
            self.val = z3.Store(self.val, kt, UNDEF)

    def pop(self, k, *default):
        if self.total:
            raise Unsupported("pop from a position table")
        x = self.lookup(k)
        if x is MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        kt = lift(k)
        ent = self.find(kt, k)
        self._remove(ent[1] if ent is not None else kt)
        unparent(x, self)
        return x

    def __delitem__(self, k):
        self.pop(k)

    def popitem(self):
        self.use()
        if self.total:
            raise Unsupported("popitem from a position table")
        if self.dom is None:
            if not self.entries:
                raise KeyError("popitem(): dictionary is empty")
            k, kt, x = self.entries[-1]
            self._remove(kt)
            unparent(x, self)
            return (k, x)
        d, v = self.arrays()
        if not E().fork(d != EMPTY_DOM):
            raise KeyError("popitem(): dictionary is empty")
        # an arbitrary key; a unit may name it beforehand
        kt = E().ghost["popkeys"].pop(0) if E().ghost.get("popkeys") else E().fresh(V, "popkey")
        E().add(z3.Select(d, kt))
        k = wrap(kt, self._kv_type().args[0])
        x = self.pop(k)
        return (k, x)

    def update(self, *a, **kw):
        from . import rt
        for o in a:
            if isinstance(o, dict):
                o = SDict.of(o)
            if isinstance(o, SDict):
                o.use()
                if o.dom is None:
                    for k, _, x in list(o.entries):
                        self[k] = x
                    continue
                raise Unsupported("dict.update with a symbolic dict")
            for p in rt.pieces(o):
                self[p[0]] = p[1]
        for k, x in kw.items():
            self[k] = x

    def clear(self):
        self.touch()
        self.dom = self.val = None
        self.entries = []

    def copy(self):
        self.use()
        D = SDict(self.dom, self.val, self.keyT, self.valT, self.factory, self.total)
        for k, kt, x in self.entries:
            if live_view(x):
                if isinstance(x, Mut):
                    x.holders += 1
            D.entries.append([k, kt, x])
        if self.dom is not None and self.valT is not None and self.valT.k in ("list", "dict", "set", "rec"):
            D.ro_values = True
        return D

    def keys(self):
        return DictView(self, "keys")

    def values(self):
        return DictView(self, "values")

    def items(self):
        return DictView(self, "items")
    iteritems, iterkeys, itervalues = items, keys, values

    def __contains__(self, k):
        return E().fork(core.asbool(self.has(k)))

    def __iter__(self):
        return iter(DictView(self, "keys"))

    def __len__(self):
        if self.dom is None:
            return len(self.entries)
        raise Unsupported("native len of a symbolic dict")

    def havoc(self, v, t):
        for _, _, x in self.entries:
            if isinstance(x, Mut):
                x.detached = "loop"
            elif is_native_record(x):
                detach_record(x)
        self.dom, self.val = ddom(v), dval(v)
        canon(v, lambda: v == mk_dict(ddom(v), dval(v)))
        self.keyT, self.valT = t.args[0], t.args[1]
        self.entries = []

    def compact(self):
        """Move live entries into the arrays (before iterating)."""
        d, v = self.arrays()
        t = self._kv_type()
        for _, _, x in self.entries:
            if isinstance(x, Mut):
                x.detached = "iteration over its holder"
            elif is_native_record(x):
                detach_record(x)
        self.dom, self.val, self.keyT, self.valT = d, v, t.args[0], t.args[1]
        self.entries = []

    def __repr__(self):
        return "<dict base=%s %r>" % (self.dom is not None, [(e[0], e[2]) for e in self.entries])


dlen = z3.Function("dlen", core.DomS, I)


def mark_view(x, holder):
    ver = len(E().mutlog)
    if isinstance(x, Mut):
        x._kv_view = (holder, ver)
    else:
        x.__dict__["_kv_view"] = (holder, ver)


def x_parent(x, parent):
    if isinstance(x, Mut):
        x.holders += 1
        x.parents.append(parent)
    else:
        adopt(parent, x)


def unparent(x, parent):
    if isinstance(x, Mut):
        x.holders = max(0, x.holders - 1)
        x.parents = [p for p in x.parents if p is not parent]
    elif is_native_record(x):
        x.__dict__["_kv_parents"] = [p for p in x.__dict__.get("_kv_parents", ()) if p is not parent]


def view_dirty(x, ver):
    for (o, f, c) in E().mutlog[ver:]:
        if o is x or c is x:
            return True
        if is_native_record(x):
            for y in x.__dict__.values():
                if isinstance(y, Mut) and o is y:
                    return True
    return False


def detach_record(x):
    for f, y in x.__dict__.items():
        if isinstance(y, Mut) and not f.startswith("_kv"):
            y.detached = "holder summarised"
    x.__dict__["_kv_detached"] = True


class DictView:
    """keys()/values()/items() of a symbolic dict."""

    def __init__(self, d, what):
        self.d, self.what = d, what

    def pick(self, k, x):
        return k if self.what == "keys" else x if self.what == "values" else (k, x)

    def __iter__(self):
        if self.d.dom is None:
            for k, _, x in list(self.d.entries):
                yield self.pick(k, x)
            return
        raise Unsupported("native iteration over a symbolic dict")

    def __len__(self):
        return len(self.d)

    def length(self):
        return self.d.length()

    def __contains__(self, k):
        from . import rt
        return bool(rt.contains(k, self))

    def as_set(self):
        if self.what != "keys":
            raise Unsupported("set of dict values")
        dom, _ = self.d.arrays()
        t = self.d._kv_type()
        return SSet(dom, t.args[0])

    def __sub__(self, o):
        return self.as_set() - o

    def __and__(self, o):
        return self.as_set() & o

    def __or__(self, o):
        return self.as_set() | o

    def __rsub__(self, o):
        return SSet.of(o) - self.as_set()

    def __eq__(self, o):
        return self.as_set() == (o.as_set() if isinstance(o, DictView) else o)

    __hash__ = None


class SSet(Mut):
    def __init__(self, dom=None, elemT=None):
        self._init()
        self.dom = dom if dom is not None else EMPTY_DOM
        self.elemT = elemT
        self.elems = [] if dom is None else None    # concrete elements if known

    @classmethod
    def of(cls, xs):
        from . import rt
        S = cls()
        if isinstance(xs, SSet):
            return xs.copy()
        for x in xs:
            S.add(x)
        return S

    def _kv_lift(self):
        self.use()
        return mk_set(self.dom)

    def _kv_type(self):
        return TSet(self.elemT)

    def concrete(self):
        return self.elems is not None

    def length(self):
        self.use()
        if self.elems is not None and all(isinstance(x, (int, str)) for x in self.elems):
            return len(self.elems)
        n = dlen(self.dom)
        E().axiom_once(n, n >= 0, (n == 0) == (self.dom == EMPTY_DOM))
        return SInt.mk(n)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len of a symbolic set")

    def has(self, x):
        self.use()
        xt = lift(x)
        if self.elems is not None:
            if not self.elems:
                return False
            if isinstance(x, (int, str)) and not isinstance(x, bool) and all(
                    isinstance(y, (int, str)) for y in self.elems):
                return x in self.elems
            xi = iterm(x)
            if xi is not None and all(iterm(y) is not None for y in self.elems):
                c = z3.simplify(z3.Or(*[xi == iterm(y) for y in self.elems]))
            else:
                c = z3.simplify(z3.Or(*[xt == lift(y) for y in self.elems]))
        else:
            c = z3.simplify(z3.Select(self.dom, xt))
        return True if z3.is_true(c) else False if z3.is_false(c) else c

    def __contains__(self, x):
        return E().fork(core.asbool(self.has(x)))

    def add(self, x):
        self.touch()
        t = lift(x)
        if self.elems is not None:
            if isinstance(x, (int, str, bytes)) and all(isinstance(y, (int, str, bytes)) for y in self.elems):
                if x in self.elems:
                    return
                self.elems.append(x)
            else:
                self.elems.append(x) if not any(lift(y).eq(t) for y in self.elems) else None
        self.elemT = tjoin(self.elemT, typeof(x))
        self.dom = z3.Store(self.dom, t, z3.BoolVal(True))

    def discard(self, x):
        self.touch()
        t = lift(x)
        if self.elems is not None:
            if isinstance(x, (int, str)) and all(isinstance(y, (int, str)) for y in self.elems):
                if x in self.elems:
                    self.elems.remove(x)
                else:
                    return
            else:
                self.elems = None
        self.dom = z3.Store(self.dom, t, z3.BoolVal(False))

    def remove(self, x):
        if not E().fork(core.asbool(self.has(x))):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not E().fork(self.dom != EMPTY_DOM):
            raise KeyError("pop from an empty set")
        if self.elems:
            x = self.elems[-1]
            self.discard(x)
            return x
        v = E().fresh(V, "setpop")
        E().add(z3.Select(self.dom, v))
        x = wrap(v, self.elemT)
        self.discard(x)
        return x

    def clear(self):
        self.touch()
        self.dom, self.elems = EMPTY_DOM, []

    def copy(self):
        self.use()
        S = SSet(self.dom, self.elemT)
        S.elems = list(self.elems) if self.elems is not None else None
        return S

    def _other(self, o):
        from . import rt
        if isinstance(o, SSet):
            o.use()
            return o
        if isinstance(o, DictView):
            return o.as_set()
        return rt.to_set(o)

    def _mk(self, dom, o):
        S = SSet(dom, tjoin(self.elemT, o.elemT))
        S.elems = None
        return S

    def difference(self, *os):
        r = self.copy()
        for o in os:
            o = self._other(o)
            r = r._mk(z3.SetDifference(r.dom, o.dom), o)
        return r

    def union(self, *os):
        r = self.copy()
        for o in os:
            o = self._other(o)
            r = r._mk(z3.SetUnion(r.dom, o.dom), o)
        return r

    def intersection(self, *os):
        r = self.copy()
        for o in os:
            o = self._other(o)
            r = r._mk(z3.SetIntersect(r.dom, o.dom), o)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __rsub__(self, o):
        return self._other(o).difference(self)

    def __xor__(self, o):
        o = self._other(o)
        return self._mk(z3.SetDifference(z3.SetUnion(self.dom, o.dom), z3.SetIntersect(self.dom, o.dom)), o)

    def symmetric_difference(self, o):
        return self ^ o

    def update(self, *os):
        self.touch()
        for o in os:
            o = self._other(o)
            if self.elems is not None and o.elems is not None:
                for x in o.elems:
                    self.add(x)
                continue
            self.dom, self.elems = z3.SetUnion(self.dom, o.dom), None
            self.elemT = tjoin(self.elemT, o.elemT)

    def difference_update(self, *os):
        self.touch()
        for o in os:
            o = self._other(o)
            self.dom, self.elems = z3.SetDifference(self.dom, o.dom), None

    def intersection_update(self, *os):
        self.touch()
        for o in os:
            o = self._other(o)
            self.dom, self.elems = z3.SetIntersect(self.dom, o.dom), None

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        o = self._other(o)
        return SBool.mk(z3.SetDifference(self.dom, o.dom) == EMPTY_DOM)

    def issuperset(self, o):
        return self._other(o).issubset(self)

    def isdisjoint(self, o):
        o = self._other(o)
        return SBool.mk(z3.SetIntersect(self.dom, o.dom) == EMPTY_DOM)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return SBool.mk(z3.And(core.asbool(self.issubset(o)), self.dom != self._other(o).dom))

    def __iter__(self):
        if self.elems is not None:
            return iter(list(self.elems))
        raise Unsupported("native iteration over a symbolic set")

    def havoc(self, v, t):
        self.dom, self.elemT, self.elems = sdom(v), t.args[0], None
        canon(v, lambda: v == mk_set(sdom(v)))

    def __repr__(self):
        return "<set %s>" % (self.elems if self.elems is not None else self.dom)
