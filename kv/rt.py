"""Run time support called by the transformed code of /repo."""
import builtins
import re
import types
import z3
from . import core, values, loops
from .core import V, Unsupported, PathEnd, mk_list, mk_set, mk_int
from .values import (Sym, SInt, SBool, SVal, SRatio, SList, SDict, SSet, DictView, SeqSeg, Mut, Dead,
                     lift, typeof, tjoin, wrap, iterm, TInt, TAny, TStr, not_)

LOADING = [0]


def loading():
    return LOADING[0] > 0


def opaque(tag, *args):
    """An unknown value that is a function of the given ones."""
    ts = []
    for a in args:
        try:
            ts.append(lift(a))
        except Unsupported:
            return SVal(core.E.fresh(V, tag))
    f = z3.Function("op_%s_%d" % (tag, len(ts)), *([V] * len(ts) + [V]))
    return SVal(f(*ts) if ts else z3.Const("op_" + tag, V), origin=tag)


def is_sym(x):
    return isinstance(x, (Sym, Mut, DictView, Dead)) or hasattr(type(x), "_kv_lift")


# ------------------------------------------------------------------ displays
def newlist(*xs):
    if loading():
        return list(xs)
    return SList.of(xs)


def newlist_star(*parts):
    """parts: (is_star, value)"""
    L = newlist()
    for star, x in parts:
        if star:
            L.extend(x if isinstance(x, SList) or loading() else pieces_list(x))
        else:
            L.append(x)
    return L


def newdict(*pairs):
    if loading():
        return dict(pairs)
    return SDict.of(pairs)


def newset(*xs):
    if loading():
        return set(xs)
    return SSet.of(xs)


# ------------------------------------------------------------------ iteration
def native_iter(x):
    if isinstance(x, (list, dict, set, frozenset)):
        # live iteration over a native container is fine
        return x
    if isinstance(x, SVal) or isinstance(x, Sym):
        raise Unsupported("iteration over %s" % type(x).__name__)
    return x


def pieces(x):
    """Elements of an iterable, as live values and segments."""
    if isinstance(x, SList):
        out = []
        x.use()
        if x.base is not None:
            out.append(SeqSeg(x.base, x.elemT))
        return out + list(x.tail)
    if isinstance(x, SDict):
        x = DictView(x, "keys")
    if isinstance(x, DictView):
        if x.d.dom is None:
            return list(x)
        if x.what == "keys":
            dom, _ = x.d.arrays()
            return [SeqSeg(loops.keyseq(dom), x.d._kv_type().args[0])]
        if x.what == "values":
            return [values_seg(x.d)]
        return [items_seg(x.d)]
    if isinstance(x, SSet):
        if x.concrete():
            return list(x)
        return [SeqSeg(loops.keyseq(x.dom), x.elemT)]
    f = getattr(x, "_kv_pieces", None)
    if f is not None:
        return f()
    if isinstance(x, Sym):
        raise Unsupported("iteration over %s" % type(x).__name__)
    if type(x).__module__.partition(".")[0] == "kiel" and hasattr(type(x), "__iter__"):
        it = x.__iter__()
        if isinstance(it, SymIterator) and it.i == 0:
            return pieces(it.x)
        return list(it)
    if isinstance(x, SymIterator) and x.i == 0:
        return pieces(x.x)
    sp = loops.iterspec(x)
    if sp is not None:
        raise Unsupported("list of a symbolic iterator")
    return list(x)


valseq = z3.Function("valseq", core.DomS, core.ValS, core.SeqV)


def values_seg(d):
    dom, val = d.arrays()
    d.compact()
    return SeqSeg(valseq(dom, val), d.valT)


itemseq = z3.Function("itemseq", core.DomS, core.ValS, core.SeqV)


def items_seg(d):
    """The (key, value) pairs of a dict, in the order of its keys."""
    dom, val = d.arrays()
    d.compact()
    s, n = itemseq(dom, val), z3.Length(loops.keyseq(dom))
    core.E.axiom_once(s, z3.Length(s) == n, (n == 0) == (dom == core.EMPTY_DOM))
    return SeqSeg(s, values.Ty("tuple", d.keyT, d.valT))


def pieces_list(x):
    ps = pieces(x)
    L = SList()
    if ps and isinstance(ps[0], SeqSeg):
        L.base, L.elemT = ps[0].seq, ps[0].elemT
        ps = ps[1:]
    for p in ps:
        L.tail.append(p)
        values.adopt(L, p)
    return L


def to_set(x):
    if isinstance(x, SSet):
        return x.copy()
    if isinstance(x, SDict):
        x = DictView(x, "keys")
    if isinstance(x, DictView) and x.what == "keys" and x.d.dom is not None:
        return x.as_set()
    if isinstance(x, SList) and not x.concrete():
        S = SSet()
        if x.base is not None:
            S = SSet(seqdom(x.base), x.elemT)
        for t in x.tail:
            if isinstance(t, SeqSeg):
                S.update(SSet(seqdom(t.seq), t.elemT))
            else:
                S.add(t)
        return S
    S = SSet()
    for p in pieces(x):
        if isinstance(p, SeqSeg):
            S.update(SSet(seqdom(p.seq), p.elemT))
        else:
            S.add(p)
    return S


seqdom_f = z3.Function("seqdom", core.SeqV, core.DomS)


def seqdom(s):
    s = z3.simplify(s)
    while z3.is_app(s) and s.decl().name() == "seq_of" and s.arg(0).decl().name() == "mk_list":
        s = s.arg(0).arg(0)
    if z3.is_app(s) and s.decl().name() == "keyseq":
        return s.arg(0)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return core.EMPTY_DOM
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT:
        return z3.Store(core.EMPTY_DOM, s.arg(0), z3.BoolVal(True))
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        t = seqdom(s.arg(0))
        for x in s.children()[1:]:
            if x.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                t = z3.Store(t, x.arg(0), z3.BoolVal(True))
            else:
                t = z3.SetUnion(t, seqdom(x))
        return t
    t = seqdom_f(s)
    core.E.axiom_once(t, (z3.Length(s) == 0) == (t == core.EMPTY_DOM))
    return t


sorted_set_f = z3.Function("sorted_set", core.DomS, core.SeqV)
sorted_seq_f = z3.Function("sorted_seq", core.SeqV, core.SeqV)


def sorted_set(dom):
    t = sorted_set_f(dom)
    core.E.axiom_once(t, seqdom(t) == dom, (z3.Length(t) == 0) == (dom == core.EMPTY_DOM))
    return t


def b_sorted(x, key=None, reverse=False):
    if not is_sym(x) and not loading():
        xs = list(x)
        if not any(is_sym(i) for i in xs):
            return SList.of(sorted(xs, key=key, reverse=reverse))
    elif loading():
        return sorted(x, key=key, reverse=reverse)
    if key is not None or (reverse is not False):
        raise Unsupported("sorted with key/reverse over symbolic values")
    if isinstance(x, (SDict, DictView)):
        x = to_set(x)
    if isinstance(x, SSet):
        if x.concrete() and all(isinstance(i, (int, str)) for i in x.elems):
            return SList.of(sorted(x.elems))
        return SList(sorted_set(x.dom), x.elemT)
    L = x if isinstance(x, SList) else pieces_list(x)
    if L.concrete() and len(L.tail) <= 1:
        return SList.of(L.tail)
    if L.concrete() and all(isinstance(i, (int, str)) for i in L.tail):
        return SList.of(sorted(L.tail))
    s = z3.simplify(L.seq())
    if z3.is_app(s) and s.decl().name() == "keyseq":
        return SList(sorted_set(s.arg(0)), L.et())
    if z3.is_app(s) and s.decl().name() in ("sorted_set", "sorted_seq"):
        return L.copy()
    t = sorted_seq_f(s)
    core.E.axiom_once(t, z3.Length(t) == z3.Length(s))
    return SList(t, L.et())


def contains(x, y):
    """x in y -> bool or SBool"""
    if isinstance(y, (SDict, SSet)):
        h = y.has(x)
        return h if isinstance(h, bool) else SBool.mk(h)
    if isinstance(y, DictView):
        if y.what == "keys":
            return contains(x, y.d)
        if y.what == "values" or y.d.dom is not None:
            raise Unsupported("membership in dict values")
        return contains(x, SList.of(list(y)))
    if isinstance(y, SList):
        y.use()
        if not y.concrete():
            d = None
            cs = []
            if y.base is not None:
                cs.append(z3.Contains(y.base, z3.Unit(lift(x))))
            for t in y.tail:
                if isinstance(t, SeqSeg):
                    cs.append(z3.Contains(t.seq, z3.Unit(lift(x))))
                elif getattr(t, "_kv_segment", False):
                    raise Unsupported("membership in a summarised list")
                else:
                    cs.append(lift(t) == lift(x))
            return SBool.mk(z3.Or(*cs))
        return contains_native(x, y.tail)
    if isinstance(y, (set, frozenset, list, tuple, dict)):
        return contains_native(x, list(y))
    m = getattr(type(y), "_kv_contains", None)
    if m is not None:
        return m(y, x)
    if isinstance(y, Sym):
        raise Unsupported("membership in %s" % type(y).__name__)
    if is_sym(x) and isinstance(y, (str, bytes)):
        raise Unsupported("substring test")
    m = getattr(type(y), "__contains__", None)
    if m is not None and isinstance(m, types.FunctionType):
        return m(y, x)
    return x in y


def contains_native(x, ys):
    if not is_sym(x) and not any(is_sym(y) for y in ys):
        return x in ys
    xi = iterm(x)
    cs = []
    for y in ys:
        if xi is not None and iterm(y) is not None:
            cs.append(xi == iterm(y))
        else:
            r = (x == y)
            if r is True:
                return True
            if r is not False:
                cs.append(core.asbool(r))
    if not cs:
        return False
    return SBool.mk(z3.Or(*cs))


def not_contains(x, y):
    return not_(contains(x, y))


def is_(a, b):
    if isinstance(a, Dead) or isinstance(b, Dead):
        Dead("is")._no()
    if b is None and not isinstance(a, SVal):
        return a is None
    if a is None and not isinstance(b, SVal):
        return b is None
    if isinstance(a, SVal) or isinstance(b, SVal):
        o = b if isinstance(a, SVal) else a
        if o is None:
            return SBool.mk((a if isinstance(a, SVal) else b).v == core.NONE)
        if isinstance(o, SVal):
            if a is b:
                return True
            raise Unsupported("identity of opaque values")
        if isinstance(o, (bool, SBool)):
            return SBool.mk(lift(a) == lift(b))
        return SBool.mk(lift(a) == lift(b))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return a == b
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return a == b
    return a is b


def is_not(a, b):
    return not_(is_(a, b))


def truth(x):
    return bool(x)


# ------------------------------------------------------------------ subscripts
def getitem(a, b):
    if isinstance(a, dict) and is_sym(b):
        return SDict.of(a)[b]
    if isinstance(a, (list, tuple)) and isinstance(b, (SInt, SBool)):
        return SList.of(a)[b]
    if isinstance(a, (str, bytes)):
        if is_sym(b) or (isinstance(b, slice) and any(is_sym(i) for i in (b.start, b.stop, b.step))):
            from . import ropes
            return ropes.of(a)[b]
    if isinstance(a, (list,)) and not loading():
        r = a[b]
        return SList.of(r) if isinstance(b, slice) else r
    return a[b]


# ------------------------------------------------------------------ formatting
SPEC = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])")


def mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if not any(is_sym(x) for x in args) and not isinstance(b, (SDict,)):
            return a % b
        return format_str(a, args)
    if isinstance(a, bytes) and is_sym(b):
        raise Unsupported("bytes formatting")
    return a % b


def format_str(fmt, args):
    from . import ropes
    out = ropes.SStr([])
    pos, n = 0, 0
    for m in SPEC.finditer(fmt):
        if m.start() > pos:
            out = out + fmt[pos:m.start()]
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == "%":
            out = out + "%"
            continue
        if name or width == "*":
            raise Unsupported("formatting %r" % fmt)
        if n >= len(args):
            raise TypeError("not enough arguments for format string")
        x = args[n]
        n += 1
        if not is_sym(x):
            out = out + (m.group(0) % (x,))
            continue
        if flags or width or prec:
            raise Unsupported("formatting %r" % fmt)
        if conv in "dsi" and isinstance(x, (SInt,)):
            out = out + ropes.SStr.num(x)
        elif conv == "s":
            out = out + b_str(x)
        elif conv == "d" and isinstance(x, SBool):
            out = out + ropes.SStr.num(SInt.mk(iterm(x)))
        elif conv in "di" and isinstance(x, SVal):
            out = out + opaque_str("fmt_d", x)
        elif conv == "d":
            raise TypeError("%d format: a real number is required")
        elif conv == "r":
            out = out + opaque_str("repr", x)
        else:
            raise Unsupported("formatting %r" % fmt)
    if n < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return out + fmt[pos:]


def opaque_str(tag, x):
    from . import ropes
    v = opaque(tag, x)
    return ropes.SStr.atom(v.v)


def fstring(*parts):
    from . import ropes
    if not any(is_sym(p[0]) for p in parts):
        s = ""
        for x, conv, spec in parts:
            if conv == "r":
                x = repr(x)
            elif conv == "s":
                x = str(x)
            s += format(x, spec)
        return s
    out = ropes.SStr([])
    for x, conv, spec in parts:
        if not is_sym(x):
            if conv == "r":
                x = repr(x)
            out = out + format(x, spec)
        elif spec not in ("", "d"):
            raise Unsupported("formatted value")
        elif conv == "r":
            out = out + opaque_str("repr", x)
        elif isinstance(x, SInt):
            out = out + ropes.SStr.num(x)
        else:
            out = out + b_str(x)
    return out


# ------------------------------------------------------------------ calls
def callm(o, m, *a, **k):
    t = type(o)
    if t is str or t is bytes:
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            from . import ropes
            return ropes.native_method(o, m, a, k)
        if m == "split" or m == "rsplit" or m == "splitlines":
            return maybe_list(getattr(o, m)(*a, **k))
        return getattr(o, m)(*a, **k)
    if t is dict or t is set or t is frozenset or t is list:
        if any(is_sym(x) for x in a) and not loading():
            if m in ("get", "__getitem__", "__contains__", "union", "difference", "intersection",
                     "issubset", "issuperset", "isdisjoint"):
                return getattr(values.sympy_container(o), m)(*a, **k)
            if t is not list:
                raise Unsupported("%s.%s with symbolic arguments" % (t.__name__, m))
        return getattr(o, m)(*a, **k)
    return getattr(o, m)(*a, **k)


def maybe_list(x):
    return x if loading() else SList.of(x)


def callkw(f, a, kw, *maps):
    """f(*a, **kw, **maps...)"""
    for mp in maps:
        if isinstance(mp, SDict) and not (mp.concrete() and all(isinstance(e[0], str) for e in mp.entries)):
            h = getattr(f, "_kv_symkw", None)
            if h is None or len(maps) != 1 or kw:
                raise Unsupported("symbolic keyword arguments")
            return h(*a, **{"_kv_map": mp})
        for k in mp.keys():
            if k in kw:
                raise TypeError("multiple values for keyword argument %r" % k)
            kw[k] = mp[k]
    return f(*a, **kw)


def callstar(f, args, kw):
    """f(*args) with starred arguments; args: list of (star, value)"""
    out = []
    for star, x in args:
        if star:
            if isinstance(x, SList) and not x.concrete():
                h = getattr(f, "_kv_symargs", None)
                if h is None:
                    raise Unsupported("symbolic argument list")
                return h(args, kw)
            out.extend(x)
        else:
            out.append(x)
    return f(*out, **kw)


# ------------------------------------------------------------------ globals
def setglobal(g, name, value):
    mod = g["__kv_module__"]
    g[name] = value
    core.E.mutated(mod, name)


# ------------------------------------------------------------------ builtins
class KvType(type):
    pass


class TypeProxy:
    """Stands for a builtin type: callable, and usable with isinstance."""

    def __init__(self, native, call, sym):
        self.native, self.call, self.sym = native, call, sym
        self.__name__ = native.__name__

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __mro_entries__(self, bases):
        return (self.native,)

    def __getattr__(self, n):
        if n.startswith("_kv") or n.startswith("__"):
            raise AttributeError(n)
        nat = getattr(self.native, n)

        def meth(*a, **k):
            if a and is_sym(a[0]):
                return getattr(a[0], n)(*a[1:], **k)
            if any(is_sym(x) for x in a):
                raise Unsupported("%s.%s of a symbolic value" % (self.native.__name__, n))
            return nat(*a, **k)
        return meth

    def __eq__(self, o):
        return o is self or o is self.native

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.native)

    def __repr__(self):
        return repr(self.native)


def _int(x=0, *base):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt.mk(iterm(x))
    if isinstance(x, SRatio):
        return x.to_int()
    f = getattr(x, "_kv_int", None)
    if f is not None and not isinstance(x, type):
        return f(*base)
    if isinstance(x, SVal):
        raise Unsupported("int of an opaque value")
    return int(x, *base)


def _str(x="", *enc):
    if isinstance(x, SInt):
        from . import ropes
        h = core.E.ghost.get("int_text")
        return h(x) if h else ropes.SStr.num(x)
    f = getattr(type(x), "_kv_str", None)
    if f is not None:
        return x._kv_str(*enc)
    if isinstance(x, SVal):
        return opaque_str("str", x)
    if is_sym(x):
        return opaque_str("str", x)
    return str(x, *enc)


def _list(x=()):
    if loading():
        return list(x)
    if isinstance(x, list):
        return SList.of(x)
    return pieces_list(x)


def _tuple(x=()):
    ps = pieces(x)
    if any(getattr(p, "_kv_segment", False) for p in ps):
        return pieces_list(x)          # an immutable use of a list
    return tuple(ps)


def _set(x=()):
    if loading():
        return set(x)
    return to_set(x)


def _dict(*a, **k):
    if loading():
        return dict(*a, **k)
    if a and isinstance(a[0], SDict):
        d = a[0].copy()
        d.factory = None
    else:
        d = SDict()
        if a:
            if isinstance(a[0], (dict, types.MappingProxyType)):
                d = SDict.of(dict(a[0]))
            else:
                d.update(a[0])
    for kk, x in k.items():
        d[kk] = x
    return d


def _bool(x=False):
    return bool(x)


def _float(x=0.0):
    if isinstance(x, SInt):
        return SRatio.mk(x.t, z3.IntVal(1))
    if is_sym(x):
        raise Unsupported("float of a symbolic value")
    return float(x)


def _bytes(*a, **k):
    if any(is_sym(x) for x in a):
        if len(a) == 1 and getattr(type(a[0]), "_kv_isbytes", False):
            return a[0]
        raise Unsupported("bytes() of a symbolic value")
    return bytes(*a, **k)


def sym_isinstance(x, t):
    n = t.native
    if n is int:
        return isinstance(x, (int, SInt, SBool))
    if n is bool:
        return isinstance(x, (bool, SBool))
    if n is str:
        return isinstance(x, str) or getattr(type(x), "_kv_isstr", False)
    if n is bytes:
        return isinstance(x, bytes) or getattr(type(x), "_kv_isbytes", False)
    if n is list:
        return isinstance(x, (list, SList))
    if n is dict:
        return isinstance(x, (dict, SDict))
    if n in (set, frozenset):
        return isinstance(x, (set, SSet)) if n is set else isinstance(x, frozenset)
    if n is tuple:
        return isinstance(x, tuple)
    if n is float:
        return isinstance(x, (float, SRatio))
    return isinstance(x, n)


def b_isinstance(x, t):
    if isinstance(x, Dead):
        x._no()
    if isinstance(t, tuple):
        return any(b_isinstance(x, i) for i in t)
    f = getattr(x, "_kv_isinstance", None)
    if f is not None and not isinstance(x, type):
        r = f(t)
        if r is not None:
            return r
    if isinstance(x, SVal):
        if t is object:
            return True
        raise Unsupported("isinstance of an opaque value")
    if isinstance(t, TypeProxy):
        return sym_isinstance(x, t)
    if is_sym(x) and t in (int, str, bytes, list, dict, set, bool, float, tuple):
        return sym_isinstance(x, TypeProxy(t, None, None))
    return isinstance(x, t)


def b_issubclass(c, t):
    if isinstance(c, TypeProxy):
        c = c.native
    if isinstance(t, TypeProxy):
        t = t.native
    if isinstance(t, tuple):
        t = tuple(i.native if isinstance(i, TypeProxy) else i for i in t)
    return issubclass(c, t)


def b_len(x):
    f = getattr(x, "length", None)
    if f is not None and is_sym(x):
        return f()
    if isinstance(x, SVal):
        raise Unsupported("len of an opaque value")
    return len(x)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        for cls, p in ((SInt, b_int), (SBool, b_bool), (SList, b_list), (SDict, b_dict), (SSet, b_set)):
            if isinstance(x, cls):
                return p
        if getattr(type(x), "_kv_isstr", False):
            return b_str
        if getattr(type(x), "_kv_isbytes", False):
            return b_bytes
        if isinstance(x, SVal):
            raise Unsupported("type of an opaque value")
        for p in (b_int, b_bool, b_list, b_dict, b_set, b_str, b_bytes, b_tuple, b_float):
            if type(x) is p.native:
                return p
        return type(x)
    n, bs, d = a
    if isinstance(d, SDict):
        d = {k: x for k, _, x in d.entries}
    return post_class(type(n, tuple(bs), dict(d)))


b_type_proxy = TypeProxy(type, b_type, None)
b_int = TypeProxy(int, _int, None)
b_str = TypeProxy(str, _str, None)
b_bytes = TypeProxy(bytes, _bytes, None)
b_list = TypeProxy(list, _list, None)
b_tuple = TypeProxy(tuple, _tuple, None)
b_set = TypeProxy(set, _set, None)
b_frozenset = TypeProxy(frozenset, lambda x=(): frozenset(x) if not is_sym(x) else to_set(x), None)
b_dict = TypeProxy(dict, _dict, None)
b_bool = TypeProxy(bool, _bool, None)
b_float = TypeProxy(float, _float, None)


class Range:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _kv_iter(self):
        a, b = iterm(self.a), iterm(self.b)
        n = z3.If(b > a, b - a, z3.IntVal(0))
        n = z3.simplify(n)
        if z3.is_int_value(n) and isinstance(self.a, int):
            return loops.IterSpec("range", n, lambda i: SInt.mk(a + i))
        return loops.IterSpec("range", n, lambda i: SInt.mk(a + i))

    def _kv_lift(self):
        raise Unsupported("range object as a value")

    def length(self):
        a, b = iterm(self.a), iterm(self.b)
        return SInt.mk(z3.If(b > a, b - a, z3.IntVal(0)))


def b_range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 1:
        return Range(0, a[0])
    if len(a) == 2:
        return Range(a[0], a[1])
    if isinstance(a[2], int) and a[2] == 1:
        return Range(a[0], a[1])
    return StepRange(a[0], a[1], a[2])


class StepRange(Range):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def _kv_iter(self):
        if not isinstance(self.s, int) or self.s <= 0:
            raise Unsupported("range with a symbolic step")
        a, b = iterm(self.a), iterm(self.b)
        n = z3.simplify(z3.If(b > a, (b - a + (self.s - 1)) / self.s, z3.IntVal(0)))
        return loops.IterSpec("range", n, lambda i: SInt.mk(a + i * self.s))


class Enum:
    def __init__(self, x, start):
        self.x, self.start = x, start

    def _kv_iter(self):
        sp = loops.iterspec(self.x)
        if sp is None:
            return None
        item = sp.item
        st = iterm(self.start)
        sp.item = lambda i: (SInt.mk(i + st), item(i))
        return sp

    def _kv_lift(self):
        raise Unsupported("enumerate object as a value")

    def __iter__(self):
        return enumerate(native_iter(self.x), self.start)


def b_enumerate(x, start=0):
    return Enum(x, start)


class Zip:
    def __init__(self, xs):
        self.xs = xs

    def _kv_lift(self):
        raise Unsupported("zip object as a value")

    def _kv_iter(self):
        sps = [loops.iterspec(x) for x in self.xs]
        if all(s is None for s in sps):
            return None
        ns, items = [], []
        for x, s in zip(self.xs, sps):
            cyc = getattr(x, "_kv_cycle", None)
            if cyc is not None:
                if core.E.fork(x._kv_len() == 0):
                    return None              # an empty cycle: nothing to zip with
                items.append(cyc)
            elif s is None:
                L = SList.of(list(x))
                ns.append(iterm(L.length()))
                items.append(lambda i, L=L: L[SInt.mk(i)])
            else:
                ns.append(s.n)
                items.append(s.item)
        if len(ns) != 1:
            raise Unsupported("zip of several symbolic iterables")
        base = [s for s in sps if s is not None and getattr(s, "kind", "") != "cycle"][0]
        r = loops.IterSpec(base.kind, ns[0], lambda i: tuple(f(i) for f in items), base.base,
                           base.on_item, base.on_exit)
        return r

    def __iter__(self):
        if any(hasattr(x, "_kv_cycle") for x in self.xs):
            return iter(())                  # _kv_iter found the cycle empty
        return zip(*[native_iter(x) for x in self.xs])


def b_zip(*xs):
    return Zip(xs)


class RevIter:
    def __init__(self, x):
        self.x = x

    def _kv_iter(self):
        sp = loops.iterspec(self.x)
        if sp is None:
            return None
        if sp.kind != "seq":
            raise Unsupported("reversed")
        item = sp.item
        sp.item = lambda i: item(sp.n - 1 - i)
        sp.base = None
        sp.kind = "rev"
        return sp

    def __iter__(self):
        return reversed(list(self.x))

    def _kv_lift(self):
        raise Unsupported("reversed object as a value")


def b_iter(x, *a):
    if loops.iterspec(x) is not None if is_sym(x) else False:
        return SymIterator(x)
    return iter(native_iter(x), *a)


class SymIterator:
    """An explicit iterator over a symbolic iterable."""

    def __init__(self, x):
        self.sp = loops.iterspec(x)
        self.x = x
        self.i = 0
        core.E.register(self)

    def _kv_iter(self):
        if self.i != 0:
            raise Unsupported("partly used iterator")
        return loops.iterspec(self.x)

    def __next__(self):
        if isinstance(self.x, SList):
            if not core.E.fork(z3.IntVal(self.i) < self.sp.n):
                raise StopIteration
            self.i += 1
            core.E.mutated(self, "i")
            return self.sp.item(z3.IntVal(self.i - 1))
        if not core.E.fork(z3.IntVal(self.i) < self.sp.n):
            raise StopIteration
        i = z3.IntVal(self.i)
        if self.sp.on_item:
            self.sp.on_item(i)
        self.i += 1
        core.E.mutated(self, "i")
        return self.sp.item(i)

    def _kv_lift(self):
        raise Unsupported("iterator as a value")


def b_next(it, *default):
    try:
        return it.__next__() if isinstance(it, SymIterator) else next(it)
    except StopIteration:
        if default:
            return default[0]
        raise


def b_id(x):
    h = core.E.ghost.get("identity")
    return h(x) if h else id(x)


def b_hash(x):
    if is_sym(x):
        raise Unsupported("hash of a symbolic value")
    return hash(x)


def b_repr(x):
    if is_sym(x):
        return opaque_str("repr", x)
    return repr(x)


def b_max(*a, **k):
    return _mm(a, k, lambda x, y: x > y, max)


def b_min(*a, **k):
    return _mm(a, k, lambda x, y: x < y, min)


def _mm(a, k, better, nat):
    xs = a if len(a) > 1 else a[0]
    if is_sym(xs):
        if not (isinstance(xs, SList) and xs.concrete()) or k:
            raise Unsupported("min/max of a symbolic collection")
        xs = list(xs.tail)
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return nat(xs, **k)
    if k:
        raise Unsupported("min/max with key")
    r = xs[0]
    for x in xs[1:]:
        r = x if better(x, r) else r
    return r


def b_callable(x):
    if isinstance(x, SVal):
        raise Unsupported("callable() of an opaque value")
    return callable(x)


def b_super(*a):
    return super(*a)


# ------------------------------------------------------------------ classes
def logging_setattr(self, name, value):
    object.__setattr__(self, name, value)
    if loading():
        return
    e = core.E
    e.mutated(self, name)
    if self.__dict__.get("_kv_ro") and not name.startswith("_kv"):
        if not getattr(type(self), "_kv_writable_input", False) and name != "correlation_id":
            raise Unsupported("mutation of an input record")
    if self.__dict__.get("_kv_detached"):
        raise Unsupported("mutation of a record whose holder was summarised")
    if getattr(type(self), "_kv_record", False):
        p = values.RecProxy.get(self)
        p._prop(set())
        if isinstance(value, Mut):
            value.parents.append(p)


def logging_delattr(self, name):
    object.__delattr__(self, name)
    core.E.mutated(self, name)


def reg_new(cls, *a, **k):
    o = object.__new__(cls)
    if not loading():
        core.E.register(o)
    return o


CLASS_HOOKS = []


def post_class(cls):
    if not isinstance(cls, type) or issubclass(cls, BaseException):
        return cls
    if issubclass(cls, (int, str, bytes, list, dict, set, tuple)):
        return cls
    roots = [b for b in cls.__mro__ if b is not object and b is not cls and "_kv_seen" in b.__dict__]
    cls._kv_seen = True
    if not roots:
        if "__setattr__" not in cls.__dict__:
            cls.__setattr__ = logging_setattr
            cls.__delattr__ = logging_delattr
        if "__new__" not in cls.__dict__ and cls.__bases__ == (object,):
            cls.__new__ = reg_new
    for h in CLASS_HOOKS:
        h(cls)
    return cls


def build_class(func, name, *bases, **kw):
    return post_class(builtins.__build_class__(func, name, *bases, **kw))


def loop(lid, it, names):
    return loops.Loop(lid, it, names)


def wloop(lid, names, forever=False):
    return loops.Loop(lid, None, names, is_while=True, forever=forever)
