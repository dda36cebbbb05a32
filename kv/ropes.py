"""Symbolic text and byte strings: ropes of literal and symbolic pieces.

A rope is a sequence of pieces whose concatenation is the string:
  ("lit", s)        a literal
  ("num", t)        the decimal digits of the Int term t          (text)
  ("atom", v)       the string that is the V term v
  ("seq", s)        the characters/bytes of the Seq(V) term s
"""
import struct as _struct
import z3
from . import core, values
from .core import V, SeqV, Unsupported, kind, truthy_f, K_STR, K_BYTES
from .values import Sym, SInt, SBool, SVal, SList, lift, iterm, strlit, not_

I = z3.IntSort()
mk_str_f = z3.Function("mk_str", SeqV, V)
mk_bytes_f = z3.Function("mk_bytes", SeqV, V)
chars_of = z3.Function("chars_of", V, SeqV)          # of a str or bytes value
num_chars = z3.Function("num_chars", I, SeqV)
parse_int_f = z3.Function("parse_int", V, I)
is_int_f = z3.Function("is_int", V, z3.BoolSort())
flat_f = z3.Function("flatten", SeqV, SeqV)       # the characters of a list of strings, concatenated
join_f = z3.Function("str_join", V, V, V)
head_f = z3.Function("split_head", V, V)
tail_f = z3.Function("split_tail", V, V)
encode_f = z3.Function("utf8_encode", V, V)
decode_f = z3.Function("utf8_decode", V, V)
is_utf8_f = z3.Function("is_utf8", V, z3.BoolSort())


def literal_axioms(c, s):
    """Characters of a literal; only short ones matter."""
    e = core.E
    if len(s) == 1:
        e.add(chars_of(c) == z3.Unit(c))
    elif len(s) == 0:
        e.add(chars_of(c) == core.EMPTY_SEQ)


def lit_seq(s):
    """Seq(V) of a literal."""
    if not s:
        return core.EMPTY_SEQ
    us = [z3.Unit(strlit(s[i:i + 1])) for i in range(len(s))]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def cat(parts):
    parts = [p for p in parts if not p.eq(core.EMPTY_SEQ)]
    if not parts:
        return core.EMPTY_SEQ
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


class Rope(Sym):
    __slots__ = ("pieces", "_v")
    text = None

    def __init__(self, pieces):
        ps = []
        for p in pieces:
            if p[0] == "lit":
                if not p[1]:
                    continue
                if ps and ps[-1][0] == "lit":
                    ps[-1] = ("lit", ps[-1][1] + p[1])
                    continue
            ps.append(p)
        self.pieces = ps
        self._v = None

    @classmethod
    def atom(cls, v):
        k = K_STR if cls.text else K_BYTES
        t = chars_of(v)
        core.E.axiom_once(t, kind(v) == k, truthy_f(v) == (z3.Length(t) > 0), canon_term(cls, v))
        return cls([("atom", v)])

    def simp(self):
        """The native string if the rope is a literal."""
        if not self.pieces:
            return "" if self.text else b""
        if len(self.pieces) == 1 and self.pieces[0][0] == "lit":
            return self.pieces[0][1]
        return self

    # -- terms
    def piece_seq(self, p):
        k = p[0]
        if k == "lit":
            return lit_seq(p[1])
        if k == "num":
            t = num_chars(p[1])
            core.E.axiom_once(t, z3.Length(t) >= 1)
            return t
        if k == "atom":
            return chars_of(p[1])
        if k == "seq":
            return p[1]
        raise Unsupported("piece %s" % k)

    def seq(self):
        return cat([self.piece_seq(p) for p in self.pieces])

    def _kv_lift(self):
        s = self.simp()
        if s is not self:
            return strlit(s)
        if len(self.pieces) == 1 and self.pieces[0][0] == "atom":
            return self.pieces[0][1]
        t = (mk_str_f if self.text else mk_bytes_f)(self.seq())
        core.E.axiom_once(t, chars_of(t) == t.arg(0), kind(t) == (K_STR if self.text else K_BYTES),
                          truthy_f(t) == (z3.Length(t.arg(0)) > 0))
        x = t.arg(0)
        if x.decl().name() == "chars_of":        # a string is made of its characters
            core.E.axiom_once(t == x.arg(0), z3.Implies(kind(x.arg(0)) == (K_STR if self.text else K_BYTES), t == x.arg(0)))
        if self.text:
            self.split_axioms(t)
        return t

    def split_axioms(self, t):
        """'<a>:<n>' splits into its parts (a without ':')."""
        ps = self.pieces
        if len(ps) == 3 and ps[1] == ("lit", ":"):
            h, n = type(self)([ps[0]]), type(self)([ps[2]])
            core.E.axiom_once(head_f(t), head_f(t) == h._kv_lift(), tail_f(t) == n._kv_lift())
        if len(ps) == 1 and ps[0][0] == "num":
            core.E.axiom_once(parse_int_f(t), parse_int_f(t) == ps[0][1], is_int_f(t))

    def _kv_type(self):
        return values.TStr if self.text else values.TBytes

    def length(self):
        n = z3.IntVal(0)
        for p in self.pieces:
            if p[0] == "lit":
                n = n + len(p[1])
            else:
                n = n + z3.Length(self.piece_seq(p))
        return SInt.mk(n)

    # -- operations
    def _of(self, o):
        if isinstance(o, str if self.text else bytes):
            return type(self)([("lit", o)])
        if isinstance(o, Rope) and o.text == self.text:
            return o
        return None

    def __add__(self, o):
        r = self._of(o)
        if r is None:
            if isinstance(o, SVal):
                r = type(self).atom(o.v)
            else:
                raise TypeError("can only concatenate %s" % ("str" if self.text else "bytes"))
        return type(self)(self.pieces + r.pieces)

    def __radd__(self, o):
        r = self._of(o)
        if r is None:
            raise TypeError("can only concatenate %s" % ("str" if self.text else "bytes"))
        return type(self)(r.pieces + self.pieces)

    def __eq__(self, o):
        if isinstance(o, (str, bytes, Rope)):
            r = self._of(o)
            if r is None:
                return False
            if [p[0] for p in r.pieces] == [p[0] for p in self.pieces] and all(
                    (a[1] == b[1]) if a[0] == "lit" else a[1].eq(b[1]) for a, b in zip(r.pieces, self.pieces)):
                return True
            return SBool.mk(lift(self) == lift(r.simp()))
        if isinstance(o, SVal):
            return SBool.mk(lift(self) == o.v)
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len of a symbolic string")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string")

    def _kv_pieces(self):
        """Characters, as list elements."""
        if not self.text:
            raise Unsupported("list of bytes")
        out = []
        for p in self.pieces:
            if p[0] == "lit":
                out.extend(p[1])
            else:
                out.append(values.SeqSeg(self.piece_seq(p), values.TStr))
        return out

    def __contains__(self, x):
        raise Unsupported("substring test")

    def _kv_contains(self, x):
        if isinstance(x, str) and self.text and len(self.pieces) > 1:
            if any(p[0] == "lit" and x in p[1] for p in self.pieces):
                return True
        f = z3.Function("contains_str", V, V, z3.BoolSort())
        return SBool.mk(f(lift(self), lift(x)))

    def __mod__(self, o):
        raise Unsupported("formatting with a symbolic format")

    def __lt__(self, o):
        raise Unsupported("ordering of strings")
    __gt__ = __le__ = __ge__ = __mul__ = __rmul__ = __lt__

    def __getitem__(self, i):
        return self.getitem(i)

    def getitem(self, i):
        if isinstance(i, slice) and i.step is None:
            a, b = i.start, i.stop
            if a is None and b is None:
                return self
            ps = self.pieces
            if b is None and isinstance(a, int) and a >= 0 and ps and ps[0][0] == "lit" and len(ps[0][1]) >= a:
                return type(self)([("lit", ps[0][1][a:])] + ps[1:]).simp()
            n = iterm(self.length())

            def norm(x, d):
                if x is None:
                    return d
                t = iterm(x)
                t = z3.If(t < 0, t + n, t)
                return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
            lo, hi = norm(a, z3.IntVal(0)), norm(b, n)
            if "pieces" in core.E.ghost:
                cut = core.E.ghost["pieces"](self, lo, hi)
                if cut is not None:
                    return cut
            if core.E.valid(lo == 0) and core.E.valid(hi == n):
                return self
            cut = self.cut(lo, hi)
            if cut is None and "slice" in core.E.ghost:
                cut = core.E.ghost["slice"](self, lo, hi)
            if cut is not None:
                return cut
            ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return type(self)([("seq", z3.simplify(z3.Extract(self.seq(), lo, ln)))])
        raise Unsupported("index into a symbolic string")

    def cut(self, lo, hi):
        """The pieces between two positions that are bounds of pieces."""
        pos, bounds = z3.IntVal(0), []
        for p in self.pieces:
            bounds.append(pos)
            n = z3.IntVal(len(p[1])) if p[0] == "lit" else z3.Length(self.piece_seq(p))
            pos = z3.simplify(pos + n)
        bounds.append(pos)
        at = []
        for x in (lo, hi):
            for k, b in enumerate(bounds):
                if core.E.valid(b == x):
                    at.append(k)
                    break
            else:
                return None
        return type(self)(self.pieces[at[0]:max(at)]).simp()

    # -- methods
    def split(self, sep=None, maxsplit=-1):
        # names have exactly one colon (precondition), so a limit of one changes nothing
        if not self.text or sep != ":" or maxsplit not in (-1, 1):
            raise Unsupported("split")
        ps = self.pieces
        if len(ps) == 3 and ps[1] == ("lit", ":"):
            return SList.of([type(self)([ps[0]]).simp(), type(self)([ps[2]]).simp()])
        v = lift(self)
        h = core.E.ghost.get("split")
        if h is None:
            raise Unsupported("split of an arbitrary string")
        return h(v)

    def rsplit(self, sep=None, maxsplit=-1):
        return self.split(sep, maxsplit)

    def partition(self, sep):
        if not self.whole(sep):
            return (self, "", "")
        h, t = self.split(sep)
        return (h, sep, t)

    def rpartition(self, sep):
        if not self.whole(sep):
            return ("", "", self)
        return self.partition(sep)

    def whole(self, sep):
        """Is sep in it, as far as that is in question?"""
        if len(self.pieces) == 3 and self.pieces[1] == ("lit", sep) or not core.E.ghost.get("may_lack_sep"):
            return True
        from . import rt
        return bool(rt.contains(sep, self))

    def join(self, xs):
        return join(self, xs)

    def encode(self, *a, **k):
        utf8_only(a, k)
        h = core.E.ghost.get("encode")
        if h:
            return h(self)
        v = lift(self)
        return SBytes.atom(encode_f(v))

    def decode(self, *a, **k):
        utf8_only(a, k)
        h = core.E.ghost.get("decode")
        if h:
            return h(self)
        raise Unsupported("decode")

    def _kv_int(self, *base):
        h = core.E.ghost.get("parse_int")
        if len(self.pieces) == 1 and self.pieces[0][0] == "num":
            return SInt.mk(self.pieces[0][1])
        if h:
            return h(lift(self))
        raise Unsupported("int of a symbolic string")

    def _kv_str(self, *enc):
        if self.text:
            return self
        if enc:
            return self.decode(*enc)
        raise Unsupported("str of symbolic bytes")

    def __getattr__(self, n):
        if n.startswith("_kv") or n.startswith("__"):
            raise AttributeError(n)
        if not hasattr(str if self.text else bytes, n):
            raise AttributeError("%r object has no attribute %r" % ("str" if self.text else "bytes", n))
        raise Unsupported("string method %s" % n)

    def __repr__(self):
        return "<rope %r>" % (self.pieces,)


def canon_term(cls, v):
    f = mk_str_f if cls.text else mk_bytes_f
    return v == f(chars_of(v))


class SStr(Rope):
    __slots__ = ()
    text = True
    _kv_isstr = True

    @staticmethod
    def num(x):
        t = iterm(x)
        if z3.is_int_value(t):
            return str(t.as_long())
        return SStr([("num", t)])


class SBytes(Rope):
    __slots__ = ()
    text = False
    _kv_isbytes = True


def utf8_only(a, k):
    if k or len(a) > 1 or (a and not (isinstance(a[0], str) and a[0].lower().replace("_", "-") in ("utf-8", "utf8"))):
        raise Unsupported("encoding other than utf-8")


def of(x):
    if isinstance(x, Rope):
        return x
    if isinstance(x, str):
        return SStr([("lit", x)])
    if isinstance(x, bytes):
        return SBytes([("lit", x)])
    if isinstance(x, SVal):
        raise Unsupported("string operation on an opaque value")
    raise TypeError("expected a string, got %s" % type(x).__name__)


def join(sep, xs):
    from . import rt
    sep = of(sep)
    out = []
    first = True
    for p in rt.pieces(xs):
        if not first:
            out.extend(sep.pieces)
        first = False
        if getattr(p, "_kv_segment", False):
            if sep.pieces:
                # some text made of them
                v = join_f(lift(sep.simp()), lift(xs))
                core.E.axiom_once(v, kind(v) == (K_STR if sep.text else K_BYTES))
                return type(sep).atom(v)
            if p.elemT is None or p.elemT.k not in ("str", "bytes"):
                raise Unsupported("join of a list of %s" % p.elemT)
            out.append(("seq", flat_f(p.seq)))
            continue
        if isinstance(p, SVal):
            raise Unsupported("join of opaque values")
        r = of(p)
        if r.text != sep.text:
            raise TypeError("sequence item: expected str instance")
        out.extend(r.pieces)
    return type(sep)(out).simp()


def native_method(o, m, a, k):
    """A method of a literal with symbolic arguments."""
    if m == "join":
        return join(o, a[0])
    if m == "format":
        return str_format(o, a, k)
    return getattr(of(o), m)(*a, **k)


def str_format(fmt, a, k):
    from . import rt
    import string
    parts, auto = [], 0
    for text, name, spec, conv in string.Formatter().parse(fmt):
        if text:
            parts.append((text, None, ""))
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        if name.isdigit():
            x = a[int(name)]
        elif name.isidentifier():
            x = k[name]
        else:
            raise Unsupported("str.format of %r" % fmt)
        parts.append((x, conv, spec))
    return rt.fstring(*parts)


class Pack:
    """struct.pack; symbolic argument lists are given to the unit's hook as pieces."""

    def __call__(self, fmt, *a):
        from . import rt
        if not rt.is_sym(fmt) and not any(rt.is_sym(x) for x in a):
            return _struct.pack(fmt, *a)
        return self.hook()(fmt, list(a))

    def hook(self):
        h = core.E.ghost.get("struct.pack")
        if h is None:
            raise Unsupported("struct.pack outside a unit that specifies it")
        return h

    def _kv_symargs(self, args, kw, first=()):
        from . import rt
        if kw:
            raise Unsupported("struct.pack")
        out = list(first)
        for star, x in args:
            if star:
                out.extend(rt.pieces(x))
            else:
                out.append(x)
        if not out or getattr(out[0], "_kv_segment", False):
            raise Unsupported("struct.pack")
        return self.hook()(out[0], out[1:])


class PackOf:
    def __init__(self, fmt):
        self.fmt = fmt

    def __call__(self, *a):
        return _Struct.pack(self.fmt, *a)

    def _kv_symargs(self, args, kw):
        return _Struct.pack._kv_symargs(args, kw, [self.fmt])


class _Struct:
    error = _struct.error

    def __getattr__(self, n):
        raise Unsupported("struct.%s" % n)

    pack = Pack()

    @staticmethod
    def calcsize(fmt):
        from . import rt
        if not rt.is_sym(fmt):
            return _struct.calcsize(fmt)
        h = core.E.ghost.get("struct.calcsize")
        if h is None:
            raise Unsupported("struct.calcsize outside a unit that specifies it")
        return h(fmt)

    @staticmethod
    def unpack_from(fmt, buff, offset=0):
        from . import rt
        if not any(rt.is_sym(x) for x in (fmt, buff, offset)):
            return _struct.unpack_from(fmt, buff, offset)
        h = core.E.ghost.get("struct.unpack_from")
        if h is None:
            raise Unsupported("struct.unpack_from outside a unit that specifies it")
        return h(fmt, buff, offset)

    @staticmethod
    def unpack(fmt, buff):
        from . import rt
        if not any(rt.is_sym(x) for x in (fmt, buff)):
            return _struct.unpack(fmt, buff)
        h = core.E.ghost.get("struct.unpack")
        if h is None:
            raise Unsupported("struct.unpack outside a unit that specifies it")
        return h(fmt, buff)


class Struct:
    def __init__(self, fmt):
        self.format = fmt

    @property
    def size(self):
        return struct_module.calcsize(self.format)

    @property
    def pack(self):
        return PackOf(self.format)

    def unpack_from(self, buff, offset=0):
        return struct_module.unpack_from(self.format, buff, offset)

    def unpack(self, buff):
        return struct_module.unpack(self.format, buff)

    def _kv_lift(self):
        return values.obj_const(self)


struct_module = _Struct()
_Struct.Struct = Struct
