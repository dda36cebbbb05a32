"""Contracts of kiel/protocol/*.py and kiel/compression/*.py: the wire codec.

Bytes are sequences.  be_c(n) stands for the big-endian encoding of n in the
width of format letter c (struct's documentation is the trusted part), and
encodings of nested parts, arrays and message sets are named by functions of
the encoded value; each class's unit establishes its function's definition, the
units of the classes that hold it use it as its contract.
"""
import os
import sys
import struct as pystruct
from .base import *
from kv import ropes
from kv.core import SeqV, NONE
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from battery import wire                                    # noqa: E402  (the documented grammar, as data)

W = {"b": 1, "h": 2, "i": 4, "q": 8}
BE = {c: z3.Function("be_" + c, I, SeqV) for c in W}
CODES = {"b", "h", "i", "q"}
NOTHING = core.EMPTY_SEQ


def isw(T):
    return isinstance(T, str) and T in W


def isvar(T):
    return isinstance(T, str) and T in ("S", "B")


def summary(it):
    return isinstance(it[0], str) and it[0] in ("fold", "item")

ENCS, FMTS, DATAS, ENCSEQ = {}, {}, {}, {}


def be(c, t):
    t = z3.simplify(t if isinstance(t, z3.ExprRef) else z3.IntVal(t))
    r = BE[c](t)
    core.E.axiom_once(r, z3.Length(r) == W[c])
    return r


def in_range(c, t):
    n = 8 * W[c] - 1
    return z3.And(t >= -(1 << n), t < (1 << n))


def cat(*parts):
    return ropes.cat([p for p in parts])


def uf(table, name, *sorts):
    if name not in table:
        table[name] = z3.Function(name, *sorts)
    return table[name]


def name_of(T):
    return T.cls if isinstance(T, wire.Rec) else "MessageSet" if T == "MS" else T


def is_rec(T):
    return isinstance(T, wire.Rec) or T == "MS"


def cls_of(T):
    if T == "MS":
        return need(M("kiel.protocol.messages"), "MessageSet").MessageSet
    if isvar(T) or isw(T):
        n = {"S": "String", "B": "Bytes", "b": "Int8", "h": "Int16", "i": "Int32", "q": "Int64"}[T]
        return getattr(need(M("kiel.protocol.primitives"), n), n)
    m, c = T.cls.split(".")
    return getattr(need(M("kiel.protocol." + m), c), c)


def bytes_of(v):
    """The bytes of a present str or bytes value."""
    x = ropes.encode_f(v)
    core.E.axiom_once(x, kind(x) == core.K_BYTES, ropes.decode_f(x) == v, ropes.is_utf8_f(x))
    return z3.If(kind(v) == core.K_BYTES, v, x)


kind = core.kind


def chars(v):
    return ropes.chars_of(v)


class Utf8(Exception):
    pass


# ---------------------------------------------------------------- documented encodings, on terms
def named(T):
    """Types whose encoding is a function of the value, established by a unit of their own."""
    return is_rec(T) or isvar(T)


def enc(T, v):
    """The documented encoding of v (a V term)."""
    if named(T):
        return uf(ENCS, "enc_" + name_of(T), V, SeqV)(v)
    if isw(T):
        return be(T, int_of(v))
    raise Unsupported("array of arrays")


def doc(T, v):
    """The documented encoding, expanded one level (list of sequences)."""
    if isinstance(T, wire.Rec):
        out = []
        for n, t in T.fields:
            f = v[n] if isinstance(v, dict) else fld(recname(T), n, v)
            out += doc(t, f) if isinstance(t, list) else [enc(t, f)]
        return out
    if isinstance(T, list):
        s = seq_of(v)
        return [be("i", z3.Length(s)), encseq(T[0], s, z3.Length(s))]
    if isvar(T):
        c = "h" if T == "S" else "i"
        if core.E.fork(v == NONE):
            return [be(c, -1)]
        b = v if core.E.fork(kind(v) == core.K_BYTES) else bytes_of(v).arg(2)
        return [be(c, z3.Length(chars(b))), chars(b)]
    return [enc(T, v)]


def encseq(T, s, i):
    """Encodings of the first i elements of the sequence s."""
    f = uf(ENCSEQ, "encs_" + name_of(T), SeqV, I, SeqV)
    z = f(s, z3.IntVal(0))
    core.E.axiom_once(z, z == NOTHING)
    return f(s, z3.simplify(i if isinstance(i, z3.ExprRef) else z3.IntVal(i)))


def encseq_step(T, s, i):
    el = core.nth(s, i)
    core.E.add(encseq(T, s, i + 1) == z3.Concat(encseq(T, s, i), enc(T, el)))


def recname(T):
    return "MessageSet" if T == "MS" else T.cls


def assume_value(T, v):
    """v is a value that has an encoding."""
    e = core.E
    if isw(T):
        e.add(v == mk_int(int_of(v)), in_range(T, int_of(v)))
    elif isvar(T):
        e.add(z3.Or(v == NONE, kind(v) == core.K_STR, kind(v) == core.K_BYTES))
        e.add(z3.Implies(v != NONE, z3.Length(chars(bytes_of(v))) < (1 << (15 if T == "S" else 31))))
        e.add(z3.Implies(kind(v) == core.K_BYTES, z3.Not(ropes.is_utf8_f(v))) if e.ghost.get("decoding") else True)
    elif isinstance(T, list):
        e.add(z3.Length(seq_of(v)) < (1 << 31), v == mk_list(seq_of(v)))


def wire_value(T):
    """Python value of a string field: None, text or bytes."""
    def w(v):
        e = core.E
        if e.fork(v == NONE):
            return None
        if e.fork(kind(v) == core.K_STR):
            return ropes.SStr.atom(v)
        return ropes.SBytes.atom(v)
    return w


TSTR = TObj(wire_value(None))


def int_value(c):
    def w(v):
        assume_value(c, v)
        return SInt.mk(int_of(v))
    return w


TINT = {c: TObj(int_value(c)) for c in W}


def ftype(T):
    if isw(T):
        return TINT[T]
    if isvar(T):
        return TAny
    if isinstance(T, list):
        return TList(ftype(T[0]))
    if T == "MS":
        core.rec("MessageSet", ["messages"])
        return TRec(cls_of(T), messages=TList(TAny))
    fs = {n: ftype(t) for n, t in T.fields}
    core.rec(cls_of(T)._kv_recname, sorted(fs))
    # fields of nested parts are not looked at
    return TObj(nested(T))


def nested(T):
    def w(v):
        cls = cls_of(T)
        o = object.__new__(cls)
        o.__dict__["_kv_src"] = v
        o.__dict__["_kv_ro"] = True
        o.__dict__["_kv_ver"] = len(core.E.mutlog)
        core.E.register(o)
        return o
    return w


# ---------------------------------------------------------------- struct
def is_op(t, k):
    return z3.is_app(t) and t.decl().kind() == k


def lit_of(c):
    for (tag, s), t in core.E.strlits.items():
        if t.eq(c):
            return s
    return None


def fold_of(t):
    """(fold, params, init, i) of a fold application."""
    if z3.is_app(t) and t.decl().name().startswith("F_"):
        for f in core.E.ghost.get("folds", ()):
            if f.name == t.decl().name()[2:]:
                a = t.children()
                return f, a[:-2], a[-2], a[-1]
    return None


def ftoks(s, flat=False):
    """A format, as characters, numbers, items and folds of items."""
    s = z3.simplify(s)
    if is_op(s, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in s.children() for x in ftoks(c, flat)]
    if is_op(s, z3.Z3_OP_SEQ_EMPTY):
        return []
    if is_op(s, z3.Z3_OP_SEQ_UNIT):
        return strtoks(s.arg(0))
    n = s.decl().name()
    if n == "flatten":
        return ftoks(s.arg(0), True)
    if n == "num_chars":
        return [("num", s.arg(0))]
    if n == "chars_of":
        return strtoks(s.arg(0))
    if n == "seq_of":
        x = s.arg(0)
        if x.decl().name() == "mk_list":
            return ftoks(x.arg(0), flat)
        f = fold_of(x)
        if f:
            return ftoks(seq_of(f[2]), flat) + [("fold", f[0], f[1], f[3])]
    if n.startswith("fmt_"):
        return [("item", n[4:], s.arg(0))]
    raise Unsupported("format %s" % n)


def strtoks(v):
    x = lit_of(v)
    if x is not None:
        return list(x)
    if v.decl().name() == "mk_str":
        return ftoks(v.arg(0))
    f = fold_of(v)
    if f:
        return strtoks(f[2]) + [("fold", f[0], f[1], f[3])]
    raise Unsupported("format string %s" % v.decl().name())


def dtoks(s):
    s = z3.simplify(s)
    if is_op(s, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in s.children() for x in dtoks(c)]
    if is_op(s, z3.Z3_OP_SEQ_EMPTY):
        return []
    if is_op(s, z3.Z3_OP_SEQ_UNIT):
        return [("val", s.arg(0))]
    n = s.decl().name()
    if n == "seq_of":
        x = s.arg(0)
        if x.decl().name() == "mk_list":
            return dtoks(x.arg(0))
        f = fold_of(x)
        if f:
            return dtoks(seq_of(f[2])) + [("fold", f[0], f[1], f[3])]
        for F, (fam, role) in core.E.ghost.get("families", {}).items():
            if role == "data" and isw(fam.T) and any(o.eq(x) for o in fam.owners):
                return [("fold", F, (x,), z3.Length(s))]       # its elements as they are
    if n.startswith("data_"):
        return [("item", n[5:], s.arg(0))]
    raise Unsupported("struct data %s" % n)


def items(fmt):
    """(order, [(count or None, letter) | item | fold])"""
    ts = ftoks(ropes.of(fmt).seq() if ropes.of(fmt).pieces else NOTHING)
    order = "@"
    if ts and isinstance(ts[0], str) and ts[0] in "!<>=@":
        order = ts.pop(0)
    out, num = [], None
    for t in ts:
        if isinstance(t, tuple) and t[0] == "num":
            if num is not None:
                raise Unsupported("number in a format")
            num = t[1]
        elif isinstance(t, str) and t.isdigit():
            if num is not None and not z3.is_int_value(num):
                raise Unsupported("number in a format")
            num = z3.IntVal((num.as_long() * 10 if num is not None else 0) + int(t))
        elif isinstance(t, str):
            if t in W and num is not None:
                if not z3.is_int_value(num):
                    raise Unsupported("repeat count in a format")
                out += [(None, t)] * num.as_long()
            elif t in W or t == "s":
                out.append((num, t))
            else:
                raise Unsupported("format letter %r" % t)
            num = None
        else:
            if num is not None:
                raise Unsupported("number in a format")
            out.append(t)
    if num is not None:
        raise pystruct.error("repeat count given without format specifier")
    return order, out


def family(fold):
    return core.E.ghost["families"].get(fold)


def pack(fmt, vals):
    """struct.pack: concatenates the encodings of the items."""
    order, its = items(fmt)
    data = []
    for x in vals:
        data += dtoks(x.seq) if getattr(x, "_kv_segment", False) else [("live", x)]
    out = []
    for it in its:
        if not data:
            raise pystruct.error("pack expected more items for packing")
        d = data.pop(0)
        if summary(it):
            if d[0] != it[0]:
                raise Unsupported("format and data are not built alike")
            if it[0] == "item":
                if d[1] != it[1] or not core.E.valid(d[2] == it[2]):
                    raise Unsupported("format and data are not built alike")
                out.append(uf(ENCS, "enc_" + it[1], V, SeqV)(it[2]))
            else:
                F, G = family(it[1]), family(d[1])
                if not (F and G and F[0] is G[0] and G[1] == "data" and F[1] == "fmt"
                        and len(it[2]) == len(d[2]) and all(a.eq(b) for a, b in zip(it[2], d[2]))
                        and core.E.valid(it[3] == d[3])):
                    raise Unsupported("format and data are not built alike")
                out.append(F[0].total(it[2], it[3]))
            continue
        n, c = it
        if c in W:
            t = as_int(d)
            if t is None:
                raise pystruct.error("required argument is not an integer")
            if not core.E.fork(in_range(c, t)):
                raise pystruct.error("'%s' format out of range" % c)
            out.append(be(c, t) if order in "!>" else core.E.fresh(SeqV, "other_order"))
        else:
            n = z3.IntVal(1) if n is None else n
            b = as_bytes(d)
            if b is None:
                raise pystruct.error("argument for 's' must be a bytes object")
            if not core.E.valid(z3.Length(b) == n):
                b = core.E.fresh(SeqV, "padded")
                core.E.add(z3.Length(b) == z3.If(n > 0, n, z3.IntVal(0)))
            out.append(b)
    if data:
        raise pystruct.error("pack expected fewer items for packing")
    return ropes.SBytes([("seq", p) for p in out]).simp()


def as_int(d):
    if d[0] == "val":
        v = d[1]
        if v.decl().name() == "mk_int":
            return v.arg(0)
        if core.E.valid(kind(v) == core.K_INT):
            return int_of(v)
        raise Unsupported("integer of unknown provenance")
    return iterm(d[1]) if d[0] == "live" else None


def as_bytes(d):
    if d[0] == "val":
        v = d[1]
        if v.decl().name() == "mk_bytes":
            return v.arg(0)
        x = lit_of(v)
        if isinstance(x, bytes):
            return ropes.lit_seq(x)
        if core.E.valid(kind(v) == core.K_BYTES):
            return chars(v)
        raise Unsupported("bytes of unknown provenance")
    x = d[1]
    if isinstance(x, bytes):
        return ropes.lit_seq(x)
    if isinstance(x, ropes.SBytes):
        return x.seq()
    return None


def calcsize(fmt):
    order, its = items(fmt)
    n = z3.IntVal(0)
    for k, it in enumerate(its):
        if summary(it) and it[0] == "fold":
            F = family(it[1])
            if order == "@" or F is None:
                raise Unsupported("native size of a summarised format")
            n = n + z3.Length(F[0].total(it[2], it[3]))
        elif summary(it):
            # the formats of items have no padding by themselves
            if order == "@" and len(its) > 1:
                raise Unsupported("native size of a summarised format")
            n = n + z3.Length(uf(ENCS, "enc_" + it[1], V, SeqV)(it[2]))
        elif it[1] in W:
            w = W[it[1]]
            if order == "@" and not core.E.valid(n % w == 0):
                n = n + (-n) % w
            n = n + w
        else:
            n = n + (z3.IntVal(1) if it[0] is None else it[0])
    return SInt.mk(n)


class Array:
    """Lists of elements of one type being rendered: the format and data that
    loops over such a list collect, and what they pack to."""

    def __init__(self, T, owners):
        self.T, self.owners = T, owners
        n = name_of(T)

        def step(f, kind_):
            def s(owner, A, el):
                x = f(el)
                if kind_ == "chars":
                    return mk_list(z3.Concat(seq_of(A), x))
                if kind_ == "strs":
                    return mk_list(z3.Concat(seq_of(A), z3.Unit(mk_str(x))))
                return mk_str(z3.Concat(chars(A), x))
            return s
        self.folds = []
        for nm, f, k, kinds, role in (("fmt_chars_" + n, self.fmt, "chars", ("list",), "fmt"),
                                      ("fmt_strs_" + n, self.fmt, "strs", ("list",), "fmt"),
                                      ("fmt_text_" + n, self.fmt, "text", ("str",), "fmt"),
                                      ("data_list_" + n, self.data, "chars", ("list",), "data")):
            F = Fold(nm, self.over, step(f, k), kinds=kinds, seq=seq_of)
            self.folds.append(F)
            core.E.ghost["families"][F] = (self, role)

    def over(self, loop):
        sp = loop.spec
        if sp is None:
            return None
        for o in self.owners:
            s = seq_of(o)
            if sp.kind == "seq" and (seq_of(sp.base).eq(s) or core.E.valid(seq_of(sp.base) == s)):
                return (o,)
            if sp.kind != "seq" and core.E.valid(sp.n == z3.Length(s)):
                return (o,)
        return None

    def fmt(self, el):
        if isw(self.T):
            return z3.Unit(lift(self.T))
        return uf(FMTS, "fmt_" + name_of(self.T), V, SeqV)(el)

    def data(self, el):
        if isw(self.T):
            return z3.Unit(el)
        return uf(DATAS, "data_" + name_of(self.T), V, SeqV)(el)

    def total(self, params, i):
        return encseq(self.T, seq_of(params[0]), i)


def mk_str(s):
    t = ropes.mk_str_f(s)
    core.E.axiom_once(t, chars(t) == s, kind(t) == core.K_STR)
    return t


def stub_render(e, T):
    """Rendering a nested part, by its contract."""
    cls, n = cls_of(T), name_of(T)
    own = cls.render

    def render(self, *a, **k):
        if type(self) is not cls or a or k or (isvar(T) and "value" not in self.__dict__):
            return own(self, *a, **k)
        v = lift(self.value if isvar(T) else self)
        f = ropes.SStr([("seq", uf(FMTS, "fmt_" + n, V, SeqV)(v))])
        return f, seg_list(uf(DATAS, "data_" + n, V, SeqV)(v))
    e.repo.patch(cls, "render", render)


def seg_list(s):
    return SList(s, TAny)


def codec_env(e, **kw):
    ghost(families={}, folds=[], **{"struct.pack": pack, "struct.calcsize": calcsize})
    ghost(**kw)


GRAMMAR = {}


def collect(T):
    if isinstance(T, list):
        collect(T[0])
    elif isinstance(T, wire.Rec):
        GRAMMAR[T.cls] = T
        for _, t in T.fields:
            collect(t)


for _t in list(wire.REQUESTS.values()) + list(wire.RESPONSES.values()):
    collect(_t)


def parts_in(types):
    seen, out = set(), []

    def visit(T, top):
        if isinstance(T, list):
            visit(T[0], False)
        elif isinstance(T, wire.Rec):
            for _, t in T.fields:
                visit(t, False)
            if T.cls not in seen:
                seen.add(T.cls)
                out.append((T, top))
    for T in types.values():
        visit(T, True)
    return out


def parts_of(T):
    """Types of the fields' elements that are rendered or parsed by contract."""
    out = {}
    for _, t in T.fields:
        if isinstance(t, list):
            t = t[0]
        if named(t):
            out[name_of(t)] = t
    return list(out.values())


def build(e, T):
    """An instance of T's class with arbitrary fields, and their terms."""
    terms, vals = {}, {}
    for n, t in T.fields:
        v = fresh_term(n)
        assume_value(t, v)
        terms[n] = v
        vals[n] = wrap(v, ftype(t), ro=True)
    return terms, vals


def counter():
    """The module of the correlation ids, and the name of the counter: the global that making an id sets."""
    m = need(M("kiel.protocol.request"), "generate_correlation_id")
    f = m.generate_correlation_id
    code = getattr(f, "__code__", None)
    names = []
    if code is not None and "setglobal" in code.co_names:
        names = [n for n in code.co_consts if isinstance(n, str) and n.isidentifier() and hasattr(m, n)]
    if len(names) != 1:
        raise Unsupported("making correlation ids otherwise than by counting")
    return m, names[0]


def render_unit(T, top, api):
    def body(e):
        codec_env(e)
        cls = cls_of(T)
        for t in parts_of(T) + (["S"] if top else []):
            stub_render(e, t)
        terms, vals = build(e, T)
        for t in {name_of(t[0]): t[0] for _, t in T.fields if isinstance(t, list)}.values():
            owners = [terms[n] for n, u in T.fields if isinstance(u, list) and name_of(u[0]) == name_of(t)]
            e.ghost["folds"] = e.ghost["folds"] + Array(t, owners).folds
        head = []
        if top:
            last = fresh_int("last_id")
            e.assume(z3.And(last.t >= 0, last.t < 1 << 30))
            setattr(*counter(), last)
        o = cls(**vals)
        if top:
            head = [be("h", wire.KEYS[api.split("/")[0]]), be("h", 0), be("i", iterm(need(
                o, "correlation_id").correlation_id)), enc("S", lift("kiel"))]
            res = call(o.serialize)
            if not ok("C01.completes: every value in range is serialized", res, "serialize"):
                return
            got = ropes.of(res[1])
        else:
            res = call(o.render)
            if not ok("C01.completes: every value in range is rendered", res, "render"):
                return
            got = ropes.of(pack("!" + ropes.of(res[1][0]), rt.pieces(res[1][1])))
        want = cat(*(head + doc(T, terms)))
        prove("C01.grammar: the bytes are exactly the documented ones", got.seq() == want)
        e.cover("C01.renders")
    return body


for _T, _top in parts_in(wire.REQUESTS):
    _api = next((k for k, v in wire.REQUESTS.items() if v is _T), None)
    UNITS.append(Unit("render:" + _T.cls, ("C01",), render_unit(_T, _top, _api),
                      ["kiel.protocol.part.Part.render", "kiel.protocol.primitives.Array.render",
                       "kiel.protocol.primitives.VariablePrimitive.render"] + (
                          ["kiel.protocol.request.Request.serialize"] if _top else []),
                      "Rendering %s, for all field values in range; its nested parts by contract." % _T.cls))


# ---------------------------------------------------------------- parsing
def pieces_at(buff):
    """[(position, sequence)] of the pieces of a buffer, and its length."""
    pos, out = z3.IntVal(0), []
    for p in buff.pieces:
        s = buff.piece_seq(p)
        for q in (s.children() if is_op(s, z3.Z3_OP_SEQ_CONCAT) else [s]):
            out.append((pos, q))
            pos = norm(pos + z3.Length(q))
    return out, pos


def norm(t):
    """An integer term with what is known by construction rewritten."""
    t = z3.simplify(t) if not z3.is_int_value(t) else t
    if is_op(t, z3.Z3_OP_ADD) or is_op(t, z3.Z3_OP_MUL):
        cs = [norm(c) for c in t.children()]
        return z3.simplify(z3.Sum(cs) if is_op(t, z3.Z3_OP_ADD) else z3.Product(cs))
    if z3.is_app(t) and t.num_args() == 1:
        c = t.arg(0)
        if t.decl().name() == "int_of" and c.decl().name() == "mk_int":
            return norm(c.arg(0))
        if is_op(t, z3.Z3_OP_SEQ_LENGTH) and c.decl().name()[:3] == "be_":
            return z3.IntVal(W[c.decl().name()[3:]])
    return t


def same(a, b):
    d = norm(a - b)
    return z3.is_int_value(d) and d.as_long() == 0


def array_of(q):
    """(T, s, n) of a piece that is the encoding of the elements of an array."""
    return core.E.ghost["arrays"].get(q.decl().name()) if z3.is_app(q) and q.num_args() == 2 else None


def expand(q):
    """The pieces around the element an enclosing loop is at: [(offset, piece)]."""
    e = core.E
    T = array_of(q)
    if T is None:
        return
    s, n = q.arg(0), q.arg(1)
    for L in reversed(e.loopstack):
        key = (id(L), n.get_id())
        if key not in e.ghost["at_element"]:
            if L.is_while:
                if not L.sym or not e.valid(L.i < n):
                    continue
            elif L.spec is None or not e.valid(L.spec.n == n):
                continue
            e.ghost["at_element"][key] = L, n
        el = core.nth(s, L.i)
        assume_value(T, el)
        encseq_step(T, s, L.i)
        parts = core.E.ghost["array_parts"](el) if "array_parts" in core.E.ghost else [enc(T, el)]
        pos, out = z3.Length(encseq(T, s, L.i)), []
        for p in parts:
            out.append((pos, p))
            pos = z3.simplify(pos + z3.Length(p))
        e.add(z3.Length(q) >= z3.Length(encseq(T, s, L.i + 1)))
        e.add(z3.Length(encseq(T, s, L.i + 1)) == pos)
        yield out


def opened(ps, p):
    """Strings read by hand are taken apart (the code does not go through
    String.parse or Bytes.parse there)."""
    e, out = core.E, []
    for pos, q in ps:
        if q.decl().name() in ("enc_S", "enc_B"):
            if q.get_id() in e.ghost["opened"] or e.valid(pos == p):
                e.ghost["opened"].add(q.get_id())
                n = pos
                for x in doc(q.decl().name()[4:], q.arg(0)):
                    out.append((n, x))
                    n = z3.simplify(n + z3.Length(x))
                e.add(z3.Length(q) == z3.simplify(n - pos))
                continue
        out.append((pos, q))
    return out


def locate(buff, p, strings=False):
    """The pieces of the buffer from position p on; its length."""
    ps, total = pieces_at(buff)
    p = norm(p)
    if strings:
        ps = opened(ps, p)
    cands = [(pos, [x for _, x in ps[k:]]) for k, (pos, q) in enumerate(ps)]
    inner = [(z3.simplify(pos + off), [x for _, x in sub[j:]]) for pos, q in ps for sub in expand(q)
             for j, (off, _) in enumerate(sub)]
    for pos, run in inner:
        if same(pos, p):
            return run, total
    for quick in (True, False):
        for pos, run in cands:
            if same(pos, p) if quick else core.E.valid(pos == p):
                if array_of(run[0]) is None or core.E.valid(z3.Length(run[0]) == 0):
                    return run, total
                break
    for pos, run in inner:
        if core.E.valid(pos == p):
            return run, total
    if core.E.valid(p == total):
        return [], total
    return None, total


def unpack_from(fmt, buff, off):
    """struct.unpack_from: the values whose encodings lie there."""
    e = core.E
    order, its = items(fmt)
    buff, p, out = ropes.of(buff), norm(iterm(off)), []
    for n, c in its:
        if c in W:
            size = z3.IntVal(W[c])
        else:
            size = z3.IntVal(1) if n is None else n
            if e.fork(size < 0):
                raise pystruct.error("bad char in struct format")
        run, total = locate(buff, p, True)
        val = None
        if run is not None:
            if c in W:
                while run and e.valid(z3.Length(run[0]) == 0):
                    run = run[1:]
                if run and order in "!>" and run[0].decl().name() == "be_" + c:
                    val = SInt.mk(run[0].arg(0))
            else:
                val = prefix_of(run, size)
        if val is None:
            if not e.valid(p >= 0):
                raise Unsupported("negative offset")
            if not e.fork(p + size <= total):
                raise pystruct.error("unpack_from requires a larger buffer")
            if c in W:
                t = e.fresh(I, "read")
                e.add(in_range(c, t))
                val = SInt(t)
            else:
                s = e.fresh(SeqV, "read")
                e.add(z3.Length(s) == size)
                val = ropes.SBytes([("seq", s)])
        out.append(val)
        p = z3.simplify(p + size)
    return tuple(out)


def prefix_of(run, size):
    """The first size bytes of the pieces, if they end at one's end."""
    got, n = [], z3.IntVal(0)
    for q in [None] + run:
        if q is not None:
            got.append(q)
            n = z3.simplify(n + z3.Length(q))
        if core.E.valid(n == size):
            return bytes_rope(got)
    return None


def slice_of(buff, lo, hi):
    """A slice that consists of whole pieces."""
    run, total = locate(buff, norm(lo), True)
    return prefix_of(run, norm(hi - lo)) if run else None


def bytes_rope(ps):
    if len(ps) == 1 and ps[0].decl().name() == "chars_of":
        return ropes.SBytes.atom(ps[0].arg(0))
    return ropes.SBytes([("seq", q) for q in ps]).simp()


def decode(r):
    """bytes.decode: gives back what was encoded; other bytes may not be text."""
    e = core.E
    v = lift(r)
    if v.decl().name() == "utf8_encode":
        return ropes.SStr.atom(v.arg(0))
    if not e.fork(ropes.is_utf8_f(v)):
        raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
    return ropes.SStr.atom(ropes.decode_f(v))


class ArrayParse:
    """Lists that loops over the encoding of an array collect: a prefix of it;
    and positions: behind the encoding of that prefix."""

    def __init__(self, T, owner, n):
        self.T, self.owner, self.n = T, owner, n
        self.folds = [Prefix(self), Behind(self, n)]
        core.E.ghost["arrays"]["encs_" + name_of(T)] = T

    def over(self, loop):
        if loop.is_while:
            return (self.owner,)
        if loop.spec is not None and core.E.valid(loop.spec.n == z3.Length(seq_of(self.owner))):
            return (self.owner,)
        return None

    def rels(self, loop):
        """While loops: at most one iteration for each element."""
        if not loop.is_while:
            return []
        return [(("within", self.n), lambda i: i <= z3.Length(seq_of(self.owner)))]


class Prefix(Fold):
    def __init__(self, ar):
        Fold.__init__(self, "parsed%d_%s" % (ar.n, name_of(ar.T)), ar.over, lambda o, A, el: mk_list(
            z3.Concat(seq_of(A), z3.Unit(el))), kinds=("list",), seq=seq_of)

    def at(self, params, init, i):
        t = Fold.at(self, params, init, i)
        core.E.axiom_once(t, z3.Implies(t.arg(2) >= 0, z3.Length(seq_of(t)) == z3.Length(seq_of(init)) + t.arg(2)))
        return t

    def start(self, params, init):
        o = params[0]
        t = Fold.start(self, params, init)
        whole = self.at(params, vlist_empty(), z3.Length(seq_of(o)))
        core.E.add(whole == mk_list(seq_of(o)))
        return t


class Behind(Fold):
    def __init__(self, ar, n=0):
        self.T = ar.T
        Fold.__init__(self, "behind%d_%s" % (n, name_of(ar.T)), ar.over, None, kinds=("int",), seq=seq_of)

    def start(self, params, init):
        encseq(self.T, seq_of(params[0]), 0)
        return init

    def at(self, params, init, i):
        return mk_int(norm(int_of(init)) + z3.Length(encseq(self.T, seq_of(params[0]), i)))

    def step_at(self, params, init, i):
        encseq_step(self.T, seq_of(params[0]), i)


def array_folds(e, fields):
    """fields: [(type of the elements, term of the list)]"""
    for n, (t, owner) in enumerate(fields):
        ar = ArrayParse(t, owner, n)
        e.ghost["folds"] = e.ghost["folds"] + ar.folds
        e.ghost["rels"] = e.ghost.get("rels", []) + [ar.rels]


def stub_parse(e, T):
    """Parsing a nested part, by its contract."""
    cls, n = cls_of(T), name_of(T)
    ty = ftype(T)

    def parse(buff, offset, *a, **k):
        if a or k:
            raise Unsupported("arguments to parse")
        run, total = locate(ropes.of(buff), iterm(offset))
        if run and run[0].decl().name() == "enc_" + n:
            return wrap(run[0].arg(0), ty, ro=True), SInt.mk(z3.simplify(iterm(offset) + z3.Length(run[0])))
        if run is not None and (not run or len(run) == 1 and run[0].get_id() in core.E.ghost["cuts"]):
            raise pystruct.error("unpack_from requires a larger buffer")
        if core.E.fork(core.E.fresh(B, "parse_fails")):
            raise pystruct.error("unpack_from requires a larger buffer")
        return fresh("elsewhere", ty), fresh_int("elsewhere")
    e.repo.patch(cls, "parse", staticmethod(parse))


def cut_of(e, piece):
    """A proper prefix of a piece, at the end of a buffer."""
    part = fresh_term("part", SeqV)
    e.add(z3.Length(part) < z3.Length(piece))
    e.ghost["cuts"].add(part.get_id())
    e.keep.append(part)
    return part


def parse_env(e, **kw):
    codec_env(e, cuts=set(), at_element={}, arrays={}, opened=set(), slice=slice_of, decode=decode, decoding=True, **{"struct.unpack_from": unpack_from,
                                                              "struct.unpack": lambda f, b: unpack_all(f, b)})
    ghost(**kw)


def unpack_all(fmt, buff):
    n = calcsize(fmt)
    if not core.E.fork(iterm(n) == iterm(ropes.of(buff).length())):
        raise pystruct.error("unpack requires a buffer of another size")
    return unpack_from(fmt, buff, 0)


def parse_unit(T, top):
    def body(e):
        parse_env(e)
        cls = cls_of(T)
        for t in parts_of(T):
            stub_parse(e, t)
        terms = {}
        for n, t in T.fields:
            terms[n] = fresh_term(n)
            assume_value(t, terms[n])
        array_folds(e, [(t[0], terms[n]) for n, t in T.fields if isinstance(t, list)])
        want = doc(T, terms)
        if top:
            buff = ropes.SBytes([("seq", p) for p in want])
            res = call(cls.deserialize, buff)
            if not ok("C02.completes: every documented encoding is decoded", res, "deserialize"):
                return
            got = res[1]
        else:
            before, after = fresh_term("before", SeqV), fresh_term("after", SeqV)
            buff = ropes.SBytes([("seq", p) for p in [before] + want + [after]])
            start = z3.Length(before)
            res = call(cls.parse, buff, SInt(start))
            if not ok("C02.completes: every documented encoding is decoded", res, "parse"):
                return
            got, off = res[1]
            prove("C02.consumed: exactly the bytes of the value are consumed",
                  iterm(off) == start + sum([z3.Length(p) for p in want], z3.IntVal(0)))
        prove("C02.class: an instance of the right class", z3.BoolVal(type(got) is cls))
        for n, t in T.fields:
            prove("C02.value: every field holds what was encoded", eqv(getattr(got, n, None), terms[n]))
        e.cover("C02.decodes")
    return body


for _T, _top in parts_in(wire.RESPONSES):
    UNITS.append(Unit("parse:" + _T.cls, ("C02",), parse_unit(_T, _top),
                      ["kiel.protocol.part.Part.parse", "kiel.protocol.primitives.Array.parse",
                       "kiel.protocol.primitives.VariablePrimitive.parse", "kiel.protocol.primitives.Primitive.parse"]
                      + (["kiel.protocol.response.Response.deserialize"] if _top else []),
                      "Decoding the documented encoding of %s, for all field values; its nested parts by contract."
                      % _T.cls))


# ---------------------------------------------------------------- primitives
PRIMS = {"S": "String", "B": "Bytes", "b": "Int8", "h": "Int16", "i": "Int32", "q": "Int64"}


def prim_render(T):
    def body(e):
        codec_env(e)
        v = fresh_term("value")
        assume_value(T, v)
        res = call(cls_of(T)(wrap(v, TSTR if isvar(T) else TINT[T])).render)
        if not ok("C01.completes: every value in range is rendered", res, "render"):
            return
        got = ropes.of(pack("!" + ropes.of(res[1][0]), rt.pieces(res[1][1])))
        prove("C01.grammar: the bytes are exactly the documented ones", got.seq() == cat(*doc(T, v)))
        e.cover("C01.renders")
    return body


def prim_parse(T):
    def body(e):
        parse_env(e)
        v = fresh_term("value")
        assume_value(T, v)
        before, after = fresh_term("before", SeqV), fresh_term("after", SeqV)
        want = doc(T, v)
        if e.fork(fresh_term("cut", B)):
            k = 0
            while k < len(want) - 1 and not e.fork(fresh_term("cut_here", B)):
                k += 1
            buff = ropes.SBytes([("seq", p) for p in [before] + want[:k] + [cut_of(e, want[k])]])
            res = call(cls_of(T).parse, buff, SInt(z3.Length(before)))
            prove("C04.cut: an incomplete value at the end of the buffer is noticed", z3.BoolVal(
                res[0] == "exc" and type(res[1]) is ropes.struct_module.error))
            return
        buff = ropes.SBytes([("seq", p) for p in [before] + want + [after]])
        start = z3.Length(before)
        res = call(cls_of(T).parse, buff, SInt(start))
        if not ok("C02.completes: every documented encoding is decoded", res, "parse"):
            return
        got, off = res[1]
        prove("C02.consumed: exactly the bytes of the value are consumed",
              iterm(off) == start + sum([z3.Length(p) for p in want], z3.IntVal(0)))
        prove("C02.value: every field holds what was encoded", eqv(got, v))
        e.cover("C02.decodes")
    return body


for _c, _n in PRIMS.items():
    _b = "VariablePrimitive" if _c in "SB" else "Primitive"
    UNITS.append(Unit("render:" + _n, ("C01",), prim_render(_c), ["kiel.protocol.primitives.%s.render" % _b],
                      "Rendering %s for all values." % _n))
    UNITS.append(Unit("parse:" + _n, ("C02", "C04"), prim_parse(_c), ["kiel.protocol.primitives.%s.parse" % _b],
                      "Decoding %s for all values, at any position." % _n))
