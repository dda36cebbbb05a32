"""Contracts of kiel/protocol/messages.py: message sets."""
from .base import *
from .codec import *
from .codec import (cat, be, enc, doc, encseq, encseq_step, uf, ENCS, FMTS, DATAS, Array, Behind, pack, calcsize,
                    codec_env, parse_env, stub_render, stub_parse, assume_value, in_range, seg_list, wire, locate,
                    cls_of, ftype, array_folds, ArrayParse, NOTHING, chars, bytes_of)
from kv import ropes

crc_f = z3.Function("crc32", SeqV, I)
comp_f = z3.Function("compress", I, V, V)             # by the attribute's code, on bytes
MSG = wire.Rec("messages.Message", ("magic", "b"), ("attributes", "b"), ("key", "B"), ("value", "B"))
ENTRY = wire.Rec("messages.Entry")
mk_bytes = lambda s: lift(ropes.SBytes([("seq", s)]))


def crc(data):
    t = crc_f(ropes.of(data).seq())
    core.E.axiom_once(t, t >= 0, t < (1 << 32))
    return SInt(t)


def signed(c):
    return z3.If(c >= (1 << 31), c - (1 << 32), c)


@unit("C03", functions=["kiel.protocol.messages.Message.render", "kiel.protocol.part.Part.render"])
def message_render(e):
    """A message is its CRC32, as a signed number, and the fields it covers."""
    codec_env(e, **{"zlib.crc32": crc})
    stub_render(e, "B")
    terms, vals = build(e, MSG)
    res = call(cls_of(MSG)(**vals).render)
    if not ok("C03.completes: every message is rendered", res, "render"):
        return
    fmt, data = res[1]
    got = ropes.of(pack("!" + ropes.of(fmt), rt.pieces(data)))
    body = cat(*doc(MSG, terms))
    c = iterm(crc(ropes.SBytes([("seq", body)])))
    prove("C03.checksum: the crc of the rest of the body comes first", got.seq() == cat(be("i", signed(c)), body))
    prove("C03.size: the format counts exactly the bytes of the message",
          iterm(calcsize(fmt)) == 4 + z3.Length(body))
    e.cover("C03.message")


class Entries(Array):
    """What loops over (offset, message) pairs collect."""

    def __init__(self, T, owners):
        Array.__init__(self, T, owners)

        def apart(owner, A, el):               # the three formats as three strings
            return mk_list(z3.Concat(seq_of(A), z3.Unit(lift("q")), z3.Unit(lift("i")), z3.Unit(
                mk_str(uf(FMTS, "fmt_" + MSG.cls, V, SeqV)(msg_of(el))))))
        F = Fold("fmt_apart_" + name_of(T), self.over, apart, kinds=("list",), seq=seq_of)
        self.folds.append(F)
        core.E.ghost["families"][F] = (self, "fmt")

    def fmt(self, el):
        return z3.Concat(z3.Unit(lift("q")), z3.Unit(lift("i")), uf(FMTS, "fmt_" + MSG.cls, V, SeqV)(msg_of(el)))

    def data(self, el):
        return z3.Concat(z3.Unit(core.tup_proj(2, 0)(el)), z3.Unit(mk_int(z3.Length(enc(MSG, msg_of(el))))),
                         uf(DATAS, "data_" + MSG.cls, V, SeqV)(msg_of(el)))


def msg_of(el):
    return core.tup_proj(2, 1)(el)


def off_of(el):
    return int_of(core.tup_proj(2, 0)(el))


def entry(el):
    """Offset, size and body of one message of a set."""
    m = enc(MSG, msg_of(el))
    return cat(be("q", off_of(el)), be("i", z3.Length(m)), m)


def define_entries(s, n):
    """Each entry's encoding, where an index is at."""
    el = core.nth(s, n)
    core.E.add(enc(ENTRY, el) == entry(el))




def TEntry():
    m = cls_of(MSG)
    core.rec(m._kv_recname, sorted(FIELDS))

    def w(v):
        o = object.__new__(m)
        o.__dict__.update(_kv_src=v, _kv_ro=True, _kv_ver=len(core.E.mutlog))
        core.E.register(o)
        return o
    return TTuple(TInt, TObj(w))


@unit("C03", functions=["kiel.protocol.messages.MessageSet.render"])
def set_render(e):
    """The set's size, then every message with its offset and its size."""
    codec_env(e)
    stub_render(e, MSG)
    v = fresh_term("messages")
    s = seq_of(v)
    n = z3.Length(s)
    e.assume(v == mk_list(s))
    ar = Entries(ENTRY, [v])
    behind = Behind(ar)
    e.ghost["folds"] = ar.folds + [behind]
    e.assume(z3.Length(encseq(ENTRY, s, n)) < (1 << 31))

    def step(loop):
        if ar.over(loop) is None:
            return
        define_entries(s, loop.i)
        el = core.nth(s, loop.i)
        encseq_step(ENTRY, s, loop.i)
        e.add(in_range("q", off_of(el)))
        e.add(z3.Length(encseq(ENTRY, s, loop.i + 1)) <= z3.Length(encseq(ENTRY, s, n)))
    ghost(step_hooks=[step])
    ms = cls_of("MS")(wrap(v, TList(TEntry()), ro=True))
    res = call(ms.render)
    if not ok("C03.completes: every set is rendered", res, "render"):
        return
    fmt, data = res[1]
    got = ropes.of(pack("!" + ropes.of(fmt), rt.pieces(data)))
    body = encseq(ENTRY, s, n)
    prove("C03.set: size of the set, then each message's offset, size and body in order",
          got.seq() == cat(be("i", z3.Length(body)), body))
    e.cover("C03.set")


def stub_set_render(e):
    """Rendering a set, by its contract (set_render)."""
    cls = cls_of("MS")

    def render(self):
        v = lift(need(self, "messages").messages)
        f = ropes.SStr([("lit", "i"), ("seq", uf(FMTS, "fmt_entries", V, SeqV)(v))])
        n = z3.Length(uf(ENCS, "enc_entries", V, SeqV)(v))
        e.add(n < (1 << 31))
        out = SList.of([SInt.mk(n)])
        out.extend(seg_list(uf(DATAS, "data_entries", V, SeqV)(v)))
        return f, out
    e.repo.patch(cls, "render", render)


def compression(e):
    """kiel.compression, by contract: functions of the bytes (C05)."""
    for name, code in (("gzip", 1), ("snappy", 2)):
        m = M("kiel.compression." + name)

        def compress(data, code=code):
            v = lift(data)
            if not e.valid(kind(v) == core.K_BYTES):
                raise TypeError("a bytes-like object is required")
            return ropes.SBytes.atom(packed(code, v))

        def decompress(data, code=code):
            v = lift(data)
            for x in e.ghost.get("plains", ()):
                if e.valid(v == packed(code, x)):
                    return ropes.SBytes.atom(x)
            if e.fork(e.fresh(B, "decompress_fails")):
                raise ValueError("not compressed like this")
            return ropes.SBytes.atom(e.fresh(V, "junk"))
        need(m, "compress", "decompress")
        m.compress, m.decompress = compress, decompress


def packed(code, v):
    t = comp_f(z3.IntVal(code), v)
    # the first byte of either format is no start of UTF-8 text
    core.E.axiom_once(t, kind(t) == core.K_BYTES, z3.Not(ropes.is_utf8_f(t)), z3.Length(chars(t)) > 0)
    return t


@unit("C03", functions=["kiel.protocol.messages.MessageSet.compressed"])
def set_compressed(e):
    """Without compression the messages at offset -1; with one, a single
    message of the compressed encoding of those."""
    codec_env(e)
    stub_set_render(e)
    compression(e)
    v = fresh_term("msgs")
    e.assume(v == mk_list(seq_of(v)))
    pairs = Fold("pairs", over_seq(seq_of(v)), lambda A, el: mk_list(z3.Concat(
        seq_of(A), z3.Unit(mk_tuple(mk_int(-1), el)))), kinds=("list",), seq=lambda: seq_of(v))
    ghost(folds=[pairs])
    code = fresh_int("compression")
    e.assume(z3.And(code.t >= 0, code.t <= 2))
    et = TEntry().args[1]
    cls = cls_of("MS")
    res = call(cls.compressed, code, wrap(v, TList(et), ro=True))
    if not ok("C03.completes: every list of messages is made a set", res, "compressed"):
        return
    out = need(res[1], "messages").messages
    prove("C03.class: a message set is made", z3.BoolVal(type(res[1]) is cls))
    P = pairs.total((), vlist_empty())
    if e.fork(code.t == 0):
        prove("C03.plain: every message in order at offset -1", seq_of(lift(out)) == seq_of(P))
        e.cover("C03.plain")
        return
    prove("C03.single: exactly one message", iterm(rt.b_len(out)) == 1)
    o, m = out[0]
    prove("C03.envelope: it has offset -1, magic 0, no key and names the compression", z3.And(
        iterm(o) == -1, type(m) is cls_of(MSG), eqv(m.magic, mk_int(0)), eqv(m.key, NONE),
        eqv(m.attributes, mk_int(code.t))))
    raw = uf(ENCS, "enc_entries", V, SeqV)(P)
    for c in (1, 2):
        prove("C03.value: its value is the compressed encoding of the set without the size", z3.Implies(
            code.t == c, eqv(m.value, packed(c, mk_bytes(raw)))))
    e.cover("C03.compressed")


# ---------------------------------------------------------------- decoding
attr_of = lambda m: fint(MSG.cls, "attributes", m)
codec_of = lambda m: attr_of(m) % 4                    # the lowest two bits name the compression
value_of = lambda m: fld(MSG.cls, "value", m)
key_of = lambda m: fld(MSG.cls, "key", m)
plain_f = z3.Function("plain_value", V, V)             # what a compressed message's value holds
inner_f = z3.Function("inner_messages", V, SeqV)       # the messages in it
FIELDS = ("crc", "magic", "attributes", "key", "value")


def a_message(e, m):
    """m is a message as a broker stores it."""
    core.rec(MSG.cls, sorted(FIELDS))
    a = codec_of(m)
    for f, T in (("crc", "i"), ("magic", "b"), ("attributes", "b"), ("key", "B"), ("value", "B")):
        assume_value(T, fld(MSG.cls, f, m))
    e.add(a <= 2)                                      # what is not known cannot be decompressed
    for c in (1, 2):
        e.add(z3.Implies(a == c, value_of(m) == packed(c, plain_f(m))))
    e.add(kind(plain_f(m)) == core.K_BYTES)
    e.add(m == core.rec(MSG.cls).mk({f: fld(MSG.cls, f, m) for f in FIELDS}))


FULL = wire.Rec("messages.Message", ("crc", "i"), ("magic", "b"), ("attributes", "b"), ("key", "B"), ("value", "B"))


@unit("C04", functions=["kiel.protocol.messages.Message.parse", "kiel.protocol.part.Part.parse"])
def message_parse(e):
    """A complete message gives its fields, the value without compression; an
    incomplete one at the end of the buffer gives struct.error."""
    parse_env(e)
    stub_parse(e, "B")
    compression(e)
    m = fresh_term("message")
    a_message(e, m)
    ghost(plains=[plain_f(m)])
    terms = {f: fld(MSG.cls, f, m) for f in FIELDS}
    want = doc(FULL, terms)
    before, after = fresh_term("before", SeqV), fresh_term("after", SeqV)
    start = z3.Length(before)
    cls = cls_of(MSG)
    if e.fork(fresh_term("cut", B)):
        # any proper prefix: some whole fields and a part of the next one
        k = 0
        while k < len(want) - 1 and not e.fork(fresh_term("cut_here", B)):
            k += 1
        part = cut_of(e, want[k])
        buff = ropes.SBytes([("seq", p) for p in [before] + want[:k] + [part]])
        res = call(cls.parse, buff, SInt(start))
        prove("C04.cut: an incomplete message is noticed", z3.BoolVal(
            res[0] == "exc" and type(res[1]) is ropes.struct_module.error))
        e.cover("C04.cut_message")
        return
    buff = ropes.SBytes([("seq", p) for p in [before] + want + [after]])
    res = call(cls.parse, buff, SInt(start))
    if not ok("C04.completes: every complete message is decoded", res, "parse"):
        return
    got, off = res[1]
    prove("C04.consumed: exactly the bytes of the message are consumed",
          iterm(off) == start + sum([z3.Length(p) for p in want], z3.IntVal(0)))
    prove("C04.class: a message", z3.BoolVal(type(got) is cls))
    for f in ("attributes", "key"):
        prove("C04.fields: key and attributes are those encoded", eqv(getattr(got, f, None), terms[f]))
    prove("C04.contents: the value is the one encoded, without compression", eqv(
        got.value, z3.If(codec_of(m) == 0, value_of(m), plain_f(m))))
    e.cover("C04.message")




def stub_message_parse(e):
    """Message.parse by its contract (message_parse)."""
    cls = cls_of(MSG)
    ty = TRec(cls, attributes=TInt, crc=TInt, key=TAny, magic=TInt, value=TAny)

    def parse(buff, offset):
        run, total = locate(ropes.of(buff), iterm(offset))
        while run and e.valid(z3.Length(run[0]) == 0):
            run = run[1:]
        if run and run[0].decl().name() == "enc_" + MSG.cls:
            m, end = run[0].arg(0), SInt.mk(z3.simplify(iterm(offset) + z3.Length(run[0])))
            a_message(e, m)
            o = wrap(m, ty)
            if not e.fork(codec_of(m) == 0):
                o.value = ropes.SBytes.atom(plain_f(m))
                ghost(plain_of=e.ghost.get("plain_of", []) + [m])
            return o, end
        if run is not None and (not run or len(run) == 1 and run[0].get_id() in e.ghost["cuts"]):
            raise ropes.struct_module.error("unpack_from requires a larger buffer")
        if e.fork(e.fresh(B, "parse_fails")):
            raise ropes.struct_module.error("unpack_from requires a larger buffer")
        o = fresh("elsewhere", ty, ro=False)
        o.value = ropes.SBytes.atom(fresh_term("elsewhere"))
        return o, fresh_int("elsewhere")
    e.repo.patch(cls, "parse", staticmethod(parse))


def expanded():
    """The messages of the first i entries, nested sets replaced by theirs."""
    return lambda o, A, el: mk_list(z3.Concat(seq_of(A), z3.If(
        codec_of(msg_of(el)) == 0, z3.Unit(el), inner_f(msg_of(el)))))


def set_parse(e, k):
    """Every complete message in order, nested sets in place; what is left of
    a cut off one is ignored; the end is that of the set."""
    parse_env(e)
    stub_message_parse(e)
    cls = cls_of("MS")
    own = cls.parse.__func__
    v = fresh_term("entries")
    s = seq_of(v)
    n = z3.Length(s)
    e.assume(v == mk_list(s))

    def nested(buff, offset, size=None):
        b = lift(buff)
        for m in e.ghost.get("plain_of", ()):
            if size is not None and e.valid(z3.And(b == plain_f(m), iterm(offset) == 0,
                                                   iterm(size) == z3.Length(chars(plain_f(m))))):
                return cls(SList(inner_f(m), TAny)), size
        return cls(SList(fresh_term("other_messages", SeqV), TAny)), fresh_int("other_end")
    e.repo.patch(cls, "parse", staticmethod(nested))

    whole = encseq(ENTRY, s, n)
    # what is left of the message the set was cut off in
    last = fresh_term("last")
    e.add(last == mk_tuple(mk_int(off_of(last)), msg_of(last)))
    pieces = [be("q", off_of(last)), be("i", z3.Length(enc(MSG, msg_of(last)))), enc(MSG, msg_of(last))]
    tail = [] if k is None else pieces[:k] + [cut_of(e, pieces[k])]
    body = z3.simplify(z3.Length(whole) + sum([z3.Length(p) for p in tail], z3.IntVal(0)))
    before, after = fresh_term("before", SeqV), fresh_term("after", SeqV)
    given = e.fork(fresh_term("size_given", B))
    e.add(body < (1 << 31))
    head = [] if given else [be("i", body)]
    buff = ropes.SBytes([("seq", p) for p in [before] + head + [whole] + tail + [after]])
    start = z3.Length(before)

    ar = ArrayParse(ENTRY, v, 0)
    F = Fold("expanded", ar.over, expanded(), kinds=("list",), seq=seq_of)
    ghost(folds=[F, ar.folds[1]], rels=[ar.rels])

    def step(loop):
        if ar.over(loop) is None:
            return
        if e.fork(loop.i < n):
            el = core.nth(s, loop.i)
            e.add(el == mk_tuple(mk_int(off_of(el)), msg_of(el)))
            encseq_step(ENTRY, s, loop.i)
            e.add(enc(ENTRY, el) == entry(el), z3.Length(enc(ENTRY, el)) == 12 + z3.Length(enc(MSG, msg_of(el))))
            e.add(z3.Length(whole) >= z3.Length(encseq(ENTRY, s, loop.i + 1)))
            a_message(e, msg_of(el))
            e.add(z3.Length(enc(MSG, msg_of(el))) >= 14)
        else:
            e.add(loop.i == n)
    ghost(step_hooks=[step], loop_exits=[step], array_parts=lambda el: [
        be("q", off_of(el)), be("i", z3.Length(enc(MSG, msg_of(el)))), enc(MSG, msg_of(el))])
    res = call(lambda: own(cls, buff, SInt(start), SInt(body)) if given else own(cls, buff, SInt(start)))
    if not ok("C04.completes: every set is decoded", res, "parse"):
        return
    got, end = res[1]
    prove("C04.end: what follows the set is decoded from its end", iterm(end) == start + body + (0 if given else 4))
    prove("C04.class: a message set", z3.BoolVal(type(got) is cls))
    prove("C04.messages: exactly the messages of the complete entries, in order",
          seq_of(lift(got.messages)) == seq_of(F.total((v,), vlist_empty())))
    e.cover("C04.set")


for _k, _where in enumerate(("offset", "size", "message", None)):
    UNITS.append(Unit("set_parse:" + ("cut in its " + _where if _where else "complete"), ("C04",),
                      lambda e, k=_k if _where else None: set_parse(e, k),
                      ["kiel.protocol.messages.MessageSet.parse"], set_parse.__doc__.strip(), seconds=90))
