"""Contracts of kiel/compression/*.py.

The libraries by their documentation: what zlib and snappy make of some bytes
gives back those bytes when undone.  What is proved is what kiel adds: the
framing, the blocks, and that nothing is lost or added around them."""
from .base import *
from .codec import (be, seq_of, encseq, encseq_step, parse_env, ArrayParse, chars, kind, wire, NOTHING, bytes_rope)
from kv import ropes
from kv.core import SeqV

ungz_f = z3.Function("gunzip", SeqV, SeqV)
unsn_f = z3.Function("snappy_uncompress", SeqV, SeqV)
sn_f = z3.Function("snappy_compress", SeqV, V)
BLOCK = wire.Rec("compression.Block")
HEADER = b"\x82SNAPPY\x00" + b"\x00\x00\x00\x01" + b"\x00\x00\x00\x01"
SIZE = 32 * 1024
mk_bytes = ropes.mk_bytes_f


def raw(x):
    return ropes.of(x).seq()


def some_bytes(name):
    v = fresh_term(name)
    core.E.add(kind(v) == core.K_BYTES)
    return v, ropes.SBytes.atom(v)


# ---------------------------------------------------------------- gzip
class GzipFile:
    """gzip.GzipFile over a file object: one member, written when closed."""

    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        if fileobj is None or filename is not None and not isinstance(filename, str):
            raise Unsupported("gzip file")
        mode = mode or "rb"
        if mode not in ("r", "rb", "w", "wb"):
            raise Unsupported("gzip mode")
        self.writing, self.fileobj = mode[0] == "w", fileobj
        self.plain, self.closed = ropes.SBytes([]), False
        if self.writing:
            self.fileobj.write(ropes.SBytes([("seq", fresh_term("gzip_header", SeqV))]))

    def write(self, data):
        if not self.writing or self.closed:
            raise OSError("write() on read-only GzipFile object")
        self.plain = self.plain + ropes.of(data)
        return rt.b_len(data)

    def read(self, size=-1):
        if self.writing or self.closed:
            raise OSError("read() on write-only GzipFile object")
        if not (size is None or isinstance(size, int) and size == -1):
            raise Unsupported("reading a part of a gzip file")
        return gunzip(self.fileobj.read())

    def flush(self, *a):
        pass

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.writing:
            at = self.fileobj.getvalue()
            rest = fresh_term("gzip_rest", SeqV)
            self.fileobj.write(ropes.SBytes([("seq", rest)]))
            core.E.add(ungz_f(raw(self.fileobj.getvalue())) == ropes.SBytes(self.plain.pieces).seq())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def gunzip(data):
    s = raw(data)
    for x in core.E.ghost.get("gzipped", ()):
        if core.E.valid(s == x):
            return ropes.SBytes([("seq", ungz_f(x))])
    if core.E.fork(core.E.fresh(B, "not_gzip")):
        raise OSError("Not a gzipped file")
    return ropes.SBytes([("seq", fresh_term("other", SeqV))])


def gzip_whole(data, compresslevel=9, **k):
    out = fresh_term("gzip", SeqV)
    core.E.add(ungz_f(out) == raw(data))
    return ropes.SBytes([("seq", out)])


def gzip_env(e):
    ghost(**{"gzip.GzipFile": GzipFile, "gzip.compress": gzip_whole, "gzip.decompress": gunzip})
    return need(M("kiel.compression.gzip"), "compress", "decompress")


@unit("C05", functions=["kiel.compression.gzip.compress"])
def gzip_compress(e):
    """What is made of any bytes gives them back when uncompressed."""
    m = gzip_env(e)
    v, data = some_bytes("data")
    res = call(lambda: m.compress(data))
    if not ok("C05.completes: all bytes are compressed", res, "compress"):
        return
    prove("C05.gzip: the output is a gzip file of exactly the input", ungz_f(raw(res[1])) == chars(v))
    e.cover("C05.gzip")


@unit("C05", functions=["kiel.compression.gzip.decompress"])
def gzip_decompress(e):
    """A gzip file gives what it holds."""
    m = gzip_env(e)
    v, data = some_bytes("data")
    ghost(gzipped=[chars(v)])
    res = call(lambda: m.decompress(data))
    if not ok("C05.completes: every gzip file is uncompressed", res, "decompress"):
        return
    prove("C05.gunzip: exactly what the file holds", raw(res[1]) == ungz_f(chars(v)))
    e.cover("C05.gunzip")


# ---------------------------------------------------------------- snappy
def sn(block):
    """What snappy makes of a block."""
    t = sn_f(block)
    core.E.axiom_once(t, kind(t) == core.K_BYTES, unsn_f(chars(t)) == block, z3.Length(chars(t)) < (1 << 31),
                      t == mk_bytes(chars(t)), ropes.truthy_f(t) == (z3.Length(chars(t)) > 0))
    return t


def snappy_env(e):
    def compress(data, *enc):
        return ropes.SBytes.atom(sn(raw(data)))

    def uncompress(data, *enc):
        return ropes.SBytes([("seq", unsn_f(raw(data)))])
    parse_env(e, **{"snappy.compress": compress, "snappy.uncompress": uncompress})
    return need(M("kiel.compression.snappy"), "compress", "decompress")


piece_f = z3.Function("piece", SeqV, I, SeqV)


def piece(s, i):
    """The i-th 32 KiB of the bytes s: s[i * 32768:min((i + 1) * 32768, len(s))]."""
    return piece_f(s, i)


def piece_slice(s):
    """Slices that are such a piece, where a loop is."""
    def at(buff, lo, hi):
        if not raw(buff).eq(s):
            return None
        for L in reversed(core.E.loopstack):
            if L.sym and core.E.valid(z3.And(lo == L.i * SIZE, hi == z3.If(
                    z3.Length(s) < (L.i + 1) * SIZE, z3.Length(s), (L.i + 1) * SIZE))):
                return ropes.SBytes([("seq", piece(s, L.i))])
        return None
    return at


def count(s):
    return (z3.Length(s) + (SIZE - 1)) / SIZE


def gathers(over, G):
    """What a loop gathers in some bytes, or as parts in a list, besides what is there already: G(number of elements)."""
    def rels(loop):
        if over(loop) is None:
            return []
        out = []
        for loc, ty in loop.info.mods.items():
            if ty is None or ty.k not in ("list", "bytes") or loc not in loop.entry:
                continue

            def f(i, loc=loc, k=ty.k, entry=loop.entry[loc]):
                t = loop.term(loc)
                if t is None:
                    return None
                now, before = ((joined(seq_of(x)) if k == "list" else chars(x)) for x in (t, entry))
                return now == ropes.cat([before, G(i)])
            out.append((("gathers", loc), f))
        return out
    return rels


class Steps(Fold):
    """Positions: a whole number of blocks."""

    def __init__(self, s, over):
        Fold.__init__(self, "position", over, None, kinds=("int",))

    def start(self, params, init):
        return init

    def at(self, params, init, i):
        return mk_int(int_of(init) + i * SIZE)

    def step_at(self, params, init, i):
        pass


def joined(s):
    """The bytes of the parts of a list, one after the other."""
    s = z3.simplify(s)
    while z3.is_app(s) and s.decl().name() == "seq_of" and s.arg(0).decl().name() == "mk_list":
        s = z3.simplify(s.arg(0).arg(0))
    t = ropes.flat_f(s)
    k = s.decl().kind() if z3.is_app(s) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        core.E.axiom_once(t, t == ropes.cat([joined(c) for c in s.children()]))
    elif k == z3.Z3_OP_SEQ_UNIT:
        core.E.axiom_once(t, t == chars(s.arg(0)))
    elif k == z3.Z3_OP_SEQ_EMPTY:
        core.E.axiom_once(t, t == NOTHING)
    return t


@unit("C05", functions=["kiel.compression.snappy.compress"])
def snappy_compress(e):
    """The header, then every 32 KiB of the input in order, compressed, with
    its length in front."""
    m = snappy_env(e)
    v, data = some_bytes("data")
    s = chars(v)
    n = count(s)
    frames = z3.Function("frames", I, SeqV)             # the first i blocks, each with its length
    packed = z3.Function("packed", I, SeqV)             # the list of the first i blocks
    e.add(chars(lift(HEADER)) == raw(HEADER), frames(0) == NOTHING, packed(0) == NOTHING, z3.Length(packed(n)) == n)

    def over(loop):
        if loop.is_while:
            return ()
        sp = loop.spec
        if sp is not None and sp.kind == "seq" and e.valid(seq_of(sp.base) == packed(n)):
            return ()
        return () if sp is not None and e.valid(sp.n == n) else None

    def step(loop):
        if over(loop) is None:
            return
        c = sn(piece(s, loop.i))
        e.add(frames(loop.i + 1) == z3.Concat(frames(loop.i), be("i", z3.Length(chars(c))), chars(c)),
              packed(loop.i + 1) == z3.Concat(packed(loop.i), z3.Unit(c)),
              z3.Implies(z3.And(0 <= loop.i, loop.i < n), core.nth(packed(n), loop.i) == c))

    def within(loop):
        return [("within", lambda i: i <= n)] if loop.is_while else []
    PK = Fold("packed", over, None, kinds=("list",))
    PK.start = lambda params, init: init
    PK.at = lambda params, init, i: core.vlist_concat(init, mk_list(packed(i))) if init.eq(core.vlist_empty()) else init
    PK.step_at = lambda params, init, i: None
    ghost(folds=[Steps(s, over), PK], rels=[within, gathers(over, frames)], step_hooks=[step], pieces=piece_slice(s))
    res = call(lambda: m.compress(data))
    if not ok("C05.completes: all bytes are compressed", res, "compress"):
        return
    prove("C05.frames: the header, then each 32 KiB of the input in order, compressed and with its length",
          raw(res[1]) == ropes.cat([raw(HEADER), frames(n)]))
    e.cover("C05.compress")


@unit("C05", functions=["kiel.compression.snappy.decompress"])
def snappy_decompress(e):
    """Any sequence of blocks, of any sizes, gives the concatenation of what
    they hold."""
    m = snappy_env(e)
    v = fresh_term("blocks")
    s = seq_of(v)
    n = z3.Length(s)
    e.assume(v == mk_list(s))
    head, whole = fresh_term("header", SeqV), encseq(BLOCK, s, n)
    e.add(z3.Length(head) == len(HEADER))
    ar = ArrayParse(BLOCK, v, 0)
    holds = z3.Function("holds", I, SeqV)               # what the first i blocks hold
    e.add(holds(0) == NOTHING)

    def parts(el):
        e.add(kind(el) == core.K_BYTES, z3.Length(chars(el)) < (1 << 31), el == mk_bytes(chars(el)))
        return [be("i", z3.Length(chars(el))), chars(el)]

    def step(loop):
        if ar.over(loop) is None:
            return
        if e.fork(loop.i < n):
            el = core.nth(s, loop.i)
            encseq_step(BLOCK, s, loop.i)
            ps = parts(el)
            e.add(uf_block(el) == z3.Concat(*ps))
            e.add(z3.Length(whole) >= z3.Length(encseq(BLOCK, s, loop.i + 1)))
            e.add(holds(loop.i + 1) == z3.Concat(holds(loop.i), unsn_f(chars(el))))
        else:
            e.add(loop.i == n)
    ghost(folds=ar.folds, rels=[ar.rels, gathers(ar.over, holds)], step_hooks=[step], loop_exits=[step], array_parts=parts)
    res = call(lambda: m.decompress(ropes.SBytes([("seq", head), ("seq", whole)])))
    if not ok("C05.completes: every sequence of blocks is uncompressed", res, "decompress"):
        return
    prove("C05.blocks: the concatenation of what the blocks hold, in order",
          raw(res[1]) == holds(n))
    e.cover("C05.decompress")


def uf_block(el):
    from .codec import enc
    return enc(BLOCK, el)


@unit("C05", functions=["kiel.compression.snappy.compress", "kiel.compression.snappy.decompress"])
def snappy_lossless(e):
    """Lemma, by induction over the blocks: the pieces compress makes blocks
    of, uncompressed and concatenated as decompress does, are the input."""
    s, i = fresh_term("data", SeqV), fresh_term("i", I)
    n = z3.Length(s)
    k = fresh_term("count", I)
    upto = lambda x: z3.If(x * SIZE < n, x * SIZE, n)
    a, b = fresh_term("a", I), fresh_term("b", I)
    cover = z3.Function("contents_upto", I, SeqV)
    # definitions: the pieces, and what the first x blocks hold together
    e.add(0 <= i, i < k, k == count(s))
    prove("C05.lossless: the pieces are of 1 to 32768 bytes and follow each other", z3.And(
        upto(z3.IntVal(0)) == 0, upto(i) == i * SIZE, upto(i) < upto(i + 1), upto(i + 1) <= upto(i) + SIZE, upto(k) == n))
    e.add(a == upto(i), b == upto(i + 1), 0 <= a, a < b, b <= n)
    part = z3.Extract(s, a, b - a)
    e.add(cover(i) == z3.Extract(s, 0, a), cover(i + 1) == z3.Concat(cover(i), unsn_f(chars(sn(part)))))
    prove("C05.lossless: each block adds the next piece of the input", cover(i + 1) == z3.Extract(s, 0, b))
    prove("C05.lossless: no block is the start, all blocks the whole input", z3.And(
        z3.Extract(s, 0, 0) == NOTHING, z3.Extract(s, 0, n) == s))
    e.cover("C05.lossless")
