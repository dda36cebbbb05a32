"""Common vocabulary of the contracts."""
import re
import traceback
import z3
from kv import core, values, rt, loops, loader, stubs
from kv.core import (V, Unsupported, Signal, mk_int, mk_bool, mk_list, seq_of, mk_dict, ddom, dval, mk_set, sdom,
                     vdict_get, vdict_has, vdict_set, vdict_del, vdict_empty, vlist_empty, NONE, UNDEF, rec,
                     int_of, bool_of, mk_tuple)
from kv.values import (TInt, TBool, TStr, TBytes, TAny, TNone, TList, TSet, TDict, TOpt, TTuple, TRec, TObj,
                       SInt, SBool, SVal, SList, SDict, SSet, wrap, lift, typeof, iterm)
from kv.loops import Fold, over_seq, over_field, field_seq

I, B = z3.IntSort(), z3.BoolSort()

# the specification's own copy of the documented codes
RETRIABLE = (2, 3, 5, 6, 7, 14, 15, 16, 19, 20)


class Unit:
    def __init__(self, name, props, body, functions=(), doc="", timeout=8000, seconds=60, variants=1):
        self.name, self.props, self.body = name, props, body
        self.functions, self.doc = functions, doc
        self.timeout, self.seconds, self.variants = timeout, seconds, variants


UNITS = []


def unit(*props, functions=(), **kw):
    def d(f):
        UNITS.append(Unit(f.__name__, props, f, functions, (f.__doc__ or "").strip(), **kw))
        return f
    return d


def E():
    return core.E


def R():
    return core.E.repo


def M(name):
    return core.E.repo.load(name)


def fresh(name, ty=TAny, ro=True):
    return wrap(core.E.fresh(V, name), ty, ro=ro)


def fresh_int(name):
    return SInt(core.E.fresh(I, name))


def fresh_term(name, sort=V):
    return core.E.fresh(sort, name)


def need(o, *names):
    for n in names:
        if not hasattr(o, n):
            raise Unsupported("no attribute %s on %s" % (n, type(o).__name__))
    return o


def part_type(cls, **over):
    """TRec of a protocol Part from its parts list; over: types of fields."""
    fs = {}
    for name, p in cls.parts:
        if name in over:
            fs[name] = over[name]
            continue
        n = p.__name__
        if n.startswith("Int"):
            fs[name] = TInt
        elif n.startswith("ArrayOf"):
            it = p.item_class
            if it.__name__.startswith("Int"):
                fs[name] = TList(TInt)
            elif it.__name__ in ("String", "Bytes"):
                fs[name] = TList(TAny)
            else:
                fs[name] = TList(part_type(it))
        elif n in ("String", "Bytes"):
            fs[name] = TAny
        elif n == "MessageSet":
            core.rec("MessageSet", ["messages"])
            fs[name] = TRec(M("kiel.protocol.messages").MessageSet,
                            messages=TList(TTuple(TInt, part_type(M("kiel.protocol.messages").Message))))
        else:
            fs[name] = part_type(p)
    mro = [c.__name__ for c in cls.__mro__]
    if "Response" in mro:
        fs["correlation_id"] = TInt
    if "Request" in mro:
        fs.update(api_key=TInt, api_version=TInt, client_id=TAny, correlation_id=TInt)
    for k, v in over.items():
        if k in fs:
            fs[k] = v
    core.rec(cls._kv_recname, sorted(fs))
    return TRec(cls, **fs)


def response(mod, cls, name="resp", **over):
    c = getattr(M("kiel.protocol." + mod), cls)
    return fresh(name, part_type(c, **over))


ENGINE_NAMES = re.compile(r"\b(S(Int|Val|Bool|List|Dict|Set|Str|Bytes|Ratio|Record)|Dead|DictView|SeqSeg|kv\.)\b")


def call(f, *a, **k):
    """Run code under contract; ('ok', value) or ('exc', exception)."""
    try:
        r = f(*a, **k)
    except Signal:
        raise
    except RecursionError:
        raise Unsupported("recursion without a contract")
    except Exception as x:
        return ("exc", check_exc(x))
    if isinstance(r, stubs.Future):
        r.awaited = True
        if not r.done():
            return ("pending", r)
        if r.state == "exc":
            return ("exc", check_exc(r.value))
        r = r.value
    core.E.prove("waits: every coroutine it starts is waited for", all(x.awaited for x in core.E.ghost.get("_started", [])))
    return ("ok", r)


def check_exc(x):
    """An exception that comes from the verifier's own values is a limit."""
    if isinstance(x, (TypeError, AttributeError, NameError, NotImplementedError)):
        if ENGINE_NAMES.search(str(x)):
            raise Unsupported("%s: %s" % (type(x).__name__, x))
        tb = x.__traceback__
        last = None
        while tb is not None:
            last = tb
            tb = tb.tb_next
        if last is not None and "/kv/" in last.tb_frame.f_code.co_filename:
            raise Unsupported("%s in the verifier: %s" % (type(x).__name__, x))
    return x


def describe(x):
    return "%s: %s" % (type(x).__name__, x)


def prove(name, goal):
    return core.E.prove(name, goal)


def ok(name, res, what="the call"):
    """Obligation: no exception (returns the value or None)."""
    if res[0] != "ok":
        if res[0] == "exc":
            tb = "".join(traceback.format_exception(type(res[1]), res[1], res[1].__traceback__)[-4:])
            core.E.fail(name, "%s raised %s\n%s" % (what, describe(res[1]), tb))
        else:
            core.E.fail(name, "%s never completes" % what)
        return False
    core.E.prove(name, True)
    return True


def eqv(a, b):
    return lift(a) == (b if isinstance(b, z3.ExprRef) else lift(b))


def retriable(code):
    """Bool term: the Int term is one of the documented retriable codes."""
    return z3.Or(*[code == c for c in RETRIABLE])


def fint(recname, field, v):
    return int_of(rec(recname).proj[field](v))


def fld(recname, field, v):
    return rec(recname).proj[field](v)


def ghost(**kw):
    core.E.ghost.update(kw)


def get_or(D, k, default):
    return z3.If(vdict_has(D, k), vdict_get(D, k), default)


def empty_list_of():
    return vlist_empty()


def ext_list(D, k, more):
    """D with D.get(k, []) + more stored under k."""
    old = get_or(D, k, vlist_empty())
    return vdict_set(D, k, mk_list(z3.Concat(seq_of(old), seq_of(more))))


def disturb(o, attr, ty, name=None):
    """Something else changes the collection o.attr, in place, in any way."""
    x = getattr(o, attr)
    if not isinstance(x, values.Mut):
        raise Unsupported("%s is not a collection" % attr)
    x.havoc(fresh_term(name or attr), ty)
    x.mark()


def put(o, **kw):
    """Replace attributes of an object of the program (contracts of callees)."""
    for k, x in kw.items():
        object.__setattr__(o, k, x)


class Returns:
    """A callee replaced by its contract: records its calls; body(*a) decides."""

    def __init__(self, body=None, coroutine=True):
        self.calls, self.body, self.coroutine = [], body, coroutine

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        try:
            r = self.body(*a, **k) if self.body else None
        except Exception as x:
            if not self.coroutine:
                raise
            return stubs.started(stubs.failed(x))
        return stubs.started(stubs.resolved(r)) if self.coroutine else r


def fixed_correlation():
    """Requests under construction carry one opaque correlation id (C06 is
    where the ids are specified)."""
    m = need(M("kiel.protocol.request"), "generate_correlation_id")
    cid = SInt(z3.Int("cid"))
    m.generate_correlation_id = lambda: cid
    return mk_int(cid.t)


def mkrec(cls, **fields):
    """V term of a protocol record."""
    r = core.rec(cls._kv_recname)
    return r.mk(fields)


def mkreq(cls, cid, **fields):
    c = M("kiel.constants")
    return mkrec(cls, api_key=mk_int(API_KEYS[cls.__module__.rpartition(".")[2]]), api_version=mk_int(0),
                 client_id=lift("kiel"), correlation_id=cid, **fields)


# the documented api keys, by module of kiel.protocol
API_KEYS = {"produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8, "offset_fetch": 9,
            "coordinator": 10, "join_group": 11, "heartbeat": 12, "leave_group": 13, "sync_group": 14,
            "describe_groups": 15, "list_groups": 16}


def dict_rel(matches, form, key=None, insts=None):
    """Relation on every modified dict location of a loop the matcher accepts:
    form(D, i, w, loop) for arbitrary w."""
    def rels(loop):
        q = matches(loop)
        if q is None:
            return []
        out = []
        for loc, ty in loop.info.mods.items():
            if ty is None or ty.k != "dict":
                continue

            def f(i, w, loc=loc):
                D = loop.term(loc)
                return None if D is None else form(D, i, w, loop, *q)
            inst = (lambda L, q=q: [(t,) for t in insts(L, *q)]) if insts else None
            out.append(((key or "dict_rel", loc), f, 1, inst))
        return out
    return rels


def over_dict(dom):
    """Match a loop over the keys/values/items of the dict with this domain."""
    def m(loop):
        sp = loop.spec
        if sp is None or sp.kind not in ("dict", "set"):
            return None
        if sp.dom.eq(dom) or core.E.valid(sp.dom == dom):
            return ()
        return None
    return m


def elem_of(loop):
    """Element the loop is at (seq and key loops)."""
    sp = loop.spec
    if sp.kind == "seq":
        return core.nth(seq_of(sp.base), loop.i)
    return core.nth(sp.K, loop.i)


class GhostFold(Fold):
    """A fold over a loop's collection that no variable of the program holds."""

    def __init__(self, name, match, init, seq):
        Fold.__init__(self, name, match, None, kinds=("ghost",), seq=seq)
        self.init = init

    def at(self, params, init, i):
        t = Fold.at(self, params, init, 0)
        core.E.axiom_once(t, t == init)
        return Fold.at(self, params, init, i)

    def hook(self, loop):
        p = self.match(loop)
        if p is not None:
            self.start(p, self.init)
            self.step_at(p, self.init, loop.i)

    def cur(self, loop):
        p = self.match(loop)
        if p is None:
            return None
        self.start(p, self.init)
        return self.at(p, self.init, loop.i)

    def whole(self, *p):
        return self.total(p, self.init)


def truth(x):
    """Truth of a result as a formula (bools and symbolic values)."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, int)) or x is None:
        return z3.BoolVal(bool(x))
    if isinstance(x, SVal):
        return core.truthy_f(x.v)
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, (SList, SDict, SSet)):
        n = x.length()
        return z3.BoolVal(n != 0) if isinstance(n, int) else n.t != 0
    raise Unsupported("truth of %s" % type(x).__name__)


def same_bools(o, attr):
    """While loops: a flag of the program equals the ghost flag o.attr."""
    def rels(loop):
        if not loop.is_while:
            return []
        b = core.E.born.get(id(o))
        gl = ("obj", b, attr)
        out = []
        for loc, ty in loop.info.mods.items():
            if loc == gl:
                for neg in (False, True):
                    def g(i, neg=neg):
                        y = getattr(o, attr)
                        return None if y is None else truth(y) != z3.BoolVal(neg)
                    out.append((("is", loc, neg), g))
            if loc == gl or ty is None or ty.k not in ("bool", "any", "opt", "set", "list", "dict"):
                continue
            for neg in (False, True):
                def f(i, loc=loc, neg=neg):
                    x, y = loop.getloc(loc, loop.cur_locals), getattr(o, attr)
                    if y is None or isinstance(x, values.Dead) or x is loops.UNBOUND:
                        return None
                    try:
                        return (truth(x) == truth(y)) != z3.BoolVal(neg)
                    except Unsupported:
                        return None
                out.append((("same", attr, loc, neg), f))
        return out
    return rels


def same_flag(o, attr):
    """Any loop: a flag of the program equals the ghost flag o.attr."""
    def rels(loop):
        b = core.E.born.get(id(o))
        gl = ("obj", b, attr)
        out = []
        for loc, ty in loop.info.mods.items():
            if loc == gl:
                def g(i):
                    return z3.Not(truth(getattr(o, attr)))
                out.append((("unset", loc), g))
            if loc == gl or ty is None or ty.k not in ("bool", "any", "opt"):
                continue
            for neg in (False, True):
                def f(i, loc=loc, neg=neg):
                    x, y = loop.getloc(loc, loop.cur_locals), getattr(o, attr)
                    if y is None or isinstance(x, values.Dead) or x is loops.UNBOUND:
                        return None
                    try:
                        return (truth(x) == truth(y)) != z3.BoolVal(neg)
                    except Unsupported:
                        return None
                out.append((("same", loc, neg), f))
        return out
    return rels


def fold_snoc(name, fold, init):
    """Lemma, by induction: folding L + [x] is folding L and then one step at x.

    The induction step is an obligation; returns the use of the lemma at (L, x)."""
    e = core.E
    L, x, i = fresh_term("lemma_l"), fresh_term("lemma_x"), e.fresh(I, "lemma_i")
    M_ = mk_list(z3.Concat(seq_of(L), z3.Unit(x)))
    a, b = fold.at((L,), init, i), fold.at((M_,), init, i)
    a1, b1 = fold.at((L,), init, i + 1), fold.at((M_,), init, i + 1)
    el = z3.Const("lemma_el", V)
    prove(name, z3.Implies(z3.And(
        0 <= i, i < z3.Length(seq_of(L)), a == b, el == seq_of(L)[i],
        a1 == fold.pstep(L, a, el), b1 == fold.pstep(M_, b, seq_of(M_)[i])), a1 == b1))
    prove(name, z3.Implies(z3.And(0 <= i, i == z3.Length(seq_of(L))), seq_of(M_)[i] == x))

    def use(L, x):
        L1 = mk_list(z3.Concat(seq_of(L), z3.Unit(x)))
        e.add(fold.total((L1,), init) == fold.pstep(L1, fold.total((L,), init), x))
    return use


class Flag:
    """Whether an element seen so far in a loop satisfies pred; params as the matcher's.

    What a loop modifies may say so in several ways: a truth value that was or-ed or and-ed up, a
    counter, a container, or the effect itself: the set without (with) an element."""

    def __init__(self, name, over, seq, pred, drop=None, add=None):
        g = self.g = GhostFold(name, over, mk_bool(False), seq)
        g.pstep = lambda *a: mk_bool(z3.Or(bool_of(a[-2]), pred(*(a[:-2] + a[-1:]))))
        self.hook, self.drop, self.add = g.hook, drop, add

    def so_far(self, loop, i):
        p = self.g.match(loop)
        self.g.start(p, self.g.init)
        return bool_of(self.g.at(p, self.g.init, i))

    def whole(self, *p):
        return bool_of(self.g.whole(*p))

    def rels(self, loop):
        if self.g.match(loop) is None:
            return []
        out = []
        for loc, ty in loop.info.mods.items():
            k = ty.k if ty is not None else None
            forms = []
            if k == "bool":
                forms = [lambda x, o, b: bool_of(x) == z3.Or(bool_of(o), b),
                         lambda x, o, b: bool_of(x) == z3.And(bool_of(o), z3.Not(b))]
            elif k == "int":
                forms = [lambda x, o, b: z3.And(int_of(x) >= 0, (int_of(x) == 0) == z3.Not(b)),
                         lambda x, o, b: z3.And(int_of(x) >= 0, (int_of(x) == 0) == b)]
            elif k == "list":
                forms = [lambda x, o, b: (z3.Length(seq_of(x)) > 0) == b]
            elif k == "set":
                forms = [lambda x, o, b: (sdom(x) == core.EMPTY_DOM) == z3.Not(b)]
                if self.drop is not None:
                    forms.append(lambda x, o, b: x == z3.If(b, core.vset_del(o, self.drop), o))
                if self.add is not None:
                    forms.append(lambda x, o, b: x == z3.If(b, core.vset_add(o, self.add), o))
            for n, form in enumerate(forms):
                def f(i, loc=loc, form=form):
                    x, o = loop.term(loc), loop.entry.get(loc)
                    return None if x is None or o is None else form(x, o, self.so_far(loop, i))
                out.append((("says", self.g.name, loc, n), f))
        return out


def listed(fs):
    """The values that flags look at may be listed first: rels and step_hooks for such lists, and for what
    looks at them. fs: (flag along a loop, predicate on int values, the value if it is the only one)."""
    out, hooks, lists = [], [], {}

    def some_list(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq" or any(f.g.match(loop) is not None for f, _, _ in fs):
            return None
        return (sp.base,)

    for f, pred, _ in fs:
        key = id(pred)
        if key not in lists:
            lists[key] = Flag("listed_" + f.g.name, some_list, seq_of, lambda L, x, pred=pred: pred(int_of(x)))
            out.append(lists[key].rels)
            hooks.append(lists[key].hook)

    def along(loop):
        r = []
        for f, pred, only in fs:
            if f.g.match(loop) is None:
                continue
            W = lists[id(pred)]
            for loc, ty in loop.info.mods.items():
                if ty is None or ty.k not in ("list", "set") or loc not in loop.entry:
                    continue
                if only is not None:
                    def has(x, only=mk_int(only), ty=ty):
                        return z3.Contains(seq_of(x), z3.Unit(only)) if ty.k == "list" else z3.Select(sdom(x), only)

                    def holds(i, loc=loc, f=f, has=has):
                        x = loop.term(loc)
                        return None if x is None else has(x) == z3.Or(has(loop.entry[loc]), f.so_far(loop, i))
                    r.append((("holds", f.g.name, loc), holds))
                if ty.k == "set":
                    continue

                def says(i, loc=loc, f=f, W=W):
                    x = loop.term(loc)
                    return None if x is None else joined(W, x) == z3.Or(W.whole(loop.entry[loc]), f.so_far(loop, i))
                r.append((("listed", f.g.name, loc), says))

                def grown(i, loc=loc):
                    x = loop.term(loc)
                    return None if x is None else z3.Length(seq_of(x)) == z3.Length(seq_of(loop.entry[loc])) + i
                if all(n != ("grown", loc) for n, _ in r):
                    r.append((("grown", loc), grown))
        return r

    def joined(W, x):
        s = z3.simplify(seq_of(x))
        while z3.is_app(s) and s.decl().name() == "seq_of" and s.arg(0).decl().name() == "mk_list":
            s = z3.simplify(s.arg(0).arg(0))
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            cs = s.children()
            a = mk_list(cs[0] if len(cs) == 2 else z3.Concat(*cs[:-1]))
            b = mk_list(cs[-1])
            ga = mk_bool(joined(W, a))
            core.E.add(W.whole(x) == bool_of(W.g.total((b,), ga)))
            if cs[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                W.g.start((b,), ga)
                W.g.step_at((b,), ga, z3.IntVal(0))
            else:
                core.E.add(bool_of(W.g.total((b,), ga)) == z3.Or(bool_of(ga), W.whole(b)))
        return W.whole(x)
    return out + [along], hooks


def flags(*fs):
    """rels and step_hooks of some flags."""
    return [f.rels for f in fs], [f.hook for f in fs]
