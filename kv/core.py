"""Exploration engine: paths, path conditions, obligations, and the value sort.

Every unit (a function of /repo under contract) is *executed by CPython* on
symbolic inputs, path by path.  A path is identified by the outcomes of its
forks; all feasible paths are enumerated depth first by re-execution.  Loops
over symbolic collections are cut at their head by inductive invariants (see
loops.py), so the enumeration is finite and covers every number of iterations.
"""
import time
import types
import z3

z3.set_param("model.compact", True)


MODULE = types.ModuleType


class Signal(BaseException):
    """Engine control flow; never caught by code under test."""


class PathEnd(Signal):
    pass


class Restart(PathEnd):
    """Redo everything that starts with these decisions."""

    def __init__(self, prefix):
        super().__init__()
        self.prefix = prefix


class Unsupported(Signal):
    """The code left the subset the verifier understands."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


# ---------------------------------------------------------------- V universe
V = z3.DeclareSort("V")
SeqV = z3.SeqSort(V)
I, B = z3.IntSort(), z3.BoolSort()
DomS = z3.ArraySort(V, B)
ValS = z3.ArraySort(V, V)

kind = z3.Function("kind", V, I)
mk_int_f = z3.Function("mk_int", I, V)
int_of = z3.Function("int_of", V, I)
mk_bool_f = z3.Function("mk_bool", B, V)
bool_of = z3.Function("bool_of", V, B)
mk_list_f = z3.Function("mk_list", SeqV, V)
seq_of = z3.Function("seq_of", V, SeqV)
mk_dict_f = z3.Function("mk_dict", DomS, ValS, V)
ddom = z3.Function("ddom", V, DomS)
dval = z3.Function("dval", V, ValS)
mk_set_f = z3.Function("mk_set", DomS, V)
sdom = z3.Function("sdom", V, DomS)
truthy_f = z3.Function("truthy", V, B)
strid = z3.Function("strid", V, I)
NONE = z3.Const("None", V)
UNDEF = z3.Const("undef", V)
K_NONE, K_INT, K_BOOL, K_LIST, K_DICT, K_SET, K_STR, K_BYTES, K_TUP, K_OBJ = range(10)
K_REC0 = 100
EMPTY_SEQ = z3.Empty(SeqV)
EMPTY_DOM = z3.K(V, z3.BoolVal(False))
EMPTY_VAL = z3.K(V, UNDEF)


class Obligation:
    __slots__ = ("name", "status", "time", "model", "smt", "count", "where")

    def __init__(self, name):
        self.name, self.status, self.time = name, "discharged", 0.0
        self.model = self.smt = self.where = None
        self.count = 0


class Engine:
    """One verification of one unit."""

    def __init__(self, unit="?", timeout_ms=8000, max_paths=20000, deadline=None):
        self.unit = unit
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.loopinfo = {}
        self.checks = 0
        self.solver_time = 0.0
        self.funcs_run = set()
        self.rounds = 0
        self.ghost = {}
        self.covers = {}
        self.trace_paths = []
        self.global_axioms = []
        self.modids = {}

    # ---- exploration -------------------------------------------------------
    def run(self, body, max_rounds=3000):
        """Explore all paths of body(); a path whose loop invariants turned out
        too strong is redone with everything that shares its loop."""
        stack = [[]]
        done = []
        self.npaths = self.rounds = 0
        while stack:
            prefix = stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                self.collect(done)
                raise Unsupported("time budget of the unit exhausted")
            self.obls, self.covers = {}, {}
            self._begin(prefix)
            try:
                body()
            except Restart as r:
                self.rounds += 1
                if self.rounds > max_rounds:
                    raise Unsupported("loop invariants did not stabilise")
                p = r.prefix

                def under(d):
                    return len(d) >= len(p) and d[:len(p)] == p
                done = [x for x in done if not under(x[0])]
                stack = [x for x in stack + self.pending_alts if not under(x)]
                stack.append(list(p))
                continue
            except PathEnd:
                pass
            except Unsupported:
                done.append((list(self.decisions), self.obls, self.covers))
                self.collect(done)
                raise
            done.append((list(self.decisions), self.obls, self.covers))
            stack.extend(self.pending_alts)
        self.collect(done)
        self.npaths = len(done)

    def collect(self, done):
        """Merge the obligations of the paths."""
        self.obls, self.covers = {}, {}
        for _, obls, covers in done:
            for n, o in obls.items():
                m = self.obls.get(n)
                if m is None:
                    self.obls[n] = o
                    continue
                m.count += o.count
                m.time += o.time
                if m.status == "discharged" or (m.status == "undecided" and o.status == "refuted"):
                    m.status, m.model, m.smt, m.where = o.status, o.model, o.smt, o.where
            for n, c in covers.items():
                self.covers[n] = self.covers.get(n) or c

    def _begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending_alts = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.timeout_ms)
        self.ax_seen = set()
        self.ax_seen_map = {}
        self.keep = []
        self.nfresh = {}
        self.born = {}
        self.born_n = 0
        self.mutlog = []
        self.objconst = {}
        self.live = {}
        self.loopstack = []
        self.facts = []
        self.path_notes = []
        self.solver.add(kind(NONE) == K_NONE, kind(UNDEF) == -1)
        self.solver.add(z3.Not(truthy_f(NONE)))
        self.strlits = {}
        self.keyseqs = []
        self.seqmaps = []
        self.index_wit = []
        for a in self.global_axioms:
            self.solver.add(a)

    def restart(self, prefix=()):
        raise Restart(list(prefix))

    # ---- solver ------------------------------------------------------------
    def add(self, *fs):
        for f in fs:
            self.solver.add(f)

    def check(self, *extra):
        self.checks += 1
        t = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            if r == z3.sat:
                try:
                    self.last_model = self.solver.model()
                except z3.Z3Exception:
                    self.last_model = None
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t
        return r

    def valid(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return True
        return self.check(z3.Not(f)) == z3.unsat

    def assume(self, f):
        f = asbool(f)
        self.solver.add(f)

    def assume_checked(self, f):
        """Assume, and end the path if it became infeasible."""
        self.assume(f)
        if self.check() == z3.unsat:
            raise PathEnd()

    def fork(self, cond):
        """Decide a symbolic condition; explores both outcomes."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.fork_seen = getattr(self, "fork_seen", 0) + 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            ft = self.check(c) != z3.unsat
            ff = self.check(z3.Not(c)) != z3.unsat
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                self.pending_alts.append(self.decisions + [0])
                d = 1
            else:
                d = 3 if ft else 2          # forced
            self.pos += 1
            self.prefix = self.decisions + [d]
        self.decisions.append(d)
        b = d in (1, 3)
        self.solver.add(c if b else z3.Not(c))
        return b

    def choose(self, n, label="choice"):
        """Nondeterministic choice among n alternatives (0..n-1)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.pending_alts.append(self.decisions + [("c", k)])
            d = ("c", 0)
            self.prefix = self.decisions + [d]
        self.pos += 1
        self.decisions.append(d)
        return d[1]

    # ---- obligations -------------------------------------------------------
    def obl(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
        return o

    def prove(self, name, goal, where=None):
        """An obligation: goal must hold on this path."""
        o = self.obl(name)
        o.count += 1
        if o.status != "discharged":
            return False
        g = asbool(goal)
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        t = time.time()
        r = self.check(z3.Not(g))
        if r == z3.unknown:
            self.solver.set("timeout", self.timeout_ms * 4)
            r = self.check(z3.Not(g))
            self.solver.set("timeout", self.timeout_ms)
        o.time += time.time() - t
        if r == z3.unsat:
            return True
        o.status = "refuted" if r == z3.sat else "undecided"
        o.where = where or list(self.path_notes)
        if r == z3.sat and self.last_model is not None:
            o.model = str(self.last_model)[:6000]
        o.smt = str(g)[:3000]
        return False

    def fail(self, name, why):
        o = self.obl(name)
        o.count += 1
        if o.status == "discharged":
            # only if the path is feasible
            if self.check() == z3.unsat:
                return
            o.status = "refuted"
            o.where = list(self.path_notes)
            o.model = why
            if self.last_model is not None:
                o.smt = str(self.last_model)[:3000]

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        if self.covers.get(name):
            return
        self.covers[name] = self.check() != z3.unsat

    def note(self, text):
        self.path_notes.append(text)

    # ---- names -------------------------------------------------------------
    def fresh(self, sort, name="x"):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        return z3.Const("%s!%d" % (name, n), sort)

    def register(self, obj):
        if id(obj) not in self.born:
            if type(obj) is MODULE:
                n = self.modids.setdefault(obj.__name__, -1 - len(self.modids))
                self.born[id(obj)] = n
                self.live[n] = obj
                return n
            self.born_n += 1
            self.born[id(obj)] = self.born_n
            self.live[self.born_n] = obj
            self.keep.append(obj)
        return self.born[id(obj)]

    def mutated(self, obj, field=None, child=None):
        self.register(obj)
        self.mutlog.append((obj, field, child))

    # ---- axioms ------------------------------------------------------------
    def axiom_once(self, term, *axs):
        k = term.get_id()
        if k in self.ax_seen:
            return
        self.ax_seen.add(k)
        self.keep.append(term)
        for a in axs:
            self.solver.add(a)


E = Engine()


def set_engine(e):
    global E
    E = e
    return e


def eng():
    return E


def asbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if hasattr(x, "z3bool"):
        return x.z3bool()
    return x


# ---- constructors with ground injectivity axioms ---------------------------
def _ax(term, *axs):
    E.axiom_once(term, *axs)
    return term


def mk_int(i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    # mk_int(int_of(v)) for a canonical int v
    t = mk_int_f(i)
    return _ax(t, int_of(t) == i, kind(t) == K_INT, truthy_f(t) == (i != 0))


def mk_bool(b):
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    t = mk_bool_f(b)
    return _ax(t, bool_of(t) == b, kind(t) == K_BOOL, truthy_f(t) == b)


def mk_list(s):
    t = mk_list_f(s)
    return _ax(t, seq_of(t) == s, kind(t) == K_LIST, truthy_f(t) == (z3.Length(s) > 0))


def mk_dict(d, v):
    t = mk_dict_f(d, v)
    return _ax(t, ddom(t) == d, dval(t) == v, kind(t) == K_DICT)


def mk_set(d):
    t = mk_set_f(d)
    return _ax(t, sdom(t) == d, kind(t) == K_SET)


_tupf = {}


def mk_tuple(*xs):
    n = len(xs)
    if n not in _tupf:
        _tupf[n] = (z3.Function("tup%d" % n, *([V] * n + [V])),
                    [z3.Function("tup%d_%d" % (n, i), V, V) for i in range(n)])
    f, ps = _tupf[n]
    t = f(*xs)
    return _ax(t, kind(t) == K_TUP, *[p(t) == x for p, x in zip(ps, xs)])


def tup_proj(n, i):
    if n not in _tupf:
        mk_tuple(*[NONE] * n)
    return _tupf[n][1][i]


class RecInfo:
    """A record constructor: one per class name, fixed field list."""

    def __init__(self, name, fields, idx):
        self.name, self.fields, self.idx = name, tuple(fields), idx
        self.con = z3.Function("mk_" + name, *([V] * len(fields) + [V])) if fields else None
        self.const = None if fields else z3.Const("mk_" + name, V)
        self.proj = {f: z3.Function("%s.%s" % (name, f), V, V) for f in fields}

    def mk(self, vals):
        if not self.fields:
            return _ax(self.const, kind(self.const) == K_REC0 + self.idx)
        xs = [vals[f] for f in self.fields]
        t = self.con(*xs)
        return _ax(t, kind(t) == K_REC0 + self.idx, truthy_f(t),
                   *[self.proj[f](t) == x for f, x in zip(self.fields, xs)])

    def canon(self, v):
        """Axiom: v is a record of this class."""
        k = ("canon", self.name, v.get_id())
        if k in E.ax_seen:
            return v
        E.ax_seen.add(k)
        E.keep.append(v)
        if self.fields:
            E.add(v == self.mk({f: self.proj[f](v) for f in self.fields}))
        else:
            E.add(v == self.mk({}))
        return v


_recs = {}


def rec(name, fields=None):
    r = _recs.get(name)
    if r is None:
        if fields is None:
            raise Unsupported("unknown record type %s" % name)
        r = _recs[name] = RecInfo(name, fields, len(_recs))
    elif fields is not None and tuple(fields) != r.fields:
        raise Unsupported("record %s has fields %s, expected %s" % (name, tuple(fields), r.fields))
    return r


def nth(s, i):
    """Element i of a sequence, as a constant of its own (keeps terms small)."""
    if isinstance(i, int):
        i = z3.IntVal(i)
    i = z3.simplify(i)
    key = ("nth", s.get_id(), i.get_id())
    c = E.ax_seen_map.get(key)
    if c is None:
        c = E.fresh(V, "el")
        E.ax_seen_map[key] = c
        E.keep.append(s)
        E.keep.append(i)
        E.add(c == s[i])
    return c


# ---- term level helpers used by specifications -----------------------------
def seq_unit(v):
    return z3.Unit(v)


def seq_app(s, *vs):
    parts = [s] + [z3.Unit(v) for v in vs]
    return z3.Concat(*parts) if len(parts) > 1 else s


def vlist_append(L, *vs):
    return mk_list(seq_app(seq_of(L), *vs))


def vlist_concat(L, M):
    return mk_list(z3.Concat(seq_of(L), seq_of(M)))


def vdict_has(D, k):
    return z3.Select(ddom(D), k)


def vdict_get(D, k, default=None):
    x = z3.Select(dval(D), k)
    return x if default is None else z3.If(vdict_has(D, k), x, default)


def vdict_set(D, k, x):
    return mk_dict(z3.Store(ddom(D), k, z3.BoolVal(True)), z3.Store(dval(D), k, x))


def vdict_del(D, k):
    return mk_dict(z3.Store(ddom(D), k, z3.BoolVal(False)), z3.Store(dval(D), k, UNDEF))


def vdict_empty():
    return mk_dict(EMPTY_DOM, EMPTY_VAL)


def vlist_empty():
    return mk_list(EMPTY_SEQ)


def vset_empty():
    return mk_set(EMPTY_DOM)


def vset_add(S, x):
    return mk_set(z3.Store(sdom(S), x, z3.BoolVal(True)))


def vset_del(S, x):
    return mk_set(z3.Store(sdom(S), x, z3.BoolVal(False)))


def vset_has(S, x):
    return z3.Select(sdom(S), x)
