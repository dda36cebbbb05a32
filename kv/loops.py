"""Cutting loops over symbolic collections with inductive invariants.

At the head of such a loop every location the body modifies (found by running
the body) is replaced by an arbitrary value that satisfies the surviving
invariant candidates; candidates come from the contract (folds over the
iterated collection, relations) and a few generic ones, and are dropped
(Houdini style) when the body does not preserve them.  The exploration is
redone from scratch until nothing is dropped any more, so what is finally
assumed at a loop head has been established at entry and at every back edge.
"""
import z3
from . import core, values
from .core import V, Unsupported, PathEnd, mk_int, mk_dict, mk_set
from .values import (SInt, SList, SDict, SSet, DictView, Dead, lift, typeof, tjoin, wrap,
                     TInt, TAny, iterm)

UNBOUND = object()
import os
DEBUG = os.environ.get('KV_DEBUG')

keyseq = z3.Function("keyseq", core.DomS, core.SeqV)
visited = z3.Function("visited", core.DomS, z3.IntSort(), core.DomS)


def instantiate(*terms):
    """Use the facts of finished loops at these terms."""
    e = core.E
    for w, f in e.facts:
        if len(w) == len(terms):
            e.add(z3.substitute(f, *zip(w, terms)))


class IterSpec:
    """What a symbolic loop iterates over."""

    def __init__(self, kind, n, item, base=None, on_item=None, on_exit=None, extra=None):
        self.kind, self.n, self.item = kind, n, item
        self.base = base              # V term (list: mk_list'd seq owner; dict: V; set: V) or None
        self.on_item, self.on_exit = on_item, on_exit
        self.extra = extra


distinct_f = z3.Function("distinct_seq", core.SeqV, z3.BoolSort())      # no element occurs twice


def rt_seqdom(s):
    from . import rt
    return rt.seqdom(s)


def key_iter(dom, keyT, item, kind, base, K=None):
    K = keyseq(dom) if K is None else K
    n = z3.Length(K)
    e = core.E

    def vis(i):
        return visited(dom, i)

    def start():
        e.axiom_once(vis(z3.IntVal(0)), vis(z3.IntVal(0)) == core.EMPTY_DOM)
        e.add((n == 0) == (dom == core.EMPTY_DOM))
        # visited at the end covers exactly the keys (assumed at exit)
    start()

    def on_item(i):
        k = core.nth(K, i)
        e.add(z3.Select(dom, k))
        e.add(z3.Not(z3.Select(vis(i), k)))
        e.add(vis(i + 1) == z3.Store(vis(i), k, z3.BoolVal(True)))
        wit(i)
        instantiate(k)

    def wit(i):
        for w in e.ghost.get("key_witnesses", ()):
            e.add(z3.Implies(z3.Select(vis(i), w), z3.Select(dom, w)))

    def on_exit(i):
        e.add(vis(n) == dom)
        wit(i)

    sp = IterSpec(kind, n, lambda i: item(core.nth(K, i)), base, on_item, on_exit)
    sp.dom, sp.K, sp.vis = dom, K, vis
    return sp


def iterspec(x):
    """IterSpec for symbolic iterables, None for what CPython can iterate."""
    f = getattr(x, "_kv_iter", None)
    if f is not None and not isinstance(x, (Dead, type)):
        return f()
    if isinstance(x, SList):
        x.use()
        if x.concrete():
            return None
        if any(getattr(t, "_kv_segment", False) and not isinstance(t, values.SeqSeg) for t in x.tail):
            raise Unsupported("iteration over a summarised list")
        s, t = x.seq(), x.et()
        if t is None:
            raise Unsupported("iteration over a list of unknown element type")
        owner = core.mk_list(s)
        ss = z3.simplify(s)
        if z3.is_app(ss) and ss.decl().name() == "keyseq":
            return key_iter(ss.arg(0), t, lambda k: wrap(k, t, ro=True), "seq", owner)
        if z3.is_app(ss) and ss.decl().name() == "valseq":
            dom, val = ss.arg(0), ss.arg(1)
            sp = key_iter(dom, TAny, lambda k: wrap(z3.Select(val, k), t, ro=True), "seq", owner)
            sp.vals = val
            item0 = sp.on_item

            def on_item(i):
                core.E.add(core.nth(ss, i) == z3.Select(val, core.nth(sp.K, i)))
                item0(i)
            sp.on_item = on_item
            return sp
        if z3.is_app(ss) and ss.decl().name() == "itemseq" and t.k == "tuple":
            dom, val = ss.arg(0), ss.arg(1)
            kt, vt = t.args

            def pair(k):
                return (wrap(k, kt, ro=True), wrap(z3.Select(val, k), vt, ro=True))
            return key_iter(dom, TAny, pair, "dict", core.mk_dict(dom, val))
        while z3.is_app(ss) and ss.decl().name() == "seq_of" and ss.arg(0).decl().name() == "mk_list":
            ss = ss.arg(0).arg(0)
        if core.E.ghost.get("distinct_used") and core.E.valid(distinct_f(ss)):
            return key_iter(rt_seqdom(s), t, lambda k: wrap(k, t, ro=True), "seq", owner, K=s)
        return IterSpec("seq", z3.Length(s), lambda i: wrap(core.nth(s, i), t, ro=True), owner)
    if isinstance(x, SDict):
        x = DictView(x, "keys")
    if isinstance(x, DictView):
        d = x.d
        d.use()
        if d.dom is None:
            return None
        if d.total:
            raise Unsupported("iteration over a position table")
        d.compact()
        dv = mk_dict(d.dom, d.val)
        kt = d.keyT

        def item(k, d=d, what=x.what):
            kv = wrap(k, kt)
            if what == "keys":
                return kv
            y = d.lookup(kv)
            return y if what == "values" else (kv, y)
        return key_iter(d.dom, kt, item, "dict", dv)
    if isinstance(x, SSet):
        x.use()
        if x.concrete() and all(isinstance(y, (int, str)) for y in x.elems):
            return None
        if x.concrete() and len(x.elems) <= 1:
            return None
        t = x.elemT
        return key_iter(x.dom, t, lambda k: wrap(k, t), "set", mk_set(x.dom))
    if isinstance(x, values.SVal):
        x.__iter__()
    if type(x).__module__.partition(".")[0] == "kiel" and hasattr(type(x), "__iter__"):
        it = x.__iter__()
        if hasattr(it, "_kv_iter"):
            return it._kv_iter()
    return None


class Info:
    def __init__(self):
        self.mode = None
        self.mods = {}          # loc -> Ty
        self.killed = set()
        self.delta = {}         # loc -> learned append template


class Loop:
    def __init__(self, lid, iterable, names, is_while=False, forever=False):
        e = core.E
        self.e = e
        self.lid = lid
        self.names = names
        self.is_while = is_while
        self.forever = forever
        self.sym = False
        self.started = False
        self.native_n = 0
        if not is_while:
            self.spec = iterspec(iterable)
            self.iterated = iterable.d if isinstance(iterable, DictView) else iterable
            if self.spec is None:
                from . import rt
                self.it = iter(rt.native_iter(iterable))
            else:
                self.sym = True
        else:
            self.spec = None
        self.prefix = list(e.decisions)
        key = (lid, tuple(e.decisions), e.nfresh.get("loop" + lid, 0))
        e.nfresh["loop" + lid] = e.nfresh.get("loop" + lid, 0) + 1
        if self.sym:
            self.guard()
        self.key = key
        self.info = e.loopinfo.get(key)
        if self.info is None:
            self.info = e.loopinfo[key] = Info()
        if is_while and self.info.mode == "sym":
            self.guard()
            self.sym = True

    def guard(self):
        """A generator consumed by plain iteration cannot be cut at a loop:
        only coroutines run by the driver (or other frames) can."""
        import sys
        f = sys._getframe(1)
        while f is not None and f.f_globals.get("__name__", "").startswith("kv."):
            f = f.f_back
        while f is not None and f.f_code.co_flags & 0x20:
            f = f.f_back
            if f is not None and not f.f_code.co_flags & 0x20 and f.f_code.co_name != "drive":
                raise Unsupported("symbolic loop in a generator")

    def cuttable(self):
        try:
            self.guard()
            return True
        except Unsupported:
            return False

    # ---- for loops ---------------------------------------------------------
    def more(self, loc):
        if not self.sym:
            self.native_n += 1
            if self.native_n > 300:
                raise Unsupported("loop does not end on this path")
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        if not self.started:
            self.head(loc)
            sp = self.spec
            if self.e.fork(self.i < sp.n):
                if sp.on_item:
                    sp.on_item(self.i)
                self.step_axioms()
                return True
            self.e.add(self.i == sp.n)
            if sp.on_exit:
                sp.on_exit(self.i)
            self.exit_facts()
            self.exited = True
            if self in e_stack(self):
                e_stack(self).remove(self)
            return False
        self.undisturbed()
        self.back(loc)

    def undisturbed(self):
        """A dict or set may not change its keys while it is iterated over: the
        next step of the iteration raises."""
        x = self.iterated
        if not isinstance(x, (SDict, SSet)) or self.spec.kind not in ("dict", "set"):
            return
        dom = x.arrays()[0] if isinstance(x, SDict) else core.sdom(lift(x))
        if dom.eq(self.spec.dom):
            return
        if not self.e.fork(dom == self.spec.dom):
            if self in e_stack(self):
                e_stack(self).remove(self)
            raise RuntimeError("%s changed during iteration" % ("dictionary" if isinstance(x, SDict) else "set"))

    def exit_facts(self):
        """What was shown for arbitrary witnesses holds for all values."""
        for loc, alive in getattr(self, "cands", {}).items():
            for name, F, fp in alive:
                if fp is not None and name == "copy":
                    # appending every element appends the sequence (induction over the fold)
                    self.e.add(F(self.spec.n) == core.vlist_concat(self.entry[loc], self.copied()))
                    if loc[0] == "obj" and loc[2] is None:
                        empty = self.entry[loc].eq(core.vlist_empty())
                        self._assign(loc, self.copied() if empty else core.vlist_concat(
                            self.entry[loc], self.copied()), self.info.mods[loc], None)
        for key, formula, w, inst in self.rels:
            if w:
                self.e.facts.append((w, core.asbool(formula(self.i, *w))))
        for f in self.e.ghost.get("loop_exits", ()):
            f(self)

    def item(self):
        if not self.sym:
            return self.cur
        if not hasattr(self, "_item"):
            self._item = self.spec.item(self.i)
        return self._item

    # ---- while loops -------------------------------------------------------
    def whead(self, loc):
        if not self.sym:
            self.native_n += 1
            if self.native_n > 60:
                if self.info.mode is None:
                    self.info.mode = "sym"
                    self.e.restart(self.prefix)
                raise Unsupported("loop does not end on this path")
            self.fork0 = getattr(self.e, "fork_seen", 0)
            if self.forever and self.native_n == 1:
                self.first0 = self.fork0
            elif self.forever and self.fork0 != self.first0 and self.cuttable():
                # left by a break that depends on symbolic values
                self.info.mode = "sym"
                self.e.restart(self.prefix)
            return
        if not self.started:
            self.head(loc)
        else:
            self.back(loc)

    def wcond(self, c):
        """c: outcome of the loop condition (already a bool)."""
        if not self.sym:
            if getattr(self.e, "fork_seen", 0) != self.fork0 and not self.e.ghost.get("stepped"):
                self.info.mode = "sym"
                self.e.restart(self.prefix)
            return c
        if c:
            self.step_axioms()
        else:
            self.exit_facts()
            if self in self.e.loopstack:
                self.e.loopstack.remove(self)
        return c

    # ---- symbolic part -----------------------------------------------------
    def relearn(self):
        """The set of modified locations grew: what inner loops have learned was
        learned with too little forgotten at this head."""
        e, n = self.e, len(self.prefix)
        for k in [k for k in e.loopinfo if len(k[1]) > n and list(k[1][:n]) == self.prefix]:
            del e.loopinfo[k]
        e.restart(self.prefix)

    def getloc(self, loc, loclocals):
        if loc[0] == "local":
            return loclocals.get(loc[1], UNBOUND)
        o = self.e.live.get(loc[1])
        if loc[2] is None:
            return o
        return o.__dict__.get(loc[2], UNBOUND)

    def term(self, loc):
        """Current V term of a location."""
        x = self.getloc(loc, self.cur_locals)
        if x is UNBOUND or isinstance(x, Dead):
            return None
        return lift(x)

    def candidates(self, loc, ty, entry_v):
        """Functional candidates (name, F(i)) for a location."""
        e = self.e
        out = []
        for f in e.ghost.get("folds", ()):
            if f.kinds and ty.k not in f.kinds:
                continue
            p = f.match(self)
            if p is None:
                continue
            out.append((f.name, (lambda i, f=f, p=p: f.at(p, entry_v, i)), (f, p)))
        if ty.k == "list" and self.copied() is not None:
            c, base = copies(self.copied()), self.copied()
            out.append((c.name, (lambda i, c=c: c.at((base,), entry_v, i)), (c, (base,))))
        if ty.k == "set" and hasattr(self.spec, "vis"):
            D0, vis = core.sdom(entry_v), self.spec.vis
            out.append(("+keys", lambda i: core.mk_set(z3.SetUnion(D0, vis(i))), None))
            out.append(("-keys", lambda i: core.mk_set(z3.SetDifference(D0, vis(i))), None))
        if ty.k == "int":
            out.append(("+i", lambda i: mk_int(core.int_of(entry_v) + i), None))
            out.append(("-i", lambda i: mk_int(core.int_of(entry_v) - i), None))
        return out

    def copied(self):
        """The list of what is iterated over (the keys, for a dict or set)."""
        if self.spec is None:
            return None
        if self.spec.kind == "seq":
            return self.spec.base
        return core.mk_list(self.spec.K) if hasattr(self.spec, "K") else None

    def head(self, loclocals):
        e = self.e
        self.started = True
        info = self.info
        e.loopstack.append(self)
        self.entry_locals = {n: loclocals.get(n, UNBOUND) for n in self.names}
        self.i = e.fresh(z3.IntSort(), "i")
        e.add(self.i >= 0)
        if self.spec is not None:
            e.add(self.i <= self.spec.n)
        self.entry = {}
        self.cands = {}
        vals = {}
        for loc, ty in info.mods.items():
            v = self.getloc(loc, loclocals)
            if v is UNBOUND or isinstance(v, Dead) or ty is None or ty.k == "const":
                vals[loc] = UNBOUND
                continue
            ev = lift(v)
            if loc[0] == "obj" and loc[2] is not None:
                ty = info.mods[loc] = tjoin(ty, safe_typeof(v))
            self.entry[loc] = ev
            alive = []
            for name, F, fp in self.candidates(loc, ty, ev):
                if (loc, name) in info.killed:
                    continue
                alive.append((name, F, fp))
                if fp is not None:
                    fp[0].start(fp[1], ev)
            self.cands[loc] = alive
            vals[loc] = v
        # relational candidates: check at entry
        self.cur_locals = loclocals
        self.rels = []
        dead = False
        for r in [distinct] + list(e.ghost.get("rels", ())):
            for cand in r(self):
                key, formula = cand[0], cand[1]
                nw = cand[2] if len(cand) > 2 else 0
                inst = cand[3] if len(cand) > 3 else None
                if key in info.killed:
                    continue
                # arbitrary, but the same for nested loops (see DESIGN.md)
                w = [z3.Const("w%d" % j, V) for j in range(nw)]
                f0 = formula(z3.IntVal(0), *w)
                if f0 is None:
                    continue
                if not e.valid(core.asbool(f0)):
                    if DEBUG:
                        print("KILL at entry", self.lid, key, str(f0)[:600], str(e.last_model)[:600])
                    info.killed.add(key)
                    dead = True
                    continue
                self.rels.append((key, formula, w, inst))
        if dead:
            e.restart(self.prefix)
        # havoc; what is made here is new in every iteration
        self.marker = e.born_n
        self.new_locals = {}
        for loc, ty in info.mods.items():
            v = vals.get(loc, UNBOUND)
            if v is UNBOUND:
                new = Dead("%s at loop %s" % (loc, self.lid))
                self._assign(loc, None, ty, new)
                continue
            alive = self.cands[loc]
            if alive:
                t = alive[0][1](self.i)
                for name, F, fp in alive[1:]:
                    e.add(t == F(self.i))
            else:
                t = e.fresh(V, "h")
            self._assign(loc, t, ty, None)
        self.cur_locals = dict(loclocals)
        self.cur_locals.update(self.new_locals)
        x = getattr(self, "iterated", None)
        if isinstance(x, SDict) and self.spec.kind == "dict" and x.dom is not None:
            e.add(x.arrays()[0] == self.spec.dom)
        elif isinstance(x, SSet) and self.spec.kind == "set":
            e.add(core.sdom(lift(x)) == self.spec.dom)
        for key, formula, w, inst in self.rels:
            e.add(core.asbool(formula(self.i, *w)))
            for ws in (inst(self) if inst else ()):
                e.add(core.asbool(formula(self.i, *ws)))
        self.logpos = len(e.mutlog)
        self.sym_locals = None

    def _assign(self, loc, term, ty, dead):
        if loc[0] == "local":
            self.new_locals[loc[1]] = dead if dead is not None else wrap(term, ty)
            return
        o = self.e.live.get(loc[1])
        if loc[2] is None:
            if dead is not None:
                raise Unsupported("cannot summarise %r in a loop" % (o,))
            # keep the declared flags (factory etc.) of the container
            o.havoc(term, ty)
            if isinstance(o, values.Mut):
                o.mark()
            else:
                self.e.mutated(o)
            return
        self.e.mutated(o, loc[2])
        o.__dict__[loc[2]] = dead if dead is not None else wrap(term, ty)

    def havoc(self):
        """Values of the assigned names at the loop head."""
        out = []
        for n in self.names:
            if n in self.new_locals:
                x = self.new_locals[n]
            else:
                x = self.entry_locals[n]
                if x is UNBOUND:
                    x = Dead("name %s may be unbound" % n)
            self.entry_locals_head = getattr(self, "entry_locals_head", {})
            self.entry_locals_head[n] = x
            out.append(x)
        return tuple(out)

    def step_axioms(self):
        for loc, alive in self.cands.items():
            for name, F, fp in alive:
                if fp is not None:
                    fp[0].step_at(fp[1], self.entry[loc], self.i)
        for f in self.e.ghost.get("step_hooks", ()):
            f(self)

    def back(self, loclocals):
        e, info = self.e, self.info
        changed = set()
        for n in self.names:
            x = loclocals.get(n, UNBOUND)
            if x is not self.entry_locals_head.get(n, UNBOUND):
                changed.add(("local", n))
        for (o, f, c) in e.mutlog[self.logpos:]:
            b = e.born.get(id(o))
            if b is None or b > self.marker:
                continue
            if c is not None:
                cb = e.born.get(id(c), 0)
                if cb <= self.marker and cb:
                    continue
            changed.add(("obj", b, f))
        dirty = False
        for loc in changed:
            if loc not in info.mods:
                entry = self.entry_locals.get(loc[1], UNBOUND) if loc[0] == "local" else None
                cur = self.getloc(loc, loclocals)
                if loc[0] == "local":
                    if entry is UNBOUND or isinstance(entry, Dead):
                        info.mods[loc] = None
                        # names first bound in the loop are unknown at its head: no restart needed
                        continue
                    t = tjoin(safe_typeof(entry), safe_typeof(cur))
                else:
                    t = safe_typeof(cur)
                info.mods[loc] = t
                dirty = True
        if dirty:
            self.relearn()
        for loc, ty in list(info.mods.items()):
            if ty is None or ty.k == "const":
                continue
            if loc not in self.entry:
                continue
            cur = self.getloc(loc, loclocals)
            if cur is UNBOUND or isinstance(cur, Dead):
                info.mods[loc] = None
                dirty = True
                continue
            if loc not in changed and loc[0] != "local":
                # unchanged on this path: still has to satisfy its candidates
                pass
            nt = tjoin(ty, safe_typeof(cur))
            if repr(nt) != repr(ty):
                info.mods[loc] = nt
                dirty = True
                continue
            info.mods[loc] = nt
            cv = lift(cur)
            for name, F, fp in self.cands[loc]:
                if not e.valid(cv == F(self.i + 1)):
                    info.killed.add((loc, name))
                    dirty = True
        if dirty:
            e.restart(self.prefix)
        self.cur_locals = loclocals
        for key, formula, w, inst in self.rels:
            if not e.valid(core.asbool(formula(self.i + 1, *w))):
                if DEBUG:
                    print("KILL", self.lid, key, str(formula(self.i + 1, *w))[:600], str(e.last_model)[:600])
                info.killed.add(key)
                dirty = True
        if dirty:
            e.restart(self.prefix)
        for f in e.ghost.get("iteration_end", ()):
            f(self)
        raise PathEnd()


def distinct(loop):
    """A list that holds only values already visited by a loop over distinct values holds none of them twice."""
    if not hasattr(loop.spec, "vis"):
        return []
    out = []
    for loc, ty in loop.info.mods.items():
        if ty is None or ty.k != "list" or loc not in loop.entry:
            continue

        def f(i, w, loc=loc):
            t = loop.term(loc)
            if t is None:
                return None
            s, e = core.seq_of(t), core.E
            s = z3.simplify(s)
            while z3.is_app(s) and s.decl().name() == "seq_of" and s.arg(0).decl().name() == "mk_list":
                s = s.arg(0).arg(0)
            d = rt_seqdom(s)
            e.axiom_once(distinct_f(core.EMPTY_SEQ), distinct_f(core.EMPTY_SEQ))
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                cs = s.children()
                a = cs[0] if len(cs) == 2 else z3.Concat(*cs[:-1])
                if cs[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    x = cs[-1].arg(0)
                    e.add(distinct_f(s) == z3.And(distinct_f(a), z3.Not(z3.Select(rt_seqdom(a), x))))
            e.ghost["distinct_used"] = True
            return z3.And(distinct_f(s), z3.Implies(z3.Select(d, w), z3.Select(loop.spec.vis(i), w)))
        out.append((("distinct", loc), f, 1, lambda L: [(core.nth(L.spec.K, L.i),)]))
    return out


def e_stack(loop):
    return loop.e.loopstack


def safe_typeof(x):
    if x is UNBOUND or isinstance(x, Dead):
        return None
    return typeof(x)


class Fold:
    """A left fold over an iterated collection, on V terms.

    at(params, init, i) is the state after i elements;
    step(params, state, elem, i) gives the next state.
    """

    def __init__(self, name, match, step=None, kinds=None, seq=None, nparams=None):
        self.name, self._match, self.kinds = name, match, kinds
        self.pstep = step            # step(*params, state, element) -> state
        self._seq = seq
        self.fs = {}

    def match(self, loop):
        return self._match(loop)

    def fn(self, params):
        sig = tuple(p.sort().name() if p.sort().kind() != z3.Z3_ARRAY_SORT else str(p.sort()) for p in params)
        if sig not in self.fs:
            self.fs[sig] = z3.Function("F_" + self.name, *([p.sort() for p in params] + [V, z3.IntSort(), V]))
        return self.fs[sig]

    def at(self, params, init, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return self.fn(params)(*(list(params) + [init, z3.simplify(i)]))

    def start(self, params, init):
        t = self.at(params, init, 0)
        core.E.axiom_once(t, t == init)
        return t

    def elem(self, params, i):
        return core.nth(self._seq(*params), i)

    def step_at(self, params, init, i):
        """Unfold once at index i (0 <= i < length known)."""
        s = self.at(params, init, i)
        core.E.add(self.at(params, init, i + 1) == self.pstep(*(list(params) + [s, self.elem(params, i)])))

    def total(self, params, init):
        """State after the whole collection."""
        self.start(params, init)
        n = z3.Length(self._seq(*params))
        core.E.add(z3.Implies(n == 0, self.at(params, init, n) == init))
        if self.appends and not init.eq(core.vlist_empty()):
            core.E.axiom_once(self.at(params, init, n), self.at(params, init, n) == core.vlist_concat(
                init, self.total(params, core.vlist_empty())))
        return self.at(params, init, n)

    appends = False

    def only_appends(self, *params):
        """Goals of the lemma, by induction over the collection, that what is appended does not
        depend on what is there already; total() uses it from then on."""
        A, S, x = (core.E.fresh(V, "lemma_" + n) for n in "asx")
        self.appends = True
        return z3.And(core.vlist_concat(A, core.vlist_empty()) == core.mk_list(core.seq_of(A)),
                      self.pstep(*params, core.vlist_concat(A, S), x) ==
                      core.vlist_concat(A, self.pstep(*params, S, x)))

    def joined(self, a, b, init):
        """Folding a + b is folding b from what folding a gives (folds over a list, by induction over b)."""
        core.E.add(self.total((core.vlist_concat(a, b),), init) == self.total((b,), self.total((a,), init)))


_copy = []


def copies(base):
    """The fold that appends each element."""
    if not _copy:
        f = Fold("copy", lambda loop: None, None, kinds=("list",), seq=lambda b: core.seq_of(b))
        f.pstep = lambda b, A, x: core.vlist_append(A, x)
        _copy.append(f)
    return _copy[0]


def over_seq(term):
    """Match a loop over exactly this sequence term (provably)."""
    def m(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq":
            return None
        s = core.seq_of(sp.base)
        if s.eq(term) or core.E.valid(s == term):
            return ()
        return None
    return m


def over_field(recname, field):
    """Match a loop over rec.field (a list) of some record; param: the record."""
    def m(loop):
        sp = loop.spec
        if sp is None or sp.kind != "seq":
            return None
        owner = sp.base                    # mk_list(seq_of(x)) or x
        x = owner
        if x.decl().name() == "mk_list":
            x = x.arg(0)
            if x.decl().name() == "seq_of":
                x = x.arg(0)
            else:
                return None
        if x.decl().name() == "%s.%s" % (recname, field):
            return (x.arg(0),)
        return None
    return m


def field_seq(recname, field):
    return lambda v: core.seq_of(core.rec(recname).proj[field](v))
