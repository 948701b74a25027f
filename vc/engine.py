"""Contracts, obligations and their discharge.

A proof goal is: for every input, position, capture state and rest-of-pattern, running the compiled code of
a node gives the outcome of its specification (spec.py).  Sub-patterns and the rest of the pattern are
uninterpreted functions constrained only by their contracts; closures passed to sub-patterns are proved
equal to the closures of the specification (extensionality), with well-founded induction over the remaining
input where they recur; loops are proved with inductive invariants found by the Houdini method."""
import itertools
import time
import z3
from symex import (Executor, State, Ptr, FnPtr, Undef, UNDEF, Agg, Undecided, fresh, simp, Z, zbool, as_int, is_z3, I, B8, LIM)

NS = 6  # capture slots
Res = z3.DeclareSort('Res')
Kont = z3.DeclareSort('Kont')
W = z3.Function('W', I, B8)
okf = z3.Function('ok', Res, z3.BoolSort())
endf = z3.Function('end', Res, I)
sf = [z3.Function('s%d' % j, Res, I) for j in range(NS)]
LO, HI, P0 = z3.Ints('LO HI P0')
SUCC = z3.Const('SUCC', Kont)
EQEND = z3.Const('EQEND', Kont)
KK = {False: z3.Const('KK', Kont), True: z3.Const('KKr', Kont)}
_cf = {}


def Kf(rev):
    return _cf.setdefault(('K', rev), z3.Function('K_r' if rev else 'K', *([I] * (1 + NS)), Res))


def Mf(i, rev):
    return _cf.setdefault(('M', i, rev), z3.Function('M%d%s' % (i, 'r' if rev else ''), *([I] * (1 + NS)), Kont, Res))


def Cf(i):
    return _cf.setdefault(('C', i), z3.Function('C%d' % i, B8, z3.BoolSort()))


def Ff(name):
    return _cf.setdefault(('F', name), z3.Function('F_' + name, *([I] * (1 + NS)), Res))


def Kontf(name, n):
    return _cf.setdefault(('kont', name, n), z3.Function('k_' + name, *([I] * n), Kont) if n else z3.Const('k_' + name, Kont))


class All:
    """for all j with lo <= j < hi: pred(j)"""
    __slots__ = ('lo', 'hi', 'bases', 'guard', 'j', 'body', 'quant')

    def __init__(self, lo, hi, pred, bases=(), guard=None):
        self.lo, self.hi, self.bases, self.guard = lo, hi, tuple(bases), guard
        self.j = fresh('j', I)
        b = z3.Implies(z3.And(lo <= self.j, self.j < hi), pred(self.j))
        self.body = b if guard is None else z3.Implies(guard, b)
        pats = triggers(self.body, self.j)
        self.quant = z3.ForAll([self.j], self.body, patterns=pats) if pats else None

    def at(self, t):
        return z3.substitute(self.body, (self.j, t))


def triggers(f, j):
    """uninterpreted applications with j as their first argument"""
    seen, out = set(), {}
    todo = [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).eq(j):
            out[t.get_id()] = t
        todo.extend(t.children())
    return list(out.values())


class Val:
    __slots__ = ('ok', 'end', 's')

    def __init__(self, ok, end, s):
        self.ok, self.end, self.s = ok, end, tuple(s)


class SpecClosure:
    def __init__(self, name, params, fn):
        self.name, self.params, self.fn = name, tuple(params), fn

    def kont(self):
        f = Kontf(self.name, len(self.params))
        return f(*self.params) if self.params else f

    def at(self, params):
        return SpecClosure(self.name, params, self.fn)

    def apply(self, sp, q, s):
        return self.fn(sp, self.params, q, s)


class WellKnown:
    def __init__(self, k):
        self.k = k

    def kont(self):
        return self.k


class Failure(Exception):
    """An obligation that is not valid."""

    def __init__(self, kind, where, detail=''):
        self.kind, self.where, self.detail = kind, where, detail
        super().__init__(kind)


class Stats:
    def __init__(self):
        self.n = 0
        self.by_kind = {}
        self.solver_s = 0.0
        self.queries = 0
        self.lemmas = 0
        self.functions = set()
        self.invariants = []

    def ok(self, kind):
        self.n += 1
        self.by_kind[kind] = self.by_kind.get(kind, 0) + 1

    def merge(self, o):
        self.n += o.n
        for k, v in o.by_kind.items():
            self.by_kind[k] = self.by_kind.get(k, 0) + v
        self.solver_s += o.solver_s
        self.queries += o.queries
        self.lemmas += o.lemmas
        self.functions |= o.functions
        self.invariants += o.invariants


def atoms(fs):
    """position terms occurring in formulas"""
    seen, out = set(), {}
    todo = [f for f in fs if is_z3(f)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            d = t.decl().name()
            if t.num_args() and (d == 'W' or d[0] in 'KMF' or d.startswith('run') or d.startswith('pick')):
                a = t.arg(0)
                if a.sort() == I:
                    out[a.get_id()] = a
            if z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and d not in ('s0', 's1', 's2', 's3', 's4', 's5') and not d.startswith('a!'):
                out[t.get_id()] = t
            todo.extend(t.children())
    return list(out.values())


def implied(need, have):
    """every order fact in need follows from one in have"""
    return all(f in have or (f[1] == '<=' and (f[0], '<', f[2]) in have) for f in need)


class Engine:
    """Everything for the proofs about one harness entry."""

    def __init__(self, mod, rev=False, empties=None, base_rev=False, deadline=None):
        self.mod = mod
        self.rev = rev
        self.empties = empties or {}
        self.ax = [LO > 4096, LO <= HI, HI < 2 ** 46]
        self.ax_ids = set()
        self.univ = []
        self.solver = z3.SimpleSolver()
        self.solver.set('mbqi', False)
        self.solver.set('timeout', 20000)
        self.nax = 0
        self.stats = Stats()
        self.lemma_state = {}
        self.rec_state = {}
        self.serial = 0
        self.want_model = False
        self.texts = False       # the specification compares two pieces of text
        self.wits = []           # positions worth instantiating side-by-side comparisons at
        self.lemma_stack = []
        self.funs = {}           # name -> fn(spec,p,s)->Val  (recursive spec functions)
        self.fun_done = set()
        self.fun_events = []     # sub-pattern calls made by unfoldings
        self.flat = set()        # spec functions whose definition does not recur
        self.preds = []          # predicate pool for loop invariants: fn(j)->BoolRef
        self.charids = set()
        self.konts = []
        self.checked = set()
        self.probing = False
        self.deadline = deadline
        self.strict = False
        self.cur_spec = None
        self.frame = set()
        self.icases = False
        self.ctxobj, self.ctxoff = 'ctx', 0
        self.kpos = True         # check where the continuation may be called

    # ---------------------------------------------------------------- basic vocabulary
    def begin(self, rev=None):
        return HI if (self.rev if rev is None else rev) else LO

    def endp(self, rev=None):
        return LO if (self.rev if rev is None else rev) else HI

    def le(self, a, b, rev=None):
        """a is not after b in matching direction"""
        return (Z(b) <= Z(a)) if (self.rev if rev is None else rev) else (Z(a) <= Z(b))

    def lt(self, a, b, rev=None):
        return (Z(b) < Z(a)) if (self.rev if rev is None else rev) else (Z(a) < Z(b))

    def inrange(self, a):
        return z3.And(LO <= Z(a), Z(a) <= HI)

    def wf(self, s):
        return z3.And(*[z3.Or(z3.And(Z(s[2 * j]) == 0, Z(s[2 * j + 1]) == 0), z3.And(LO <= Z(s[2 * j]), Z(s[2 * j]) <= Z(s[2 * j + 1]), Z(s[2 * j + 1]) <= HI)) for j in range(NS // 2)])

    def axiom(self, f):
        if f.get_id() not in self.ax_ids:
            self.ax_ids.add(f.get_id())
            self.ax.append(f)

    def res_val(self, r, s):
        return Val(okf(r), endf(r), [z3.If(okf(r), sf[j](r), Z(s[j])) for j in range(NS)])

    def K(self, q, s, rev=None):
        rev = self.rev if rev is None else rev
        s = [Z(x) for x in s]
        q = Z(q)
        r = Kf(rev)(q, *s)
        self.axiom(z3.Implies(z3.And(okf(r), self.inrange(q), self.wf(s)), z3.And(self.le(q, endf(r), rev), self.inrange(endf(r)), self.wf([f(r) for f in sf]))))
        return r

    def M(self, i, rev, p, s, k):
        s = [Z(x) for x in s]
        p = Z(p)
        r = Mf(i, rev)(p, *s, k)
        rel = self.le if self.empties.get(i, True) else self.lt
        self.axiom(z3.Implies(z3.And(okf(r), self.inrange(p), self.wf(s)), z3.And(rel(p, endf(r), rev), self.inrange(endf(r)), self.wf([f(r) for f in sf]))))
        if k.eq(EQEND):
            self.axiom(z3.Implies(okf(r), endf(r) == self.endp(rev)))
        return r

    def ch(self, p, rev=None):
        """character at p in matching direction"""
        rev = self.rev if rev is None else rev
        return W(Z(p) - 1) if rev else W(Z(p))

    def adv(self, p, n, rev=None):
        rev = self.rev if rev is None else rev
        return Z(p) - n if rev else Z(p) + n

    # ---------------------------------------------------------------- executor callbacks
    def is_input(self, p):
        return not isinstance(p, (Ptr, FnPtr, Undef))

    def may_write(self, obj):
        return obj not in self.frame

    def readable(self, a):
        return z3.And(LO <= a, a < HI)

    def steppable(self, a):
        return z3.And(LO <= a, a <= HI)

    def char(self, a):
        return W(a)

    def touch_char(self, a):
        pass

    def mark(self):
        return len(self.checked)

    def rollback(self, m):
        pass

    def zero_fill(self, st, p, n):
        if n % 8 or p.off % 8:
            raise Undecided('memset')
        for o in range(0, n, 8):
            st.set_cell(p.obj, p.off + o, 8, 0)

    # ---------------------------------------------------------------- solver
    def sync(self):
        while self.nax < len(self.ax):
            self.solver.add(self.ax[self.nax])
            self.nax += 1

    def check(self, fs):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('out of time')
        self.sync()
        t = time.time()
        self.solver.push()
        for f in fs:
            self.solver.add(f)
        r = self.solver.check()
        self.model = self.solver.model() if r == z3.sat and self.want_model else None
        self.reason = self.solver.reason_unknown() if r == z3.unknown else ''
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def feasible(self, pc, c):
        return self.check([f for f in pc if not isinstance(f, All)] + [c]) != z3.unsat

    def instances(self, alls, ground):
        """explicit instances for facts that have no usable trigger (side-by-side comparison of two texts)"""
        base = list({t.get_id(): t for t in atoms(ground) + self.wits}.values())
        out = []
        for a in alls:
            cand = {}
            for b in a.bases:
                for t in base:
                    for u in (t - b, b - t, b - t - 1, t - b - 1):
                        u = simp(u)
                        cand[u.get_id()] = u
            for t in base:
                cand[t.get_id()] = t
            out += [a.at(u) for u in cand.values()]
        return out

    def valid(self, pc, goal):
        """pc => goal ?  True / False (with model) / None (unknown)"""
        if isinstance(goal, All):
            goal = goal.body
        goal = simp(goal)
        if z3.is_true(goal):
            return True
        ng = simp(z3.Not(goal))
        g = [f for f in pc if not isinstance(f, All)]
        r = self.check(g + [ng])
        if r == z3.unsat:
            return True
        alls = [f for f in pc if isinstance(f, All)] + self.univ
        if alls:
            q = [a.quant for a in alls if a.quant is not None]
            man = [a for a in alls if a.quant is None]
            if man:
                q += self.instances(man, g + [ng] + [x for a in alls for x in (a.lo, a.hi)])
            m = self.model
            r = self.check(g + [ng] + q)
            if r == z3.unsat:
                return True
            self.model = self.model or m
            if r == z3.unknown and ('timeout' in self.reason or 'cancel' in self.reason):
                return None
            return False
        return None if r == z3.unknown else False

    def prove(self, kind, where, pc, goal):
        v = self.valid(pc, goal)
        if v is True:
            self.stats.ok(kind)
            return
        if v is None:
            raise Undecided('solver gave up on ' + kind)
        self.want_model = True
        self.valid(pc, goal)
        self.want_model = False
        raise Failure(kind, where, self.model_text())

    def valid_many(self, pc, goals):
        """which of the goals follow from pc"""
        if self.deadline and time.time() > self.deadline:
            raise Undecided('out of time')
        goals = [g.body if isinstance(g, All) else g for g in goals]
        out = [False] * len(goals)
        g = [f for f in pc if not isinstance(f, All)]
        alls = [f for f in pc if isinstance(f, All)] + self.univ
        self.sync()
        t = time.time()
        self.solver.push()
        for f in g:
            self.solver.add(f)

        def sweep():
            todo = [k for k in range(len(goals)) if not out[k]]
            for k in todo:
                self.solver.push()
                self.solver.add(z3.Not(goals[k]))
                r = self.solver.check()
                self.stats.queries += 1
                self.solver.pop()
                if r == z3.unsat:
                    out[k] = True
        sweep()
        if alls and not all(out):
            q = [a.quant for a in alls if a.quant is not None]
            man = [a for a in alls if a.quant is None]
            if man:
                q += self.instances(man, g + [goals[k] for k in range(len(goals)) if not out[k]] + [x for a in alls for x in (a.lo, a.hi)])
            for f in q:
                self.solver.add(f)
            sweep()
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        return out

    def model_text(self):
        if self.model is None:
            return ''
        t = str(self.model)
        return t if len(t) < 3000 else t[:3000] + '...'

    def flush(self, st):
        """discharge the side obligations collected along a path"""
        for o in st.obls:
            kind, where, pc, f = o
            key = (kind, f.get_id() if is_z3(f) else id(f), tuple(x.get_id() if is_z3(x) else id(x) for x in pc))
            if key in self.checked:
                continue
            self.prove(kind, where, pc, f)
            self.checked.add(key)
            self.keep = getattr(self, 'keep', [])
            self.keep.append((f, pc))

    def finished(self, st):
        self.flush(st)

    # ---------------------------------------------------------------- contracts of the opaque functions
    def slots(self, st):
        cells = st.mem[self.ctxobj]
        out = []
        for j in range(NS):
            c = cells.get(self.mod.layout[j] + self.ctxoff)
            if c is None or c[0] != 8 or isinstance(c[1], (Undef, Ptr, FnPtr)):
                raise Undecided('capture storage')
            out.append(c[1])
        return out

    def set_slots(self, st, vals):
        m = dict(st.mem)
        cells = dict(m.get(self.ctxobj, {}))
        for j in range(NS):
            cells[self.mod.layout[j] + self.ctxoff] = (8, vals[j])
        m[self.ctxobj] = cells
        st.mem = m
        st.written = st.written | {(self.ctxobj, self.mod.layout[j] + self.ctxoff) for j in range(NS)}

    def contract(self, ex, name, args, st, where):
        st = st.clone()
        n = name.strip('@')
        if n == 'vx_cont':
            rev, cur, out = args
            rev = z3.is_true(simp(zbool(rev)))
            s = self.slots(st)
            st.oblige('rest-called-in-range', where, self.inrange(cur) if not self.kpos else z3.And(self.inrange(cur), self.kbound(cur, rev)))
            st.oblige('captures-well-formed', where, self.wf(s))
            r = self.K(cur, s, rev)
            st.event(('K', rev, cur, tuple(s), r))
            return self.after(st, r, s, out)
        if n == 'vx_char':
            i, c = args
            i = simp(i).as_long()
            self.charids.add(i)
            return [(st, Cf(i)(c))]
        if n == 'vx_match':
            if self.probing:
                raise Undecided('not a standard continuation')
            i, rev, b, e, cur, ctx, clo, inv, out = args
            i = simp(i).as_long()
            rev = z3.is_true(simp(zbool(rev)))
            s = self.slots(st)
            if ctx != Ptr(self.ctxobj, self.ctxoff):
                st.oblige('context-passed', where, z3.BoolVal(False))
            st.oblige('range-passed', where, z3.And(Z(b) == self.begin(rev), Z(e) == self.endp(rev)))
            st.oblige('match-in-range', where, self.inrange(cur))
            st.oblige('captures-well-formed', where, self.wf(s))
            if not isinstance(inv, FnPtr):
                raise Undecided('closure function')
            k = self.closure_kont(ex, i, rev, cur, clo, inv, st)
            if self.kpos and k.eq(KK[rev]) and rev == self.rev:
                st.oblige('rest-called-in-range', where, self.kbound(cur, rev) if self.empties.get(i, True) else self.le(P0, cur))
            r = self.M(i, rev, cur, s, k)
            st.event(('M', i, rev, cur, tuple(s), k, (clo, inv, st.mem, st.pc)))
            return self.after(st, r, s, out)
        if name in self.mod.funcs and self.is_recursive(name):
            if self.probing:
                raise Undecided('not a standard continuation')
            return self.call_recursive(ex, name, args, st, where)
        return None

    def kbound(self, cur, rev):
        if rev != self.rev:
            return z3.BoolVal(True)
        return self.lt(P0, cur) if self.strict else self.le(P0, cur)

    def after(self, st, r, s, out):
        """both outcomes of a call summarised by r: success with its captures, or failure leaving them alone"""
        if not isinstance(out, Ptr):
            raise Undecided('out parameter')
        res = []
        if self.feasible(st.pc, okf(r)):
            y = st.add_pc(okf(r))
            self.set_slots(y, [f(r) for f in sf])
            y.set_cell(out.obj, out.off, 8, endf(r))
            res.append((y, z3.BoolVal(True)))
        if self.feasible(st.pc, z3.Not(okf(r))):
            n = st.add_pc(z3.Not(okf(r)))
            n.set_cell(out.obj, out.off, 8, fresh('junk', I))
            res.append((n, z3.BoolVal(False)))
        return res

    # ---- recognising the standard continuations
    def closure_kont(self, ex, i, rev, cur, clo, inv, st):
        self.probing = True
        try:
            outs = self.closure_paths(clo, inv, st.mem, [], None)
        except (Undecided, Failure):
            outs = None
        finally:
            self.probing = False
        if outs is not None:
            q, s, paths = outs
            good = all(not isinstance(x[2], (Undef, Ptr)) for x in paths if not z3.is_false(simp(x[1])))
            noev = all(not x[0].events for x in paths)
            same = all(simp(Z(a) == Z(b)).eq(z3.BoolVal(True)) for x in paths for a, b in zip(x[3], s))
            if good and noev and same and paths:
                if all(self.valid(list(x[0].pc), z3.And(x[1], Z(x[2]) == q)) is True for x in paths):
                    return SUCC
                if all(self.valid(list(x[0].pc), z3.And(x[1] == (q == self.endp(rev)), z3.Implies(x[1], Z(x[2] if not isinstance(x[2], Undef) else q) == q))) is True for x in paths):
                    return EQEND
            if good and paths and all(len(x[0].events) == 1 and x[0].events[0][0] == 'K' and x[0].events[0][1] == rev for x in paths):
                match = True
                for x in paths:
                    ev = x[0].events[0]
                    r = ev[4]
                    if not (z3.is_true(simp(Z(ev[2]) == q)) and all(z3.is_true(simp(Z(a) == Z(b))) for a, b in zip(ev[3], s))):
                        match = False
                        break
                    fin = z3.And(Z(x[2]) == endf(r), *[Z(a) == f(r) for a, f in zip(x[3], sf)]) if not isinstance(x[2], Undef) else z3.BoolVal(False)
                    if self.valid(list(x[0].pc), z3.And(x[1] == okf(r), z3.Implies(okf(r), fin), z3.Implies(z3.Not(okf(r)), z3.And(*[Z(a) == Z(b) for a, b in zip(x[3], s)])))) is not True:
                        match = False
                        break
                if match:
                    return KK[rev]
        return fresh('k', Kont)

    def closure_paths(self, clo, inv, mem, pc, check):
        """run a closure on an arbitrary position and capture state"""
        q = fresh('q', I)
        s = [fresh('sg', I) for _ in range(NS)]
        mem = dict(mem)
        st = State(mem, tuple(pc), (), (), frozenset())
        self.set_slots(st, s)
        m = dict(st.mem)
        m['cout'] = {}
        st.mem = m
        st.written = frozenset()
        ex = Executor(self.mod, self)
        ex.depth = 1
        objs = set(mem)
        res = ex.run(inv.name, [clo, q, Ptr('cout', 0)], st)
        paths = []
        for s2, ok in res:
            bad = [w for w in s2.written if w[0] in objs and w[0] not in (self.ctxobj, 'cout')]
            if bad:
                raise Undecided('closure writes to the enclosing frame')
            end = s2.mem['cout'].get(0, (8, UNDEF))[1]
            paths.append((s2, zbool(ok), end, self.slots(s2)))
        return q, s, paths

    # ---------------------------------------------------------------- comparing code paths with a specification
    def compare(self, what, st, ok, end, so, s_in, spec, pos, rev=None):
        """st: final state of a code path; spec: SpecEval already holding the expected outcome"""
        rev = self.rev if rev is None else rev
        self.flush(st)
        v = spec.val
        pc = list(st.pc)
        eqs = self.link(st, spec.events, True)
        goals = []
        if isinstance(ok, Undef):
            raise Failure('result-defined', what)
        goals.append(('verdict', zbool(ok) == v.ok))
        for nme, g in goals:
            self.prove(nme, what, pc + eqs, g)
        okc = zbool(ok)
        if not z3.is_false(simp(okc)) and self.check([f for f in pc + eqs if not isinstance(f, All)] + [okc]) != z3.unsat:
            if isinstance(end, Undef):
                raise Failure('result-defined', what)
            self.prove('reported-end', what, pc + eqs, z3.Implies(okc, Z(end) == v.end))
            self.prove('captures-on-success', what, pc + eqs, z3.Implies(okc, z3.And(*[Z(a) == Z(b) for a, b in zip(so, v.s)])))
            self.prove('end-in-range', what, pc + eqs, z3.Implies(okc, z3.And(self.le(pos, end, rev), self.inrange(end))))
        self.prove('captures-on-failure', what, pc + eqs, z3.Implies(z3.Not(okc), z3.And(*[Z(a) == Z(b) for a, b in zip(so, s_in)])))

    def link(self, st, spec_events, strict):
        """closures the code passes to a sub-pattern are those of the specification; returns the proved equations"""
        pc = list(st.pc)
        eqs = []
        for e in st.events:
            if e[0] != 'M':
                continue
            _, i, erev, p, s, k, clo = e
            if (k.eq(SUCC) or k.eq(EQEND) or k.eq(KK[False]) or k.eq(KK[True])) and any(x[0] == i and x[1] == erev and isinstance(x[4], WellKnown) and x[4].k.eq(k) for x in spec_events):
                continue
            related = False
            why = None
            for (si, srev, sp_, ss, sc) in spec_events:
                if si != i or srev != erev:
                    continue
                # the code may use a closure of its own where the specification uses a standard one
                sc2 = self.known_as_closure(sc, erev) if isinstance(sc, WellKnown) else sc
                same = z3.And(Z(p) == Z(sp_), *[Z(a) == Z(b) for a, b in zip(s, ss)])
                if self.valid(pc + eqs, same) is not True:
                    continue
                try:
                    self.relate(i, erev, p, s, clo, sc2, pc + eqs)
                    eqs.append(k == sc.kont())
                    related = True
                    break
                except Failure as f:
                    why = f
            if strict and not related and why is not None:
                raise why
        return eqs

    def known_as_closure(self, wk, rev):
        import spec as SP
        k = wk.k
        if k.eq(SUCC):
            return SpecClosure('succ', (), lambda sp, pr, q, s: Val(z3.BoolVal(True), q, s))
        if k.eq(EQEND):
            return SpecClosure('eqend', (), lambda sp, pr, q, s: Val(q == self.endp(rev), q, s))
        return SpecClosure('rest%d' % rev, (), lambda sp, pr, q, s: sp.K(q, s, rev))

    # ---------------------------------------------------------------- closure lemmas
    def reach(self, roots, mem):
        """canonical listing of everything reachable: (shape, int leaves, order of objects)"""
        order, index = [], {}
        shape, leaves = [], []

        def leaf(v):
            if isinstance(v, Ptr):
                if v.obj in (self.ctxobj, 'cout') or v.obj.startswith('@'):
                    return ('P', v.obj, v.off)
                if v.obj not in index:
                    index[v.obj] = len(order)
                    order.append(v.obj)
                return ('p', index[v.obj], v.off)
            if isinstance(v, FnPtr):
                return ('f', v.name)
            if isinstance(v, Undef):
                return ('u',)
            if isinstance(v, int):
                return ('n', v)
            if isinstance(v, Agg):
                return ('agg',) + tuple(leaf(x) for x in v.v)
            v = simp(v)
            if z3.is_int(v):
                if z3.is_int_value(v):
                    return ('n', v.as_long())
                if v.eq(LO) or v.eq(HI):
                    return ('g', str(v))
                leaves.append(v)
                return ('x',)
            if z3.is_bool(v) and (z3.is_true(v) or z3.is_false(v)):
                return ('b', str(v))
            if z3.is_bv_value(v):
                return ('v', v.as_long(), v.size())
            leaves.append(v)
            return ('y', str(v.sort()))
        shape.append(tuple(leaf(r) for r in roots))
        n = 0
        while n < len(order):
            o = order[n]
            n += 1
            if o not in mem:
                shape.append(('dead',))
                continue
            cells = mem[o]
            shape.append(tuple((off, cells[off][0], leaf(cells[off][1])) for off in sorted(cells)))
        return tuple(shape), leaves, order

    def substitute(self, roots, mem, order, sub):
        def f(v):
            if isinstance(v, Agg):
                return Agg([f(x) for x in v.v])
            if is_z3(v):
                w = simp(v)
                if w.get_id() in sub:
                    return sub[w.get_id()]
                return w
            return v
        m = {self.ctxobj: mem[self.ctxobj]}
        for o in order:
            if o in mem:
                m[o] = {off: (sz, f(v)) for off, (sz, v) in mem[o].items()}
        return [f(r) for r in roots], m

    def generalise(self, shape_leaves, extra, pc):
        """distinct leaves (and spec params) -> fresh variables with the order facts known about them"""
        classes = []   # (representative, var)
        sub = {}

        def cls(v):
            for rep, var in classes:
                if rep.sort() == v.sort() and (rep.eq(v) or self.valid(pc, rep == v) is True):
                    return var
            for g in (LO, HI, P0):
                if v.sort() == I and self.valid(pc, v == g) is True and g is not P0:
                    return g
            if v.eq(P0):
                classes.append((v, P0))
                return P0
            var = fresh('g', v.sort())
            classes.append((v, var))
            return var
        idx = []
        for v in shape_leaves:
            var = cls(v)
            sub[v.get_id()] = var
            idx.append(str(var) if var in (LO, HI) else None)
        par = []
        for v in extra:
            v = simp(Z(v)) if not is_z3(v) else simp(v)
            if z3.is_int_value(v):
                par.append(v)
            else:
                par.append(cls(v))
        facts, fkey = [], []
        ints = [(r, v) for r, v in classes if r.sort() == I]
        pts = ints + [(P0, P0)] if all(v is not P0 for _, v in ints) else ints
        pts = pts + [(LO, LO), (HI, HI)]
        if len(ints) <= 8:
            for a, (ra, va) in enumerate(pts):
                for b, (rb, vb) in enumerate(pts):
                    if a == b or (va is LO and vb is HI) or (va is HI and vb is LO):
                        continue
                    if self.valid(pc, ra < rb) is True:
                        facts.append(va < vb)
                        fkey.append((a, '<', b))
                    elif self.valid(pc, ra <= rb) is True:
                        facts.append(va <= vb)
                        fkey.append((a, '<=', b))
        else:
            for a, (ra, va) in enumerate(ints):
                for rb in (LO, HI):
                    if self.valid(pc, ra <= rb) is True:
                        facts.append(va <= rb)
                        fkey.append((a, '<=', str(rb)))
                    if self.valid(pc, rb <= ra) is True:
                        facts.append(rb <= va)
                        fkey.append((str(rb), '<=', a))
        # pattern of identifications
        names = {}
        pat = tuple(names.setdefault(str(sub[v.get_id()]), len(names)) if str(sub[v.get_id()]) not in ('LO', 'HI') else str(sub[v.get_id()]) for v in shape_leaves)
        ppat = tuple(names.setdefault(str(v), len(names)) if not (z3.is_int_value(v) or str(v) in ('LO', 'HI')) else str(v) for v in par)
        return sub, par, facts, (pat, ppat, frozenset(fkey)), classes

    def relate(self, i, rev, p, s, clo, sc, pc):
        """the code closure behaves as the specification's closure on every outcome the sub-pattern may report"""
        cptr, inv, mem, cpc = clo
        shape, leaves, order = self.reach([cptr], mem)
        # generalise over everything the closure can see
        sub, par, facts, pat, classes = self.generalise(leaves, list(sc.params) + [Z(p)], pc)
        pv = par[-1]
        key = ('clo', inv.name, shape, sc.name, pat[0], pat[1], i, rev)
        have = pat[2]
        skey = ('clo', inv.name, sc.name, i, rev)
        for fs, stt in self.lemma_state.get(key, ()):
            if stt == 'proved' and implied(fs, have):
                return
        bad = None
        for ent in reversed(self.lemma_stack):
            if ent[0] == key and implied(ent[4], have):
                # induction hypothesis: only for later positions
                try:
                    self.prove('induction-progress', (inv.name, sc.name), pc, self.lt(ent[1], p, rev))
                    return
                except Failure as f:
                    bad = f
        if bad is not None and bad.kind == 'induction-progress' and any(ent[0] == key and ent[4] == have for ent in self.lemma_stack):
            raise bad
        depth = sum(1 for ent in self.lemma_stack if ent[3] == skey)
        if depth > 6:
            raise bad or Undecided('closure nesting does not close: ' + inv.name[:80])
        for fs, stt in self.lemma_state.get(key, ()):
            if isinstance(stt, Failure) and fs == have:
                raise stt
        roots, m = self.substitute([cptr], mem, order, sub)
        sc2 = sc.at(par[:-1])
        mark = {k: list(v) for k, v in self.lemma_state.items()}
        try:
            self.closure_goal(key, skey, i, rev, pv, roots[0], inv, m, sc2, facts, have)
            self.lemma_state.setdefault(key, []).append((have, 'proved'))
            self.stats.lemmas += 1
            return
        except Failure as f:
            fail = f
            self.lemma_state = mark     # what was proved meanwhile may have used the failed hypothesis
        if fail.kind == 'induction-progress' and self.lemma_stack:
            # mutual induction: keep in mind that this lemma is only needed after the positions of the enclosing ones
            outer, ofacts = [], []
            for ent in self.lemma_stack:
                if ent[0][0] == 'rec':
                    continue
                got = []
                for rep, var in [(r, v) for r, v in classes if r.sort() == I][:8]:
                    m0 = ent[1]
                    for fact in (lambda x: m0 == x, lambda x: m0 < x, lambda x: m0 > x, lambda x: m0 <= x, lambda x: m0 >= x):
                        if self.valid(pc, fact(rep)) is True:
                            got.append(fact(var))
                            break
                if got:
                    outer.append(ent)
                    ofacts += got
            if outer:
                ckey = key + (tuple(e[5] for e in outer),)
                for fs, stt in self.lemma_state.get(ckey, ()):
                    if stt == 'proved' and implied(fs, have):
                        return
                try:
                    self.closure_goal(key, skey, i, rev, pv, roots[0], inv, m, sc2, facts + ofacts, have)
                    self.lemma_state.setdefault(ckey, []).append((have, 'proved'))
                    self.stats.lemmas += 1
                    return
                except Failure as f:
                    fail = f
                    self.lemma_state = mark
            raise fail
        # generalisation may have lost facts: retry in the exact context, unless already inside the same lemma
        if depth == 0:
            try:
                self.closure_goal(('exact',) + key, skey, i, rev, Z(p), cptr, inv, mem, sc, list(pc), frozenset())
                self.stats.lemmas += 1
                return
            except Failure as f:
                fail = f
                self.lemma_state = mark
        self.lemma_state.setdefault(key, []).append((have, fail))
        raise fail

    def closure_goal(self, key, skey, i, rev, p, cptr, inv, mem, sc, facts, have):
        self.serial += 1
        ent = [key, p, False, skey, have, self.serial]
        self.lemma_stack.append(ent)
        n0 = len(self.univ)
        try:
            rel = self.le if self.empties.get(i, True) else self.lt
            import spec as SP
            q = fresh('q', I)
            s = [fresh('sg', I) for _ in range(NS)]
            pre = list(facts) + [self.inrange(q), rel(p, q, rev), self.wf(s), self.inrange(p)]
            mem = dict(mem)
            mem['cout'] = {}
            st = State(mem, tuple(pre), (), (), frozenset())
            self.set_slots(st, s)
            st.written = frozenset()
            objs = set(mem)
            ex = Executor(self.mod, self)
            ex.depth = 1
            self.stats.functions.add(inv.name)
            self.cover(pre, 'closure ' + inv.name)
            res = ex.run(inv.name, [cptr, q, Ptr('cout', 0)], st)
            for s2, ok in res:
                if any(w[0] in objs and w[0] not in (self.ctxobj, 'cout') for w in s2.written):
                    raise Undecided('closure writes to the enclosing frame')
                end = s2.mem['cout'].get(0, (8, UNDEF))[1]
                spec = SP.SpecEval(self, rev)
                spec.val = sc.apply(spec, q, s)
                self.compare((inv.name, 'closure for ' + sc.name), s2, zbool(ok), end, self.slots(s2), s, spec, q, rev)
        finally:
            self.lemma_stack.pop()
            del self.univ[n0:]

    def cover(self, pre, what):
        if self.check([f for f in pre if not isinstance(f, All)]) == z3.unsat:
            raise Undecided('vacuous precondition: ' + what)

    # ---------------------------------------------------------------- recursive functions
    def is_recursive(self, name):
        if not hasattr(self.mod, 'rec'):
            g = {}
            for n, f in self.mod.funcs.items():
                g[n] = {ins.a[1][1] for b in f.blocks.values() for ins in b if ins.op == 'call' and ins.a[1][0] == 'g'}
            rec = set()
            for n in g:
                seen, todo = set(), list(g[n])
                while todo:
                    x = todo.pop()
                    if x == n:
                        rec.add(n)
                        break
                    if x not in seen and x in g:
                        seen.add(x)
                        todo.extend(g[x])
            self.mod.rec = rec
        return name in self.mod.rec

    def result_of(self, ex, f, args, st, r, s):
        """make a match_result value for a call summarised as r"""
        sret = f.params and 'sret' in f.params[0][2]
        out = []
        for good in (True, False):
            c = okf(r) if good else z3.Not(okf(r))
            if not self.feasible(st.pc, c):
                continue
            x = st.add_pc(c)
            if good:
                self.set_slots(x, [g(r) for g in sf])
            end = endf(r) if good else fresh('junk', I)
            okb = z3.BitVecVal(1 if good else 0, 8)
            if sret:
                x.set_cell(args[0].obj, args[0].off, 8, end)
                x.set_cell(args[0].obj, args[0].off + 8, 1, okb)
                out.append((x, None))
            else:
                out.append((x, Agg([end, okb])))
        return out

    def read_result(self, f, args, st, v):
        if f.params and 'sret' in f.params[0][2]:
            c = st.mem[args[0].obj]
            e, b = c.get(args[0].off, (8, UNDEF))[1], c.get(args[0].off + 8, (1, UNDEF))[1]
        elif isinstance(v, Agg) and len(v.v) == 2:
            e, b = v.v
        else:
            raise Undecided('recursive function with another kind of result')
        if isinstance(b, Undef):
            raise Failure('result-defined', f.name)
        if not isinstance(b, int) and z3.is_bv(b):
            b = simp(z3.Extract(0, 0, b) == 1)
        return zbool(b), e

    def call_recursive(self, ex, name, args, st, where):
        f = self.mod.funcs[name]
        s = self.slots(st)
        sret = bool(f.params and 'sret' in f.params[0][2])
        vis = args[1:] if sret else args
        for ent in reversed(self.lemma_stack):
            if ent[0][0] == 'rec' and ent[0][1] == name:
                # induction hypothesis
                fun, pidx, eshape, rev, epat, p0v = ent[4]
                shape, leaves, order = self.reach(vis, st.mem)
                if shape != eshape:
                    break
                p = leaves[pidx]
                sub, par, facts, pat, classes = self.generalise(leaves, [p], list(st.pc))
                if pat[0] != epat[0] or not epat[2] <= pat[2]:
                    break
                st.oblige('induction-progress', where, self.lt(p0v, p, rev))
                st.oblige('match-in-range', where, self.inrange(p))
                st.oblige('captures-well-formed', where, self.wf(s))
                r = self.fun(fun, p, s, unfold=fun in self.flat)
                return self.result_of(ex, f, args, st, r, s)
        shape, leaves, order = self.reach(vis, st.mem)
        errs = []
        for pidx, p in enumerate(leaves):
            if not z3.is_int(p):
                continue
            for fun in list(self.funs):
                sub, par, facts, pat, classes = self.generalise(leaves, [p], list(st.pc))
                # facts may be lost in the induction step: try with the full set, then with range facts only
                key = ('rec', name, shape, fun, pidx, pat)
                stt = self.rec_state.get(key)
                if stt is None:
                    try:
                        self.rec_goal(key, name, vis, shape, leaves, order, st.mem, sub, par[0], facts, fun, pidx, pat, sret)
                        stt = 'proved'
                        self.stats.lemmas += 1
                    except Failure as e:
                        stt = e
                    self.rec_state[key] = stt
                if stt == 'proved':
                    st.oblige('match-in-range', where, self.inrange(p))
                    st.oblige('captures-well-formed', where, self.wf(s))
                    r = self.fun(fun, p, s)
                    return self.result_of(ex, f, args, st, r, s)
                errs.append(stt)
        if errs:
            raise errs[0]
        raise Undecided('no contract for recursive ' + name[:80])

    def rec_goal(self, key, name, vis, shape, leaves, order, mem, sub, pv, facts, fun, pidx, pat, sret):
        import spec as SP
        f = self.mod.funcs[name]
        rev = self.rev
        self.serial += 1
        ent = [key, pv, False, key, (fun, pidx, shape, rev, pat, pv), self.serial]
        self.lemma_stack.append(ent)
        n0 = len(self.univ)
        try:
            roots, m = self.substitute(vis, mem, order, sub)
            s = [fresh('sg', I) for _ in range(NS)]
            pre = list(facts) + [self.inrange(pv), self.wf(s)]
            st = State(m, tuple(pre), (), (), frozenset())
            self.set_slots(st, s)
            if sret:
                mm = dict(st.mem)
                mm['sret'] = {}
                st.mem = mm
                roots = [Ptr('sret', 0)] + roots
            ex = Executor(self.mod, self)
            ex.depth = 1
            self.stats.functions.add(name)
            self.cover(pre, name)
            for s2, v in ex.run(name, roots, st):
                ok, end = self.read_result(f, roots, s2, v)
                spec = SP.SpecEval(self, rev)
                spec.val = self.res_val(self.fun(fun, pv, s, spec=spec), s)
                self.compare((name, 'recursive function as ' + fun), s2, ok, end, self.slots(s2), s, spec, pv, rev)
        finally:
            self.lemma_stack.pop()
            del self.univ[n0:]

    # ---------------------------------------------------------------- recursive specification functions
    def fun(self, name, p, s, unfold=True, spec=None):
        import spec as SP
        s = [Z(x) for x in s]
        p = Z(p)
        r = Ff(name)(p, *s)
        body, rev = self.funs[name]
        self.axiom(z3.Implies(z3.And(okf(r), self.inrange(p), self.wf(s)), z3.And(self.le(p, endf(r), rev), self.inrange(endf(r)), self.wf([f(r) for f in sf]))))
        if unfold or spec is not None:
            sp = spec or SP.SpecEval(self, rev)
            n0 = len(sp.events)
            v = body(sp, p, s)
            self.fun_events += sp.events[n0:]
            self.axiom(z3.Implies(z3.And(self.inrange(p), self.wf(s)), z3.And(okf(r) == v.ok, z3.Implies(v.ok, z3.And(endf(r) == v.end, *[f(r) == Z(x) for f, x in zip(sf, v.s)])))))
        return r

    # ---------------------------------------------------------------- loops
    def invariant_loop(self, ex, f, h, prev, regs, st):
        if self.probing:
            raise Undecided('not a standard continuation')
        import loops
        return loops.prove_loop(self, ex, f, h, prev, regs, st)
