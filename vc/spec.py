"""Specifications: the meaning of every node, written from the properties, independent of the code.

A specification maps (position, captures) to the outcome Val(ok, end, captures).  `SpecEval` records the
sub-pattern calls it makes so that the engine can relate them with those of the code."""
import z3
from engine import (Val, SpecClosure, WellKnown, All, SUCC, EQEND, KK, LO, HI, P0, NS, W, okf, endf, sf, Cf, I)
from symex import Z, simp, fresh


class SpecEval:
    def __init__(self, eng, rev):
        self.eng, self.rev = eng, rev
        self.events = []
        self.val = None

    # ---- outcomes
    def fail(self, s):
        return Val(z3.BoolVal(False), z3.IntVal(0), [Z(x) for x in s])

    def succeed(self, q, s):
        return Val(z3.BoolVal(True), Z(q), [Z(x) for x in s])

    def K(self, q, s, rev=None):
        rev = self.rev if rev is None else rev
        return self.eng.res_val(self.eng.K(q, s, rev), s)

    def M(self, i, p, s, clo, rev=None):
        rev = self.rev if rev is None else rev
        s = [Z(x) for x in s]
        self.events.append((i, rev, Z(p), tuple(s), clo))
        return self.eng.res_val(self.eng.M(i, rev, p, s, clo.kont()), s)

    def ite(self, c, a, b):
        c = simp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return Val(z3.If(c, a.ok, b.ok), z3.If(c, a.end, b.end), [z3.If(c, x, y) for x, y in zip(a.s, b.s)])

    def orelse(self, a, b):
        """first alternative that succeeds; a failed attempt leaves the captures alone"""
        return self.ite(a.ok, a, b)

    def restore(self, v, s):
        """failure reports the captures as they were"""
        return Val(v.ok, v.end, [z3.If(v.ok, x, Z(y)) for x, y in zip(v.s, s)])

    # ---- input
    def at_end(self, p):
        return Z(p) == self.eng.endp(self.rev)

    def at_begin(self, p):
        return Z(p) == self.eng.begin(self.rev)

    def ch(self, p):
        return self.eng.ch(p, self.rev)

    def prev_ch(self, p):
        """the character before p in matching direction"""
        return W(Z(p)) if self.rev else W(Z(p) - 1)

    def adv(self, p, n=1):
        return self.eng.adv(p, n, self.rev)

    def char_here(self, p, pred):
        return z3.And(z3.Not(self.at_end(p)), pred(self.ch(p)))

    # ---- declarative helpers

    def run(self, name, pred, p):
        """end of the maximal run of characters satisfying pred from p"""
        e = self.eng
        f = z3.Function('run_%s%s' % (name, 'r' if self.rev else ''), I, I)
        p = Z(p)
        r = f(p)
        inr = e.inrange(p)
        e.axiom(z3.Implies(inr, z3.And(e.le(p, r, self.rev), e.inrange(r))))
        e.axiom(z3.Implies(z3.And(inr, r != e.endp(self.rev)), z3.Not(pred(self.ch(r)))))
        if self.rev:
            e.univ.append(All(r, p, lambda j: pred(W(j)), guard=inr))
        else:
            e.univ.append(All(p, r, lambda j: pred(W(j)), guard=inr))
        return r

    def closest(self, a, b):
        """the earlier of two positions"""
        return z3.If(self.eng.le(a, b, self.rev), a, b)

    def pick(self, name, lo, hi, okp, s, last):
        """the last (or first) position j between lo and hi (matching direction, inclusive) with okp(j); else lo (or hi)"""
        e = self.eng
        f = z3.Function('pick_%s%s_%s' % (name, 'r' if self.rev else '', 'last' if last else 'first'), *([I] * (2 + len(s))), I)
        lo, hi = Z(lo), Z(hi)
        q = f(lo, hi, *[Z(x) for x in s])
        g = z3.And(e.inrange(lo), e.inrange(hi), e.le(lo, hi, self.rev))
        e.axiom(z3.Implies(g, z3.And(e.le(lo, q, self.rev), e.le(q, hi, self.rev))))
        e.axiom(z3.Implies(g, z3.Or(okp(q), q == (lo if last else hi))))
        no = lambda j: z3.Not(okp(j))
        if last:
            e.univ.append(All(hi, q, no, guard=g) if self.rev else All(q + 1, hi + 1, no, guard=g))
        else:
            e.univ.append(All(q + 1, lo + 1, no, guard=g) if self.rev else All(lo, q, no, guard=g))
        return q




# ---------------------------------------------------------------- nodes
# A node specification is a function (sp, p, s, k) -> Val, where k is a continuation (sp, q, s) -> Val together
# with a closure object for handing it to an opaque sub-pattern.
class Cont:
    def __init__(self, call, clo):
        self.call, self.clo = call, clo


def top(rev):
    return Cont(lambda sp, q, s: sp.K(q, s, rev), WellKnown(KK[rev]))


def succ():
    return Cont(lambda sp, q, s: sp.succeed(q, s), WellKnown(SUCC))


_names = {}


def closure(tag, params, call):
    """a named continuation; call(sp, params, q, s)"""
    c = SpecClosure(tag, params, call)
    return Cont(lambda sp, q, s: call(sp, params, q, s), c)


class Node:
    """Specification of one pattern node."""
    uid = 0

    def __init__(self):
        Node.uid += 1
        self.u = 'n%d' % Node.uid

    def eval(self, sp, p, s, k):
        raise NotImplementedError

    def empty_ok(self):
        return True


class Opaque(Node):
    def __init__(self, i, empty=True):
        super().__init__()
        self.i, self.e = i, empty

    def eval(self, sp, p, s, k):
        return sp.M(self.i, p, s, k.clo, sp.rev)

    def empty_ok(self):
        return self.e


class Char(Node):
    """one character satisfying pred"""

    def __init__(self, pred, name=None):
        super().__init__()
        self.pred = pred
        self.name = name or self.u

    def eval(self, sp, p, s, k):
        return sp.ite(sp.char_here(p, self.pred), k.call(sp, sp.adv(p), s), sp.fail(s))

    def empty_ok(self):
        return False


def opaque_char(i):
    return Char(lambda c: Cf(i)(c), 'c%d' % i)


class Empty(Node):
    def eval(self, sp, p, s, k):
        return k.call(sp, p, s)


class Seq(Node):
    def __init__(self, *nodes):
        super().__init__()
        self.nodes = nodes

    def eval(self, sp, p, s, k):
        nodes = self.nodes[::-1] if sp.rev else self.nodes
        return self.go(sp, nodes, p, s, k)

    def go(self, sp, nodes, p, s, k):
        if len(nodes) == 1:
            return nodes[0].eval(sp, p, s, k)
        rest = closure('%s_%d%s' % (self.u, len(nodes), ident(k)), params(k), lambda sp2, pr, q, t: self.go(sp2, nodes[1:], q, t, rebind(k, pr)))
        return nodes[0].eval(sp, p, s, rest)

    def empty_ok(self):
        return all(n.empty_ok() for n in self.nodes)


def ident(k):
    c = k.clo
    return '_' + (c.name if isinstance(c, SpecClosure) else str(c.k))


def params(k):
    return k.clo.params if isinstance(k.clo, SpecClosure) else ()


def rebind(k, pr):
    """the continuation k with its parameters replaced"""
    if isinstance(k.clo, SpecClosure):
        c = k.clo
        return closure(c.name, tuple(pr), c.fn)
    return k


class Alt(Node):
    def __init__(self, *nodes):
        super().__init__()
        self.nodes = nodes

    def eval(self, sp, p, s, k):
        v = self.nodes[-1].eval(sp, p, s, k)
        vs = [n.eval(sp, p, s, k) for n in self.nodes[:-1]]
        for a in reversed(vs):
            v = sp.orelse(a, v)
        return v

    def empty_ok(self):
        return any(n.empty_ok() for n in self.nodes)


INF = None


class Rep(Node):
    """X{a,b} around any node"""

    def __init__(self, node, a, b, mode):
        super().__init__()
        self.node, self.a, self.b, self.mode = node, a, b, mode

    def empty_ok(self):
        return self.a == 0 or self.node.empty_ok()

    def eval(self, sp, p, s, k):
        if isinstance(self.node, Char):
            return self.chars(sp, p, s, k)
        if self.mode == 'possessive':
            return self.poss(sp, p, s, k)
        return self.step(sp, self.a, self.b, p, s, k)

    # -- ordered choice between one more repetition and stopping
    def step(self, sp, a, b, p, s, k):
        if b == 0:
            return k.call(sp, p, s)
        if b is INF and a == 0:
            return sp.eng.res_val(self.star(sp, p, s, k), s)
        nb = INF if b is INF else b - 1
        if a > 0:
            more = closure('%s_req%d_%s%s' % (self.u, a, b, ident(k)), params(k), lambda sp2, pr, q, t: self.step(sp2, a - 1, nb, q, t, rebind(k, pr)))
            return self.node.eval(sp, p, s, more)
        more = closure('%s_opt_%s%s' % (self.u, b, ident(k)), params(k), lambda sp2, pr, q, t: self.step(sp2, 0, nb, q, t, rebind(k, pr)))
        take = self.node.eval(sp, p, s, more)
        stop = k.call(sp, p, s)
        return sp.orelse(take, stop) if self.mode == 'greedy' else sp.orelse(stop, take)

    def star(self, sp, p, s, k):
        assert not params(k)
        name = '%s_star%s%s' % (self.u, ident(k), 'r' if sp.rev else '')
        zl = self.node.empty_ok()

        def more(sp2, pr, q, t):
            inner = sp2.eng.res_val(sp2.eng.fun(name, q, t, spec=sp2), t)
            # an iteration that matched nothing is not repeated
            return sp2.ite(z3.And(z3.BoolVal(zl), Z(q) == Z(pr[0])), sp2.fail(t), inner)

        def body(sp2, p2, s2):
            take = self.node.eval(sp2, p2, s2, closure(name + '_more', (p2,), more))
            stop = k.call(sp2, p2, s2)
            return sp2.orelse(take, stop) if self.mode == 'greedy' else sp2.orelse(stop, take)
        sp.eng.funs[name] = (body, sp.rev)
        return sp.eng.fun(name, p, s, spec=sp)

    # -- first outcome only
    def poss(self, sp, p, s, k):
        assert not params(k)
        if self.a == self.b:
            return Atomic(Rep(self.node, self.a, self.b, 'greedy') if self.a != 1 else self.node).eval(sp, p, s, k)
        if self.a > 0:
            first = (self.node if self.a == 1 else Rep(self.node, self.a, self.a, 'greedy')).eval(sp, p, s, succ())
            rest = self.poss_opt(sp, None if self.b is INF else self.b - self.a, first.end, first.s, k)
            return sp.restore(sp.ite(first.ok, rest, sp.fail(s)), s)
        return sp.restore(self.poss_opt(sp, self.b, p, s, k), s)

    def poss_opt(self, sp, b, p, s, k):
        if b == 0:
            return k.call(sp, p, s)
        if b is INF:
            name = '%s_poss%s%s' % (self.u, ident(k), 'r' if sp.rev else '')
            zl = self.node.empty_ok()

            def body(sp2, p2, s2):
                r = self.node.eval(sp2, p2, s2, succ())
                nxt = sp2.eng.fun(name, r.end, r.s, unfold=False)
                go = z3.And(r.ok, z3.Not(z3.And(z3.BoolVal(zl), r.end == Z(p2))))
                return sp2.restore(sp2.ite(go, sp2.eng.res_val(nxt, r.s), k.call(sp2, p2, s2)), s2)
            sp.eng.funs[name] = (body, sp.rev)
            return sp.eng.res_val(sp.eng.fun(name, p, s, spec=sp), s)
        r = self.node.eval(sp, p, s, succ())
        return sp.ite(r.ok, self.poss_opt(sp, b - 1, r.end, r.s, k), k.call(sp, p, s))

    # -- single characters: stated outright in terms of the maximal run
    def chars(self, sp, p, s, k):
        e = sp.eng
        pred = self.node.pred
        conds = []
        q = Z(p)
        for _ in range(self.a):
            conds.append(sp.char_here(q, pred))
            q = sp.adv(q)
        # inside the guard below q is in range
        base = q
        valid = z3.And(*conds) if conds else z3.BoolVal(True)
        if self.b == self.a:
            return sp.ite(valid, k.call(sp, base, s), sp.fail(s))
        if self.b is INF and not params(k):
            # the unbounded part on its own is a contract for code that recurs
            name = '%s_run%s%s' % (self.u, ident(k), 'r' if sp.rev else '')
            if name not in e.funs:
                e.funs[name] = (lambda sp2, p2, s2: Rep.run_from(self, sp2, p2, s2, k), sp.rev)
                e.flat.add(name)
        return sp.ite(valid, self.run_from(sp, base, s, k), sp.fail(s))

    def run_from(self, sp, base, s, k):
        pred = self.node.pred
        hi = sp.run(self.node.name, pred, base)
        if self.b is not INF:
            hi = sp.closest(hi, sp.adv(base, self.b - self.a))
        if self.mode == 'possessive':
            return k.call(sp, hi, s)
        okp = lambda j: k.call(sp, j, s).ok
        best = sp.pick('%s%s' % (self.u, ident(k)), base, hi, okp, list(s) + list(params(k)), self.mode == 'greedy')
        return k.call(sp, best, s)


class Atomic(Node):
    def __init__(self, node):
        super().__init__()
        self.node = node

    def eval(self, sp, p, s, k):
        r = self.node.eval(sp, p, s, succ())
        return sp.restore(sp.ite(r.ok, k.call(sp, r.end, r.s), sp.fail(s)), s)

    def empty_ok(self):
        return self.node.empty_ok()


class Capture(Node):
    def __init__(self, group, node):
        super().__init__()
        self.g, self.node = group, node

    def eval(self, sp, p, s, k):
        def done(sp2, pr, q, t):
            t2 = list(t)
            b, e = (q, pr[0]) if sp2.rev else (pr[0], q)
            t2[2 * self.g], t2[2 * self.g + 1] = Z(b), Z(e)
            return sp2.restore(rebind(k, pr[1:]).call(sp2, q, t2), t)
        return self.node.eval(sp, p, s, closure('%s_cap%s' % (self.u, ident(k)), (Z(p),) + tuple(params(k)), done))

    def empty_ok(self):
        return self.node.empty_ok()


class Look(Node):
    """lookaround: direction relative to the text, not to matching"""

    def __init__(self, behind, negative, node):
        super().__init__()
        self.behind, self.negative, self.node = behind, negative, node

    def eval(self, sp, p, s, k):
        sub = SpecEval(sp.eng, self.behind)
        sub.events = sp.events
        r = self.node.eval(sub, p, s, succ())
        if self.negative:
            return sp.restore(sp.ite(r.ok, sp.fail(s), k.call(sp, p, s)), s)
        return sp.restore(sp.ite(r.ok, k.call(sp, p, r.s), sp.fail(s)), s)


class Test(Node):
    """zero-width test of a position, stated in text order: fn(p) -> BoolRef"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def eval(self, sp, p, s, k):
        return sp.ite(self.fn(Z(p)), k.call(sp, p, s), sp.fail(s))


def is_nl(c):
    return z3.Or(c == 10, c == 13)


def is_word(c):
    return z3.Or(z3.And(z3.ULE(48, c), z3.ULE(c, 57)), z3.And(z3.ULE(65, c), z3.ULE(c, 90)), z3.And(z3.ULE(97, c), z3.ULE(c, 122)), c == 95)


def bol(multiline):
    return Test(lambda p: z3.Or(p == LO, z3.And(z3.BoolVal(multiline), is_nl(W(p - 1)))))


def eol(multiline):
    return Test(lambda p: z3.Or(p == HI, z3.And(z3.BoolVal(multiline), is_nl(W(p)))))


def wordb(neg=False):
    def f(p):
        r = z3.Xor(z3.And(p != LO, is_word(W(p - 1))), z3.And(p != HI, is_word(W(p))))
        return z3.Not(r) if neg else r
    return Test(f)


def alpha(c):
    return z3.Or(z3.And(z3.ULE(65, c), z3.ULE(c, 90)), z3.And(z3.ULE(97, c), z3.ULE(c, 122)))


def ceq(icase):
    if not icase:
        return lambda a, b: a == b
    return lambda a, b: z3.Or(a == b, z3.And(alpha(a), alpha(b), (a ^ b) == 32))


class Backref(Node):
    def __init__(self, group, icase=False):
        super().__init__()
        self.g, self.icase = group, icase

    def eval(self, sp, p, s, k):
        e = sp.eng
        b, t = Z(s[2 * self.g]), Z(s[2 * self.g + 1])
        n = t - b
        eq = ceq(self.icase)
        same = fresh('same', z3.BoolSort())
        wit = fresh('wit', I)
        start = Z(p) - n if sp.rev else Z(p)
        fits = z3.And(LO <= start, start + n <= HI)
        pred = lambda j: eq(W(b + j), W(start + j))
        e.univ.append(All(z3.IntVal(0), n, pred, bases=(b, start), guard=same))
        e.wits += [b + wit, start + wit]
        e.texts = True
        e.axiom(z3.Implies(z3.Not(same), z3.And(0 <= wit, wit < n, z3.Not(pred(wit)))))
        return sp.ite(z3.And(fits, same), k.call(sp, sp.adv(p, n), s), sp.fail(s))
