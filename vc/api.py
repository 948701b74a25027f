"""Contracts of the public interface: match, match_prefix, search, their overloads, tokenizers, searchers and ranges.

The pattern is an arbitrary one with two groups (an uninterpreted function of position and captures, by the contract
of a node), so each statement is about every pattern.  Objects that live across calls (generators and ranges) are
related to an abstract state; the representation is found by the Houdini method, so nothing depends on field order."""
import time
import z3
import spec as SP
from engine import Engine, State, Ptr, UNDEF, Undef, LO, HI, P0, NS, I, Failure, Undecided, SUCC, EQEND, okf, endf, sf, All
from symex import Executor, fresh, simp, zbool, Z
from pat import N, C, SEQ, TEST, ALT, REP, INF

ZERO = [z3.IntVal(0)] * NS


class ApiEngine(Engine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kpos = False
        self.ctxobj = None
        self.allpos = None

    def contract(self, ex, name, args, st, where):
        if name.strip('@') == 'vx_match' and isinstance(args[5], Ptr):
            # the context lives in the function under proof
            self.ctxobj, self.ctxoff = args[5].obj, args[5].off
        return super().contract(ex, name, args, st, where)

    def slots(self, st):
        if self.ctxobj is None or self.ctxobj not in st.mem:
            return list(ZERO)
        return super().slots(st)


def outcome(eng, sp, node, p, exact):
    """the pattern at p, with no group set: Val"""
    k = SP.succ()
    if exact:
        k = SP.Cont(lambda s2, q, s: s2.ite(s2.at_end(q), s2.succeed(q, s), s2.fail(s)), SP.WellKnown(EQEND))
    return node.eval(sp, p, ZERO, k)


def method(eng, sp, node, name, cur):
    """-> (ok, start, end, groups) of one attempt from cur"""
    if name == 'search':
        okp = lambda j: outcome(eng, sp, node, j, False).ok
        q = sp.pick('search', cur, eng.endp(), okp, [], False)
        v = outcome(eng, sp, node, q, False)
        return v.ok, q, v.end, v.s
    v = outcome(eng, sp, node, cur, name == 'match')
    return v.ok, Z(cur), v.end, v.s


def groups_of(res):
    ok, start, end, s = res
    return [start, end] + [Z(x) for x in s[2:]]


def make(mod, i, budget):
    eng = ApiEngine(mod, False, i.pat.ids(), deadline=time.time() + budget)
    eng.charpreds = list(i.pat.charpreds(i.flags))
    eng.konts = [(n, False, SUCC) for n in i.pat.ids()]
    node = i.pat.spec(i.flags)
    sp = SP.SpecEval(eng, False)
    eng.extra_rest = [('pattern fails', lambda j: z3.Not(outcome(eng, SP.SpecEval(eng, False), node, j, False).ok))]
    eng.attempts = [('the pattern', lambda j: outcome(eng, SP.SpecEval(eng, False), node, j, False))]
    return eng, node, sp


def read_out(s2, obj='out'):
    return [s2.mem[obj].get(8 * j, (8, UNDEF))[1] for j in range(NS)]


def check_result(eng, what, s2, ok, out, want, eqs=(), copy=False):
    """what the call reports is the wanted (ok, groups)"""
    wok, wg = want
    if isinstance(ok, Undef):
        raise Failure('result-defined', what)
    ok = zbool(ok)
    pc = list(s2.pc) + list(eqs)
    eng.prove('reported-verdict', what, pc, ok == wok)
    if any(isinstance(x, Undef) for x in out):
        raise Failure('result-defined', what)
    out = [Z(x) for x in out]
    if copy:
        # a copy of an empty piece of text need not remember where it was
        for j in range(NS // 2):
            lo, hi = out[2 * j:2 * j + 2]
            eng.prove('owning-copy', what, pc, z3.Implies(ok, z3.Or(z3.And(lo == wg[2 * j], hi == wg[2 * j + 1]), z3.And(lo == hi, wg[2 * j] == wg[2 * j + 1]))))
            eng.prove('empty-on-failure', what, pc, z3.Implies(z3.Not(ok), lo == hi))
        return
    eng.prove('whole-match-span', what, pc, z3.Implies(ok, z3.And(out[0] == wg[0], out[1] == wg[1])))
    eng.prove('groups-reported', what, pc, z3.Implies(ok, z3.And(*[a == b for a, b in zip(out[2:], wg[2:])])))
    eng.prove('span-in-range', what, pc, z3.Implies(ok, z3.And(eng.inrange(out[0]), eng.inrange(out[1]), out[0] <= out[1])))
    eng.prove('empty-on-failure', what, pc, z3.Implies(z3.Not(ok), z3.And(*[out[2 * j] == out[2 * j + 1] for j in range(NS // 2)])))


def prove_call(mod, i, budget):
    """one call of match, match_prefix or search on the whole input"""
    eng, node, sp = make(mod, i, budget)
    name = '@' + i.name
    if name not in mod.funcs:
        raise Undecided('entry missing')
    eng.cover([LO <= HI], i.name)
    ex = Executor(mod, eng)
    eng.stats.functions.add('regex_adapter::' + i.method)
    st = State({'out': {}}, (), (), (), frozenset())
    res = method(eng, sp, node, i.method, LO)
    got = ex.run(name, [LO, HI, Ptr('out', 0)], st)
    if not got:
        raise Undecided('no path')
    for s2, ok in got:
        eng.flush(s2)
        eqs = eng.link(s2, sp.events, True)
        check_result(eng, (i.name, 'result'), s2, ok, read_out(s2), (res[0], groups_of(res)), eqs, i.via in ('tmp', 'ctmp'))
    return eng.stats


# ---------------------------------------------------------------- objects that live across calls
class Abs:
    """abstract state: where the next attempt starts, whether there is one, and the current result (ranges only)"""

    def __init__(self, cur, act, ok, g):
        self.cur, self.act, self.ok, self.g = cur, act, ok, g


def b8(c):
    return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def candidates(cells, ranged):
    """facts that may tie a cell of the object to the abstract state"""
    out = []

    def add(text, fn):
        out.append((text, fn))
    offs = sorted(cells)
    for o in offs:
        size = cells[o]
        if size == 8:
            add('+%d is the beginning' % o, lambda c, a, o=o: c[o] == LO)
            add('+%d is the end' % o, lambda c, a, o=o: c[o] == HI)
            add('+%d is the position' % o, lambda c, a, o=o: z3.Implies(a.act, c[o] == a.cur))
            if ranged:
                for j in range(NS):
                    add('+%d is bound %d' % (o, j), lambda c, a, o=o, j=j: z3.Implies(a.ok, c[o] == a.g[j]))
                if o + 8 in cells and cells[o + 8] == 8:
                    add('+%d is empty' % o, lambda c, a, o=o: z3.Or(a.ok, c[o] == c[o + 8]))
        elif size == 1:
            add('+%d tells whether active' % o, lambda c, a, o=o: c[o] == b8(a.act))
            add('+%d tells whether finished' % o, lambda c, a, o=o: c[o] == b8(z3.Not(a.act)))
            if ranged:
                add('+%d tells whether matched' % o, lambda c, a, o=o: c[o] == b8(a.ok))
            for v in (0, 1):
                add('+%d is %d' % (o, v), lambda c, a, o=o, v=v: c[o] == v)
    return out


def abstract_ok(eng, a, ranged):
    f = [z3.Implies(a.act, eng.inrange(a.cur))]
    if ranged:
        f.append(z3.Implies(a.act, a.ok))
    return z3.And(*f)


def cell_values(s2, obj, cells):
    out = {}
    m = s2.mem.get(obj, {})
    for o, size in cells.items():
        c = m.get(o)
        if c is None or c[0] != size or isinstance(c[1], (Undef, Ptr)):
            return None
        v = c[1]
        out[o] = Z(v) if size == 8 else v
        if size == 8 and not z3.is_int(out[o]):
            return None
    return out


def advance(eng, sp, node, meth, a):
    """one step of the abstract iteration from a: the new state"""
    ok, start, end, s = method(eng, sp, node, meth, a.cur)
    g = groups_of((ok, start, end, s))
    ok2 = z3.And(a.act, ok)
    return Abs(end, z3.And(ok2, start != end), ok2, g)


def step(mod, eng, node, i, entry, obj_in, a, pc, ranged, produces, obj='g'):
    """run one operation from abstract state a -> list of (final state, abstract state after, equations)"""
    sp = SP.SpecEval(eng, False)
    if produces:
        b = advance(eng, sp, node, i.method, a)
    else:
        b = a
    mem = {obj: obj_in, 'out': {}}
    st = State(mem, tuple(pc), (), (), frozenset())
    name = '@%s__%s' % (i.name, entry)
    if name not in mod.funcs:
        raise Undecided('entry missing: ' + name)
    f = mod.funcs[name]
    args = [Ptr(obj, 0)] + ([Ptr('out', 0)] if len(f.params) > 1 else [])
    ex = Executor(mod, eng)
    eng.ctxobj = None
    got = ex.run(name, args, st)
    if not got:
        raise Undecided('no path')
    out = []
    for s2, v in got:
        eng.flush(s2)
        eqs = eng.link(s2, sp.events, True)
        out.append((s2, v, b, eqs))
    return out


def build(mod, eng, node, i, entry, ranged):
    """run the factory -> list of (state, abstract state, equations)"""
    sp = SP.SpecEval(eng, False)
    a = Abs(LO, z3.BoolVal(True), z3.BoolVal(True), ZERO)
    if ranged:
        a = advance(eng, sp, node, i.method, a)
    st = State({'g': {}}, (), (), (), frozenset())
    name = '@%s__%s' % (i.name, entry)
    if name not in mod.funcs:
        raise Undecided('entry missing: ' + name)
    eng.ctxobj = None
    got = Executor(mod, eng).run(name, [LO, HI, Ptr('g', 0)], st)
    out = []
    for s2, _ in got:
        eng.flush(s2)
        out.append((s2, a, eng.link(s2, sp.events, True)))
    return out


GEN_OPS = [('call', True), ('next', True)]
RNG_OPS = [('inc', True), ('post', True)]
RNG_READS = ['deref', 'arrow', 'current']
RNG_TESTS = [('done', True), ('active', False), ('bool', False)]


def observe(mod, eng, node, i, obj, a, pc, ranged, what):
    """everything that can be seen of the object in abstract state a"""
    if not ranged:
        for s2, v, b, eqs in step(mod, eng, node, i, 'active', obj, a, pc, ranged, False):
            eng.prove('active-reported', (what, 'active'), list(s2.pc) + eqs, zbool(v) == a.act)
        return
    for r in RNG_READS:
        for s2, v, b, eqs in step(mod, eng, node, i, r, obj, a, pc, ranged, False):
            check_result(eng, (what, r), s2, v, read_out(s2), (a.ok, a.g), eqs)
    for t, neg in RNG_TESTS:
        for s2, v, b, eqs in step(mod, eng, node, i, t, obj, a, pc, ranged, False):
            eng.prove('end-of-range', (what, t), list(s2.pc) + eqs, (z3.Not(zbool(v)) if neg else zbool(v)) == a.ok)


def prove_object(mod, i, budget):
    """a generator or range yields exactly the consecutive matches, for any number of calls"""
    eng, node, sp = make(mod, i, budget)
    ranged = i.ranged
    eng.stats.functions.add(i.factory)
    starts = []
    for entry in i.factories:
        starts += [(entry,) + x for x in build(mod, eng, node, i, entry, ranged)]
    if not starts:
        raise Undecided('no path')
    cells = None
    for _, s2, a, eqs in starts:
        c = {o: sz for o, (sz, v) in s2.mem['g'].items() if not isinstance(v, Undef)}
        if cells is None:
            cells = c
        elif set(c) != set(cells):
            cells = {o: s for o, s in cells.items() if c.get(o) == s}
    if any(s not in (1, 8) for s in cells.values()):
        raise Undecided('object layout')
    cands = candidates(cells, ranged)
    keep = []
    for t, fn in cands:
        good = True
        for _, s2, a, eqs in starts:
            cv = cell_values(s2, 'g', cells)
            if cv is None:
                raise Undecided('object layout')
            if eng.valid(list(s2.pc) + eqs, fn(cv, a)) is not True:
                good = False
                break
        if good:
            keep.append((t, fn))
    ops = RNG_OPS if ranged else GEN_OPS
    try:
        induct(mod, eng, node, i, cells, keep, ops, ranged)
        return eng.stats
    except Failure as f:
        fail = f
    # the representation may simply not have been found: only a failure from a state the code itself produced counts
    history(mod, eng, node, i, ops, ranged)
    raise Undecided('representation not found: %s at %s' % (fail.kind, fail.where))


def symbolic(eng, cells, keep, ranged):
    c, obj = {}, {}
    for o, size in cells.items():
        v = fresh('cell', I) if size == 8 else fresh('cell', z3.BitVecSort(8))
        c[o] = v
        obj[o] = (size, v)
    a = Abs(fresh('cur', I), fresh('act', z3.BoolSort()), fresh('okk', z3.BoolSort()), [fresh('g', I) for _ in range(NS)])
    pc = [abstract_ok(eng, a, ranged)] + [fn(c, a) for _, fn in keep]
    if ranged:
        pc.append(z3.Implies(a.ok, z3.And(*[z3.Or(z3.And(a.g[2 * j] == 0, a.g[2 * j + 1] == 0), z3.And(LO <= a.g[2 * j], a.g[2 * j] <= a.g[2 * j + 1], a.g[2 * j + 1] <= HI)) for j in range(NS // 2)],
                                          LO <= a.g[0])))
        # after a result that is not empty the next attempt starts at its end
        pc.append(z3.Implies(a.ok, a.act == (a.g[0] != a.g[1])))
    return c, obj, a, pc


def induct(mod, eng, node, i, cells, keep, ops, ranged):
    for rnd in range(12):
        c, obj, a, pc = symbolic(eng, cells, keep, ranged)
        n0 = len(eng.univ)
        bad = set()
        fail = None
        for op, prod in ops:
            try:
                steps = step(mod, eng, node, i, op, obj, a, pc, ranged, prod)
            except Failure as f:
                fail = f
                raise
            for s2, v, b, eqs in steps:
                cv = cell_values(s2, 'g', cells)
                full = list(s2.pc) + eqs
                for t, fn in keep:
                    if t in bad:
                        continue
                    if cv is None or eng.valid(full, fn(cv, b)) is not True:
                        bad.add(t)
        if not bad:
            break
        keep = [k for k in keep if k[0] not in bad]
        del eng.univ[n0:]
    else:
        raise Undecided('representation did not stabilise')
    eng.cover(pc, i.name)
    for x in (a.act, z3.Not(a.act)):
        eng.cover(pc + [x], i.name)
    for t, _ in keep:
        eng.stats.ok('representation')
    eng.stats.invariants.append((i.name, [t for t, _ in keep]))
    observe(mod, eng, node, i, obj, a, pc, ranged, i.name)
    for op, prod in ops:
        for s2, v, b, eqs in step(mod, eng, node, i, op, obj, a, pc, ranged, prod):
            full = list(s2.pc) + eqs
            if not ranged:
                check_result(eng, (i.name, op), s2, v, read_out(s2), (b.ok, b.g), eqs)
            eng.prove('iteration-progress', (i.name, op), full, z3.Implies(z3.And(a.act, b.act), a.cur < b.cur))
            eng.prove('iteration-stops', (i.name, op), full, z3.Implies(z3.Not(a.act), z3.And(z3.Not(b.act), z3.Not(b.ok))))
            eng.prove('consecutive', (i.name, op), full, z3.Implies(b.ok, b.g[0] == a.cur if i.method == 'match_prefix' else b.g[0] >= a.cur))
            eng.prove('position-in-range', (i.name, op), full, abstract_ok(eng, b, ranged))


def history(mod, eng, node, i, ops, ranged):
    """the first three operations from a fresh object, on every input"""
    for entry in i.factories:
        work = [(s2.mem['g'], a, list(s2.pc) + eqs) for s2, a, eqs in build(mod, eng, node, i, entry, ranged)]
        for k in range(3):
            nxt = []
            for obj, a, pc in work:
                observe(mod, eng, node, i, obj, a, pc, ranged, '%s after %d' % (i.name, k))
                for op, prod in ops:
                    for s2, v, b, eqs in step(mod, eng, node, i, op, obj, a, pc, ranged, prod):
                        if not ranged:
                            check_result(eng, (i.name, op, 'call %d' % (k + 1)), s2, v, read_out(s2), (b.ok, b.g), eqs)
                        if op == ops[0][0]:
                            nxt.append((s2.mem['g'], b, list(s2.pc) + eqs))
                        elif ranged:
                            observe(mod, eng, node, i, s2.mem['g'], b, list(s2.pc) + eqs, ranged, '%s after %d and %s' % (i.name, k, op))
            work = nxt[:24]


# ---------------------------------------------------------------- instances
ITER = {'raw': 'raw', 'fwd': 'fwd', 'bidi': 'bidi'}


class ApiInst:
    def __init__(self, group, name, method, pat, it, via, flags=(), ranged=None, budget=150):
        self.group, self.method, self.pat, self.it, self.via, self.flags, self.ranged, self.budget = group, method, pat, it, via, tuple(flags), ranged, budget
        self.name = 'api_%s__%s__%s%s' % (group, name, it, ''.join('_' + f for f in flags))
        self.cost = 1 if method != 'search' or ranged is None else 40 if ranged else 10
        self.kind = 'call' if ranged is None else 'object'
        self.factory = {None: None, False: {'match_prefix': 'tokenizer', 'search': 'searcher'}.get(method), True: {'match_prefix': 'tokenize', 'search': 'find_all'}.get(method)}[ranged]
        self.factories = ['make_' + v for v in via] if ranged is not None else ()

    def regex(self):
        return 'meta::regex_adapter<with_groups<%s>%s>' % (self.pat.cpp(), ''.join(', meta::regex_flag::' + f for f in self.flags))

    def cpp(self):
        n, it = self.name, ITER[self.it]
        out = '#include "api.hpp"\nusing R_%s = %s;\n' % (n, self.regex())
        if self.kind == 'call':
            return out + 'extern "C" bool %s(raw b, raw e, raw *out) noexcept { return %s_%s<R_%s, %s>(b, e, out); }\n' % (n, self.method, self.via, n, it)
        out += 'using G_%s = decltype(%s_it<R_%s, %s>(raw{}, raw{}));\n' % (n, self.factory, n, it)
        for v in self.via:
            out += 'extern "C" void %s__make_%s(raw b, raw e, G_%s *g) noexcept { new (g) G_%s(%s_%s<R_%s, %s>(b, e)); }\n' % (n, v, n, n, self.factory, v, n, it)
        if self.ranged:
            for f in RNG_READS:
                out += 'extern "C" bool %s__%s(G_%s *g, raw *out) noexcept { return rng_%s(g, out); }\n' % (n, f, n, f)
            for f, _ in RNG_TESTS:
                out += 'extern "C" bool %s__%s(G_%s *g) noexcept { return rng_%s(g); }\n' % (n, f, n, f)
            for f, _ in RNG_OPS:
                out += 'extern "C" void %s__%s(G_%s *g) noexcept { rng_%s(g); }\n' % (n, f, n, f)
        else:
            for f, _ in GEN_OPS:
                out += 'extern "C" bool %s__%s(G_%s *g, raw *out) noexcept { return gen_%s(g, out); }\n' % (n, f, n, f)
            out += 'extern "C" bool %s__active(G_%s *g) noexcept { return gen_active(g); }\n' % (n, n)
        return out

    def dispatch(self, mod, budget):
        return (prove_call if self.kind == 'call' else prove_object)(mod, self, budget)


def pick(prop, thorough):
    out = []
    for i in instances():
        pn = i.name.split('__')[1].rsplit('_', 1)[1]
        if prop == 'C09':
            ok = i.kind == 'call'
        elif prop == 'C10':
            ok = i.kind == 'object' and (thorough or pn == 'any' and (i.it != 'bidi' or not i.ranged) or i.method != 'search')
        elif prop == 'C07':
            ok = i.kind == 'call' and (thorough or pn == 'any') or i.kind == 'object' and (thorough or pn == 'any' and not i.ranged)
        elif prop == 'C11':
            ok = thorough or pn == 'any' and i.it != 'fwd' and (i.kind == 'call' and not i.flags or i.kind == 'object' and not i.ranged)
        elif prop == 'C12':
            ok = i.kind == 'object' and (thorough or not i.ranged) or i.kind == 'call' and i.method == 'search' and not i.flags
        elif prop == 'C18':
            ok = pn == 'any' and not i.flags and (i.kind == 'call' or not i.ranged or thorough)
        else:
            ok = False
        if ok:
            out.append(i)
    return out


def instances():
    out = []
    pats = [('any', N(1)), ('full', N(1, False)), ('char', C(1))]
    for nm, p in pats:
        for m in ('match', 'match_prefix', 'search'):
            for it in ITER:
                for via in ('it', 'rng') + (('sv',) if it == 'raw' else ()):
                    out.append(ApiInst('call', '%s_%s_%s' % (m, via, nm), m, p, it, via))
            for fl in ('icase', 'multiline', 'dotall', 'ungreedy', 'unroll'):
                out.append(ApiInst('call', '%s_it_%s' % (m, nm), m, p, 'raw', 'it', (fl,)))
        for m in ('match_prefix', 'search'):
            for it in ITER:
                vias = ['it', 'rng'] + (['sv'] if it == 'raw' else [])
                out.append(ApiInst('gen', '%s_%s' % (m, nm), m, p, it, vias, ranged=False))
                out.append(ApiInst('rng', '%s_%s' % (m, nm), m, p, it, vias, ranged=True))
    return out


if __name__ == '__main__':
    import sys
    import runner
    xs = [i for i in instances() if not sys.argv[1:] or any(a in i.name for a in sys.argv[1:])]
    t = time.time()
    for r in runner.run(xs, per=6):
        print(r['name'], r['status'], r.get('n'), r.get('kind', ''), str(r.get('where', ''))[:200], r.get('reason', '')[-600:], '%.1f' % r['time'], str(r.get('detail', ''))[:300])
        if r.get('invariants'):
            print('   ', r['invariants'][-1])
    print(time.time() - t)
