"""Contracts of match results: whatever the captures and the verdict are, every accessor, value category, conversion,
projection, copy and owning or optional form shows the same pieces of text."""
import time
import z3
from api import ApiEngine, ApiInst, ITER
from engine import State, Ptr, UNDEF, Undef, LO, HI, NS, I, Failure, Undecided
from symex import Executor, Z
from pat import N

G = [z3.Const('g%d' % j, I) for j in range(NS)]
M = z3.Bool('matched')
AT = z3.Int('at')


def b(x):
    return z3.If(x, z3.IntVal(1), z3.IntVal(0))


ONE, ZERO = z3.IntVal(1), z3.IntVal(0)
L = [G[2 * j + 1] - G[2 * j] for j in range(3)]
E = [G[2 * j] == G[2 * j + 1] for j in range(3)]


def gr(*js):
    return [x for j in js for x in (G[2 * j], G[2 * j + 1])]


ALL = gr(0, 1, 2)
# accessor -> (what it writes, may it be used with: iterator kinds, forms); None: not compared
TABLE = {
    'verdict': [b(M)] * 6,
    'whole': [L[0]] + gr(0, 0),
    'counts': [z3.IntVal(3)] * 2,
    'index_l': ALL, 'index_c': ALL, 'index_r': ALL, 'index_k': ALL,
    'get_l': ALL, 'get_c': ALL, 'get_r': ALL, 'get_k': ALL,
    'named': gr(2, 2, 2, 2),
    'project': gr(0, 1, 2, 2, 2, 1),
    'bind_l': ALL, 'bind_c': ALL, 'bind_v': ALL, 'bind_r': ALL,
    'same': [ONE] * 4,
    'each_l': ALL, 'each_c': ALL, 'each_r': ALL, 'each_k': ALL,
    'transform': ALL + [z3.IntVal(3)],
    'opt_l': 'opt', 'opt_c': 'opt', 'opt_r': 'opt', 'opt_k': 'opt',
    'kept': [b(M)] + ALL,
    'copy': ALL + [b(M)] + ALL + [b(M), ZERO] + ALL + [b(M)] + ALL + [b(M)],
    'fresh': [ZERO, ONE],
    'empty0': [b(E[0])] * 2, 'empty1': [b(E[1])],
    'length0': [L[0]], 'length1': [L[1]], 'length2': [L[2]],
    'content_c': 'content', 'content_l': 'content',
    'sv': ALL, 'svr': gr(0, 0),
    'at0': [G[0] + AT] * 2, 'at1': [G[2] + AT] * 2,
    'own': 'own',
    'names': [ZERO, ZERO, ONE, ONE, ONE, ONE],
}
CONTIGUOUS = ('sv', 'svr', 'at0', 'at1')     # only where the text is contiguous


def prove_acc(mod, i, budget):
    eng = ApiEngine(mod, False, [], deadline=time.time() + budget)
    name = '@' + i.name
    if name not in mod.funcs:
        raise Undecided('entry missing')
    # a group that took part lies in the input, one that did not is empty (both ends equal, possibly null)
    pre = []
    for j in range(3):
        lo, hi = G[2 * j], G[2 * j + 1]
        inside = z3.And(LO <= lo, lo <= hi, hi <= HI)
        pre.append(z3.Or(inside, z3.And(lo == 0, hi == 0)))
    if i.acc in ('at0', 'at1'):
        pre.append(AT < L[int(i.acc[2])])
    pre += [AT >= 0, LO > 0, LO <= HI]
    eng.cover(pre + [M], i.name)
    eng.cover(pre + [z3.Not(M), G[4] < G[5]], i.name)
    eng.stats.functions.add('basic_match_result: ' + i.acc)
    st = State({'in': {8 * j: (8, G[j]) for j in range(NS)}, 'out': {}}, tuple(pre), (), (), frozenset())
    got = Executor(mod, eng).run(name, [Ptr('in', 0), M, Ptr('out', 0), AT], st)
    if not got:
        raise Undecided('no path')
    for s2, _ in got:
        eng.flush(s2)
        out = [s2.mem['out'][o][1] for o in sorted(s2.mem['out'])]
        if any(isinstance(x, Undef) for x in out):
            raise Failure('result-defined', i.name)
        try:
            out = [Z(x) for x in out]
        except Exception:
            raise Undecided('accessor writes something unknown')
        pc = list(s2.pc)
        want = TABLE[i.acc]
        kind = 'accessor-agrees'
        if want == 'opt':
            kind = 'optional-engaged'
            eng.prove(kind, i.name, pc, out[0] == b(M))
            want = [b(M)] + ([ONE] + ALL if len(out) > 1 else [])
            if len(out) == 1:
                eng.prove(kind, i.name, pc, z3.Not(M))
        elif want == 'content':
            # an empty content may point anywhere
            if len(out) != 4:
                raise Undecided('accessor writes something unknown')
            for k in (0, 1):
                eng.prove(kind, i.name, pc, z3.And(out[2 * k + 1] == L[k], z3.Or(E[k], out[2 * k] == G[2 * k])))
            continue
        elif want == 'own':
            kind = 'owning-copy'
            if len(out) != 2 + 12 + 1:
                raise Undecided('accessor writes something unknown')
            eng.prove(kind, i.name, pc, z3.And(out[0] == b(M), out[7] == 1, out[14] == b(M)))
            for j in range(3):
                o0, o1 = out[1 + 2 * j], out[2 + 2 * j]
                eng.prove(kind, i.name, pc, z3.Or(z3.And(E[j], o0 == o1), z3.And(o0 == G[2 * j], o1 == G[2 * j + 1])))
            eng.prove(kind, i.name, pc, z3.And(*[x == y for x, y in zip(out[8:14], ALL)]))
            continue
        if len(want) != len(out):
            raise Failure(kind, i.name, 'writes %d values instead of %d' % (len(out), len(want)))
        for k, (x, y) in enumerate(zip(out, want)):
            if i.form == 'own' and any(y.eq(g) for g in G):
                # the copy of an empty group need not remember where it was
                j = [n for n in range(NS) if y.eq(G[n])][0] // 2
                eng.prove(kind, (i.name, 'value %d' % k), pc, z3.Or(x == y, E[j]))
            else:
                eng.prove(kind, (i.name, 'value %d' % k), pc, x == y)
    return eng.stats


class AccInst:
    group = 'acc'
    kind = 'acc'
    budget = 60
    pre = '#include "acc.hpp"\nusing namespace hx; using namespace meta::ast;\nusing R = meta::regex_adapter<with_groups<node<1, true>>>;\n'

    def __init__(self, acc, it, form):
        self.acc, self.it, self.form = acc, it, form
        self.name = 'acc__%s_%s__%s' % (form, acc, it)

    def cpp(self):
        return 'extern "C" void %s(raw const *in, bool matched, raw *out, std::size_t at) noexcept { auto r = %s<R, %s>(in, matched); acc_%s(r, sink{out}, at); }\n' % (
            self.name, {'view': 'view', 'own': 'owner'}[self.form], ITER[self.it], self.acc)

    def dispatch(self, mod, budget):
        return prove_acc(mod, self, budget)


class TmpInst(ApiInst):
    pre = AccInst.pre

    def cpp(self):
        return super().cpp().replace('#include "api.hpp"', '')


def instances():
    out = []
    for nm, p in (('any', N(1)), ('full', N(1, False))):
        for m in ('match', 'match_prefix', 'search'):
            for it in ITER:
                for via in ('tmp', 'ctmp'):
                    out.append(TmpInst('acc', '%s_%s_%s' % (m, via, nm), m, p, it, via))
    for acc in TABLE:
        for it in ITER:
            for form in ('view', 'own'):
                if acc in CONTIGUOUS and form == 'view' and it != 'raw':
                    continue
                if acc == 'own' and form == 'own':
                    continue
                out.append(AccInst(acc, it, form))
    return out


def pick(prop, thorough):
    if prop == 'C15':
        # which group a number or a name gives
        return [i for i in instances() if isinstance(i, AccInst) and i.acc in ('counts', 'index_l', 'index_c', 'get_l', 'get_c', 'named', 'names', 'bind_c', 'each_c')]
    return instances() if prop == 'C16' else [i for i in instances() if isinstance(i, TmpInst)] if prop in ('C09', 'C18') else []


if __name__ == '__main__':
    import sys
    import runner
    xs = [i for i in instances() if not sys.argv[1:] or any(a in i.name for a in sys.argv[1:])]
    t = time.time()
    for r in runner.run(xs, per=20):
        print(r['name'], r['status'], r.get('n'), r.get('kind', ''), str(r.get('where', ''))[:200], r.get('reason', '')[-900:], '%.1f' % r['time'], str(r.get('detail', ''))[:300])
    print(time.time() - t)
