"""Runs the proof of one harness entry."""
import time
import z3
import spec as SP
from engine import Engine, State, Ptr, UNDEF, LO, HI, P0, NS, I, Failure, Undecided, KK, SUCC, EQEND, All, Val
from symex import Executor, fresh, zbool, Z


def init_state(eng, objs=None):
    s = [z3.Const('s_in%d' % j, I) for j in range(NS)]
    mem = {'ctx': {eng.mod.layout[j]: (8, s[j]) for j in range(NS)}, 'out': {}}
    mem.update(objs or {})
    pre = [eng.inrange(P0), eng.wf(s)]
    return State(mem, tuple(pre), (), (), frozenset()), s


def prove_match(mod, entry, node, rev, empties, nonempty=False, icase=False, charpreds=(), konts=(), budget=120, kpos=True):
    """the compiled Node::match refines its specification, for every input, position, captures and continuation"""
    eng = Engine(mod, rev, empties, deadline=time.time() + budget)
    eng.strict = nonempty
    eng.icases = icase
    eng.charpreds = list(charpreds)
    eng.konts = list(konts)
    eng.kpos = kpos
    st, s = init_state(eng)
    name = '@' + entry
    if name not in mod.funcs:
        raise Undecided('entry missing: ' + entry)
    eng.cover(st.pc, entry)
    # the specification is evaluated first so that its recursive functions are available as candidates
    sp = SP.SpecEval(eng, rev)
    sp.val = node.eval(sp, P0, s, SP.top(rev))
    ex = Executor(mod, eng)
    eng.stats.functions.add(entry)
    res = ex.run(name, [eng.begin(rev), eng.endp(rev), P0, Ptr('ctx', 0), Ptr('out', 0)], st)
    if not res:
        raise Undecided('no path')
    for s2, ok in res:
        end = s2.mem['out'].get(0, (8, UNDEF))[1]
        eng.compare((entry, 'outcome'), s2, zbool(ok), end, eng.slots(s2), s, sp, P0, rev)
    return eng.stats


def const_bool(mod, name):
    ex = Executor(mod, Engine(mod))
    f = '@' + name
    if f not in mod.funcs:
        return None
    st = State({}, (), (), (), frozenset())
    r = ex.run(f, [], st)
    if len(r) != 1:
        return None
    v = z3.simplify(zbool(r[0][1]))
    return True if z3.is_true(v) else False if z3.is_false(v) else None


def prove_pred(mod, i, budget):
    """match_one accepts exactly the specified bytes"""
    eng = Engine(mod, deadline=time.time() + budget)
    st, s = init_state(eng)
    c = z3.BitVec('c', 8)
    ex = Executor(mod, eng)
    name = '@' + i.name
    if name not in mod.funcs:
        raise Undecided('entry missing')
    want = i.pat.pred(c, i.flags)
    res = ex.run(name, [c, Ptr('ctx', 0)], st)
    eng.stats.functions.add(i.pat.cpp() + '::match_one')
    for s2, v in res:
        eng.flush(s2)
        got = zbool(v)
        if eng.valid(list(s2.pc), got == want) is not True:
            ch = eng.model.eval(c, model_completion=True) if eng.model else '?'
            raise Failure('accepted-characters', i.pat.cpp(), 'byte %s' % ch)
        eng.stats.ok('accepted-characters')
    return eng.stats


def find_layout(mod, fn='@vx_layout'):
    """offsets of the begin and end of groups 0..2 in the context, by running the accessors"""
    ex = Executor(mod, Engine(mod))
    out = []
    for w in range(NS):
        tags = {8 * j: (8, z3.IntVal(7000 + j)) for j in range(NS)}
        r = ex.run(fn, [Ptr('ctx', 0), z3.BitVecVal(w, 32)], State({'ctx': tags}, (), (), (), frozenset()))
        if len(r) != 1:
            raise Undecided('layout')
        v = z3.simplify(Z(r[0][1])).as_long() - 7000
        out.append(8 * v)
    if sorted(out) != [8 * j for j in range(NS)]:
        raise Undecided('layout')
    return out


def dispatch(mod, i, budget):
    SP.Node.uid = 0
    if not hasattr(mod, 'layout'):
        mod.layout = mod.layout_f = find_layout(mod)
        mod.layout_r = find_layout(mod, '@vx_layout_r')
    mod.layout = mod.layout_r if getattr(i, 'user_rev', False) else mod.layout_f
    if hasattr(i, 'dispatch'):
        return i.dispatch(mod, budget)
    if i.kind == 'pred':
        return prove_pred(mod, i, budget)
    zl = const_bool(mod, i.name + '__z')
    if zl is None:
        raise Undecided('zero-length trait')
    pat = i.pat.mirror() if i.user_rev else i.pat
    return prove_match(mod, i.name, pat.spec(i.flags), i.rev, pat.ids(), nonempty=not zl, icase='icase' in i.flags, charpreds=pat.charpreds(i.flags), budget=budget)
