"""Contracts of the type-level functions on trees: numbering of the capturing groups, their count and names, the storage
made from them (C15), and the mirror image used inside lookbehinds (C04).

Each is defined by recursion on the tree.  Its contract is stated on every constructor with operands that are opaque
(skolem trees), or chains of capturing groups where the function looks for those; composition to every tree is induction on
its structure.  A failed obligation is turned into a pattern whose groups come out differently on the real code; without
one nothing is reported."""
import itertools
import random
import time

import parsing
import tmeta
from parsing import nt
from tmeta import alt, bts, canon, read, args, head, seq
from xprs import spelled, subst

PRELUDE = {'C15': parsing.PRELUDE + r'''
namespace hx
{
    template<typename T> using R = meta::regex_adapter<T>;
    using It = char const *;
    template<typename T> struct nms { using type = err; };
    template<typename... N> struct nms<std::tuple<meta::regex_capture_view<It, N> ...>> { using type = ts<N ...>; };
    template<typename... N> struct nms<std::tuple<meta::regex_capture<N> ...>> { using type = ts<N ...>; };
}
''', 'C04': r'''
namespace meta::ast
{
    // the mirror image of an opaque tree
    template<int N> struct invert<hx::sk<N>> { using type = hx::sk<N + 500>; };
}
'''}
MODES = 'glp'
BOUNDS = [(0, 1), (0, None), (1, None), (1, 1), (2, 2), (0, 0), (2, 5), (3, None), (12, 12)]


def chain(k, core, nm=''):
    """k nested capturing groups around a tree; the numbers they carry beforehand are arbitrary"""
    for i in range(k):
        core = ('cap', 7 + 3 * i, nm + 'xyz'[i] if nm and i % 2 == 0 else '', core)
    return core


def child(k, d):
    """trees with k capturing groups"""
    s = ('sk', 10 * d + 1)
    t = ('sk', 10 * d + 2)
    nm = 'n%d' % d
    if k == 0:
        return [s, seq([s, t]), ('lit', 97), ('empty',), ('not', ('look', 'ahead', s)), ('rep', 'g', 0, None, s)]
    out = [chain(k, s, nm), chain(k, seq([s, t]))]
    if k >= 2:
        out.append(seq([chain(1, s, nm + 'a'), chain(k - 1, t, nm)]))
        out.append(alt([chain(k - 1, s, nm), t, chain(1, ('sk', 10 * d + 3), nm + 'b')]))
        out.append(('rep', 'l', 1, None, chain(k, s)))
    if k == 1:
        out += [('look', 'ahead', chain(1, s, nm)), ('not', ('look', 'behind', chain(1, s))), ('rep', 'p', 1, 1, chain(1, s, nm)), alt([s, chain(1, t)]), seq([s, chain(1, t, nm)])]
    return out


def unary():
    out = []
    for m in MODES:
        for a, b in BOUNDS:
            out.append(lambda x, m=m, a=a, b=b: ('rep', m, a, b, x))
    for d in ('ahead', 'behind'):
        out.append(lambda x, d=d: ('look', d, x))
        out.append(lambda x, d=d: ('not', ('look', d, x)))
    for nm in ('', 'name', 'b'):
        out.append(lambda x, nm=nm: ('cap', 5, nm, x))
    return out


def shapes(r, thorough):
    """every constructor over operands with 0 to 3 groups, and pairs of constructors"""
    out = []
    kids = [c for k in range(4) for c in child(k, 0)]
    for f in unary():
        for c in kids:
            out.append(f(c))
    for f in unary()[::1 if thorough else 4] + unary()[-7:]:
        for g in unary()[::3] + unary()[-7:]:
            out.append(f(g(chain(1, ('sk', 1), 'q'))))
            out.append(f(g(seq([chain(1, ('sk', 1)), ('sk', 2), chain(2, ('sk', 3), 'w')]))))
    for mk in (lambda xs: ('seq', tuple(xs)), lambda xs: ('alt', tuple(xs))):
        for n in (1, 2, 3):
            for ks in itertools.product(range(3 if n == 3 else 4), repeat=n):
                for j in range(1 if n == 3 else 2):
                    out.append(mk([r.choice(child(k, d)) if j else child(k, d)[0] for d, k in enumerate(ks)]))
        for n in (4, 5, 6, 7, 8, 9, 12, 17):
            for _ in range(30 if n < 9 else 8):
                out.append(mk([r.choice(child(r.choice((0, 1, 1, 2, 3)), d)) for d in range(n)]))
    # under an offset: something with groups in front, something behind
    for x in r.sample(out, 400 if not thorough else len(out)):
        out.append(('seq', (chain(r.choice((1, 2)), ('sk', 301), 'pre'), x, chain(1, ('sk', 302)))))
        out.append(('alt', (('sk', 303), chain(r.choice((1, 3)), ('sk', 301)), x, chain(1, ('sk', 302), 'post'))))
        out.append(('cap', 1, '', x))
    for x in ops0():
        out.append(x)
    return out


def ops0():
    return [('lit', 97), bts({97, 99}), bts(()), ('not', bts({97})), ('empty',), ('wildcard',), ('beginning_of_line',), ('end_of_line',), ('beginning_of_input',), ('end_of_input',), ('word_boundary',), ('not', ('word_boundary',)), ('bref', 1), ('bref', 12), ('nbref', 'n')]


def number(t, o):
    """contract: groups numbered from o on in the order they open -> (tree, next number)"""
    k = t[0]
    if k == 'cap':
        x, n = number(t[3], o + 1)
        return ('cap', o, t[2], x), n
    if k in ('seq', 'alt'):
        out = []
        for x in t[1]:
            y, o = number(x, o)
            out.append(y)
        return (k, tuple(out)), o
    if k == 'rep':
        x, o = number(t[4], o)
        return t[:4] + (x,), o
    if k == 'look':
        x, o = number(t[2], o)
        return t[:2] + (x,), o
    if k == 'not':
        x, o = number(t[1], o)
        return ('not', x), o
    return t, o


def names(t):
    k = t[0]
    if k == 'cap':
        return [t[2]] + names(t[3])
    if k in ('seq', 'alt'):
        return [n for x in t[1] for n in names(x)]
    return names(t[4]) if k == 'rep' else names(t[2]) if k == 'look' else names(t[1]) if k == 'not' else []


SWAP = {'beginning_of_line': 'end_of_line', 'beginning_of_input': 'end_of_input'}
SWAP.update({v: k for k, v in SWAP.items()})


def mirror(t):
    """contract: the tree that, matched backwards, stands for t"""
    k = t[0]
    if k == 'sk':
        return ('sk', t[1] + 500)
    if k == 'seq':
        return seq([mirror(x) for x in reversed(t[1])])
    if k == 'alt':
        return alt([mirror(x) for x in t[1]])
    if k == 'rep':
        return t[:4] + (mirror(t[4]),)
    if k == 'cap':
        return t[:3] + (mirror(t[3]),)
    if k == 'look':
        # its own operand is looked at in the direction it names
        return ('look', 'behind' if t[1] == 'ahead' else 'ahead', t[2])
    if k == 'not' and t[1][0] == 'look':
        return ('not', mirror(t[1]))
    return (SWAP.get(k, k),) + t[1:]


def flat(t):
    k = t[0]
    if k in ('seq', 'alt'):
        return (seq if k == 'seq' else alt)([flat(x) for x in t[1]])
    if k == 'rep':
        return t[:4] + (flat(t[4]),)
    if k == 'cap':
        return t[:3] + (flat(t[3]),)
    if k == 'look':
        return t[:2] + (flat(t[2]),)
    return ('not', flat(t[1])) if k == 'not' else t


def tree_is(want):
    want = flat(want)

    def ck(g):
        return canon(read(g), ids=True) == want
    return ck


def value_is(v):
    return lambda g: read(g)[1][0] == v


def names_are(ns):
    """type_sequence of names"""
    return lambda g: head(read(g)) == 'meta::type_sequence' and [tmeta.name_of(x) for x in args(read(g))] == ns


def gather15(r, thorough):
    out = []
    for t in shapes(r, thorough):
        n, k = number(t, 1)
        ns = names(t)
        x = nt(t)
        out.append(('numbers', 'meta::ast::index_captures_t<%s>' % x, tree_is(n), t))
        out.append(('count', 'val<meta::ast::capture_count<%s>>' % x, value_is(k - 1), t))
        out.append(('count', 'val<R<%s>::capture_count>' % x, value_is(k - 1), t))
        out.append(('names', 'meta::ast::capture_name_spec_t<%s>' % x, names_are(ns), t))
        out.append(('storage', 'meta::regex_capture_name_spec_t<R<%s>>' % x, names_are([''] + ns), t))
        out.append(('storage', 'typename nms<meta::regex_capture_view_storage<R<%s>, It>>::type' % x, names_are([''] + ns), t))
        out.append(('storage', 'typename nms<meta::regex_capture_storage<R<%s>>>::type' % x, names_are([''] + ns), t))
        out.append(('storage', 'val<std::tuple_size_v<decltype(meta::regex_match_context<R<%s>, It>{}.captures)>>' % x, value_is(k), t))
    for t in r.sample(shapes(r, False), 120):
        # the parser numbers the tree it accepts
        n, _ = number(t, 1)
        out.append(('accepted-numbered', 'typename meta::parser<"a">::template parse_t<1, ts<%s>, ts<does<0, grammar::accept>>>' % nt(t), lambda g, n=n: canon(args(read(g))[0], ids=True) == flat(n), t))
    return out


def gather04(r, thorough):
    out = []
    for t in shapes(r, thorough) + [('seq', tuple(('sk', i) for i in range(1, n + 1))) for n in range(1, 20)] + [('alt', tuple(('sk', i) for i in range(1, n + 1))) for n in range(1, 12)]:
        out.append(('mirror', 'meta::ast::invert_t<%s>' % nt(t), tree_is(mirror(t)), t))
        if r.random() < .3:
            # mirroring twice is the identity wherever trees are not opaque
            c = subst(t, lambda i: ('lit', 97 + i % 3))
            out.append(('mirror-twice', 'meta::ast::invert_t<meta::ast::invert_t<%s>>' % nt(c), tree_is(c), t))
    return out


REAL = {'C15': ['ast::index_captures_t', 'ast::detail::capture_indexer', 'ast::detail::capture_index_offsets', 'ast::transform', 'ast::capture_count', 'ast::capture_name_spec', 'regex_capture_name_spec_t', 'regex_capture_view_storage', 'regex_capture_storage', 'regex_adapter::capture_count', 'parser::transition (accept)', 'type_sequence: push, concat'],
        'C04': ['ast::invert', 'ast::transform', 'ast::detail::to_sequence', 'type_sequence: reverse, concat']}


def prove(prop, tier, seed, jobs):
    thorough = tier == 'thorough'
    t0 = time.time()
    nm = {'C15': 'groups', 'C04': 'mirror'}[prop]
    base = dict(queries=0, solver_s=0.0, lemmas=0, invariants=(), real=REAL[prop])
    out = []
    try:
        with tmeta.Eval(PRELUDE[prop], jobs) as ev:
            r = random.Random(7)
            obs = (gather15 if prop == 'C15' else gather04)(r, thorough)
            got = ev([q for _, q, _, _ in obs])
            kinds, bad = {}, {}
            for (k, q, ck, t), g in zip(obs, got):
                kinds[k] = kinds.get(k, 0) + 1
                try:
                    ok = not isinstance(g, tmeta.Fail) and ck(g)
                except (ValueError, KeyError, IndexError, TypeError):
                    ok = False
                if not ok:
                    bad.setdefault(k, []).append((q, g, t))
            nbad = sum(map(len, bad.values()))
            out.append(dict(base, name=nm, group=nm, n=len(obs) - nbad, kinds=kinds, queries=ev.n, status='proved', time=time.time() - t0, lemmas=1))
            if bad:
                ws = witnesses(prop, bad, seed, jobs)
                for k, bs in bad.items():
                    q, g, t = bs[0]
                    x = dict(base, name='%s: %s' % (nm, k), group=nm, kind=k, where=q[:200], detail='%s gives %s' % (q[:400], str(g)[:300]), n=0, time=0, found=ws.get(k, []))
                    x['status'] = 'failed' if ws.get(k) else 'undecided'
                    if not ws.get(k):
                        x['reason'] = 'differs from the contract, but no pattern was found that shows it: ' + x['detail'][:300]
                    out.append(x)
    except tmeta.Fail as e:
        out.append(dict(base, name=nm, group=nm, n=0, kinds={}, status='undecided', reason='cannot be evaluated on this tree: %s' % str(e)[:300], time=time.time() - t0))
    return out


CONC = [[('lit', 97), ('lit', 98), ('lit', 99)], [('lit', 97), ('rep', 'g', 0, 1, ('lit', 98)), ('lit', 99)], [('rep', 'l', 0, 2, ('lit', 97)), ('wildcard',), ('lit', 98)], [alt([('lit', 97), ('seq', (('lit', 97), ('lit', 98)))]), ('lit', 98)]]


def rename(t, used):
    """distinct names"""
    k = t[0]
    if k == 'cap':
        nm = t[2]
        while nm and nm in used:
            nm += 'q'
        used.add(nm)
        return ('cap', t[1], nm, rename(t[3], used))
    if k in ('seq', 'alt'):
        return (k, tuple(rename(x, used) for x in t[1]))
    if k == 'rep':
        return t[:4] + (rename(t[4], used),)
    if k == 'look':
        return t[:2] + (rename(t[2], used),)
    return ('not', rename(t[1], used)) if k == 'not' else t


def patterns(prop, t, r, n):
    """concrete patterns around a shape -> (pattern, tree)"""
    out = []
    for k in range(3 * n):
        c = r.choice(CONC)
        o = r.randrange(3)
        x = subst(t, lambda i: c[(i + o) % len(c)])
        if prop == 'C04':
            b = ('look', 'behind', x)
            x = r.choice((b, seq([b, ('lit', r.choice((97, 98)))]), seq([('rep', 'g', 0, 3, ('wildcard',)), b]), ('not', b), seq([('not', b), ('wildcard',)])))
        else:
            x = r.choice((x, x, seq([x, ('lit', 97)]), seq([('rep', 'g', 0, 2, ('wildcard',)), x])))
        x = number(flat(rename(x, set())), 1)[0]
        s = spelled(x)
        if s is not None and number(x, 1)[1] <= 12 and len(s) < 90:
            out.append((s, x, None, None))
            if len(out) >= n:
                break
    return out


def witnesses(prop, bad, seed, jobs):
    import confirm
    r = random.Random(seed)
    out = {}
    for k, bs in bad.items():
        bs = sorted(bs, key=lambda b: len(b[0]))
        its = []
        for q, g, t in bs[:4] + (r.sample(bs[4:], min(25, len(bs) - 4)) if len(bs) > 4 else []):
            its += patterns(prop, t, r, 4)
        out[k] = named(its, jobs) if prop == 'C15' else confirm.confirm(its, jobs, flagsets=((), ('multiline',)))
    return out


def named(its, jobs):
    """patterns with named groups are also read by name"""
    import confirm
    import refparse
    f = confirm.confirm(its, jobs)
    if f:
        return f[:10]
    hows = {}
    for s, *_ in its:
        ns = refparse.parse(s)[2]
        if ns:
            hows[s] = 'named:' + ', '.join('nm<"%s", %d>' % x for x in ns.items())
    return confirm.confirm([x for x in its if x[0] in hows], jobs, how=hows)[:10]


def bounded(prop, tier, seed, jobs):
    r = random.Random(seed)
    import confirm
    ss = [t for t in shapes(r, False) if confirm.bounds(t) <= 3]
    n = 150 if tier == 'quick' else 1200
    its = [x for t in r.sample(ss, min(n, len(ss))) for x in patterns(prop, t, r, 1)]
    its = list({x[0]: x for x in its}.values())
    return len(its), named(its, jobs) if prop == 'C15' else confirm.confirm(its, jobs)


if __name__ == '__main__':
    import sys
    for r in prove(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', 1, 8):
        print({k: v for k, v in r.items() if k not in ('real',)})
