"""Contracts of the expression components (C17).

Every component, operator and flag helper is a type-level function from the trees of its operands to a tree.  Its contract
says which: concatenation, alternation, repetition with the given bounds and mode, and so on, on every operand.  Operands
are skolem trees and every constructor a component could look at (sequences, alternations, literals, ...), in all positions
and numbers up to 6.  A failed obligation is turned into an expression that matches differently from the pattern string it
spells out; without one nothing is reported."""
import itertools
import random
import time

import tmeta
from parsing import nt, sk
from tmeta import bts, canon, read, alt, seq

PRELUDE = r'''
#include <type_traits>
namespace hx
{
    template<typename R> using ast_t = typename std::remove_cvref_t<R>::ast_type;
    template<typename R> struct fl
    {
        using F = typename std::remove_cvref_t<R>::flags;
        static constexpr int v = (F::icase ? 1 : 0) + (F::dotall ? 2 : 0) + (F::multiline ? 4 : 0) + (F::ungreedy ? 8 : 0) + (F::unroll ? 16 : 0);
    };
    template<typename... T> using ts = meta::type_sequence<T ...>;
    using namespace meta::xpr::operators;
}
'''
FLAGS = ('icase', 'dotall', 'multiline', 'ungreedy', 'unroll')
MODE = {'g': 'meta::match_mode::greedy', 'l': 'meta::match_mode::lazy', 'p': 'meta::match_mode::possessive'}


def operand(t):
    return 'meta::regex_adapter<%s>{}' % nt(t)


class Helper:
    def __init__(self, name, cpp, want, lo=1, hi=6, group='component'):
        self.name, self.cpp, self.want, self.lo, self.hi, self.group = name, cpp, want, lo, hi, group


def helpers():
    out = []

    def call(f):
        return lambda xs: 'meta::xpr::%s(%s)' % (f, ', '.join(xs))

    def pack(f):
        return lambda ts: f(ts[0] if len(ts) == 1 else seq(ts))

    def rep(m, a, b):
        return pack(lambda x: ('rep', m, a, b, x))
    out.append(Helper('concat', call('concat'), seq))
    out.append(Helper('either', call('either'), alt))
    out.append(Helper('operator>>', lambda xs: '(%s)' % ' >> '.join(xs), seq, lo=2, group='operator'))
    out.append(Helper('operator|', lambda xs: '(%s)' % ' | '.join(xs), alt, lo=2, group='operator'))
    out.append(Helper('atomic', call('atomic'), rep('p', 1, 1)))
    for i in (1, 2, 3, 10, 99, 100):
        out.append(Helper('capture<%d>' % i, call('capture<%d>' % i), pack(lambda x, i=i: ('cap', i, '', x))))
        for nm in ('a', 'name_9', 'Zz'):
            out.append(Helper('capture<%d, %s>' % (i, nm), call('capture<%d, "%s">' % (i, nm)), pack(lambda x, i=i, nm=nm: ('cap', i, nm, x))))
    B = [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (2, 3), (1, 9), (3, 3), (3, 12), (0, 70), (65, 65), (64, 129), (100, 300)]
    for m in ('', 'g', 'l', 'p'):
        mm = ', ' + MODE[m] if m else ''
        m1 = '<%s>' % MODE[m] if m else ''
        k = m or 'g'
        for a, b in B:
            out.append(Helper('between<%d, %d%s>' % (a, b, mm), call('between<%d, %d%s>' % (a, b, mm)), rep(k, a, b)))
        for a in (0, 1, 2, 3, 4, 12, 65, 100):
            out.append(Helper('at_least<%d%s>' % (a, mm), call('at_least<%d%s>' % (a, mm)), rep(k, a, None)))
            out.append(Helper('exactly<%d%s>' % (a, mm), call('exactly<%d%s>' % (a, mm)), rep(k, a, a)))
        out.append(Helper('zero_or_more' + m1, call('zero_or_more' + m1), rep(k, 0, None)))
        out.append(Helper('one_or_more' + m1, call('one_or_more' + m1), rep(k, 1, None)))
        out.append(Helper('maybe' + m1, call('maybe' + m1), rep(k, 0, 1)))
    out.append(Helper('ahead', call('ahead'), pack(lambda x: ('look', 'ahead', x))))
    out.append(Helper('behind', call('behind'), pack(lambda x: ('look', 'behind', x))))
    out.append(Helper('negate', call('negate'), lambda ts: ('not', ts[0]), hi=1))
    out.append(Helper('operator!', lambda xs: '(!%s)' % xs[0], lambda ts: ('not', ts[0]), hi=1, group='operator'))
    out.append(Helper('operator*', lambda xs: '(*%s)' % xs[0], lambda ts: ('rep', 'g', 0, None, ts[0]), hi=1, group='operator'))
    out.append(Helper('operator+', lambda xs: '(+%s)' % xs[0], lambda ts: ('rep', 'g', 1, None, ts[0]), hi=1, group='operator'))
    return out


def ops(d=0):
    """operands, over skolems of their own"""
    a, b, c = ('sk', 1 + 3 * d), ('sk', 2 + 3 * d), ('sk', 3 + 3 * d)
    return [a, seq([a, b]), alt([a, b]), ('lit', 97 + d), seq([a, b, c]), alt([a, b, c]), ('seq', (('lit', 97), ('lit', 98 + d))), ('rep', 'g', 0, None, a), ('rep', 'l', 1, 2, a), ('rep', 'p', 2, 2, a), ('rep', 'p', 1, 1, seq([a, b])), ('rep', 'g', 2, 2, a), ('rep', 'l', 3, 3, a),
            ('cap', 1, '', a), ('cap', 2, 'n', alt([a, b])), ('look', 'ahead', a), ('look', 'behind', seq([a, b])), ('not', ('look', 'ahead', a)), ('not', ('sk', 1001 + d)), ('sk', 1005 + d), bts(tmeta.RANGE['digit']), bts(tmeta.RANGE['word']), bts({98, 120}), bts(()), ('not', bts({97, 99})), ('empty',), ('wildcard',), ('beginning_of_line',), ('end_of_line',), ('beginning_of_input',), ('end_of_input',), ('word_boundary',), ('not', ('word_boundary',)), ('bref', 1), ('nbref', 'n')]


MAIN = 7        # of these, all combinations


def calls(h, r, thorough):
    """operand lists a helper is examined on"""
    if h.lo <= 1:
        for x in ops():
            if 'negate' not in h.name and h.name != 'operator!' or x[0] in ('lit', 'bytes', 'look', 'word_boundary', 'wildcard') or x[0] == 'sk' and x[1] > 1000:
                yield [x]
    if h.hi >= 2:
        flat = h.name in ('concat', 'either', 'operator>>', 'operator|')
        n = len(ops()) if flat else MAIN
        for x in ops()[:n]:
            for y in ops(1)[:n]:
                yield [x, y]
        k = 4 if flat or thorough else 3
        for c in itertools.product(*[ops(d)[:k] for d in range(3)]):
            yield list(c)
        for n in range(4, h.hi + 1):
            for _ in range(40 if flat else 4):
                yield [r.choice(ops(d)[:r.choice((4, MAIN, 30))]) for d in range(n)]
            yield [ops(d)[0] for d in range(n)]


TERMINALS = {'empty': ('empty',), 'nothing': bts(()), 'begin_line': ('beginning_of_line',), 'end_line': ('end_of_line',), 'begin_input': ('beginning_of_input',), 'end_input': ('end_of_input',), 'word_boundary': ('word_boundary',), 'wildcard': ('wildcard',),
             'whitespace': bts(tmeta.RANGE['space']), 'lower': bts(tmeta.RANGE['lower']), 'upper': bts(tmeta.RANGE['upper']), 'digit': bts(tmeta.RANGE['digit']), 'word': bts(tmeta.RANGE['word']), 'linebreak': bts(tmeta.RANGE['lbrk'])}
PATS = ['', 'a', 'ab', 'a|b', '(a)|b', '(?<n>a)(b)\\2\\k<n>', '(?:ab|b)+?', 'a{2,3}+', '[^a-c]', '(?<=a)b', '(?!a)', '\\bw\\B', '^a$', '.*\\d', 'a(b(c)|d)*', '(?>a|ab)']


def terminals(r, thorough):
    """-> (name, C++ expression, tree)"""
    for n, t in TERMINALS.items():
        yield n, 'meta::xpr::' + n, t
    for c in range(256):
        yield 'chr', 'meta::xpr::chr<%s>' % tmeta.cch(c), ('lit', c)
        # a character by which strings could go wrong
        yield 'str', 'meta::xpr::str<%s>' % tmeta.cstr('x' + chr(c)), ('seq', (('lit', 120), ('lit', c)))
        yield 'str', 'meta::xpr::str<%s>' % tmeta.cstr(chr(c)), ('lit', c)
    for n in (3, 4, 5, 8, 9, 16, 17, 33, 65, 130, 300):
        s = [r.randrange(1, 256) for _ in range(n)]
        yield 'str', 'meta::xpr::str<%s>' % tmeta.cstr(''.join(map(chr, s))), ('seq', tuple(('lit', c) for c in s))
    for a in (0, 9, 47, 48, 57, 65, 90, 97, 122, 127):
        for b in (0, 9, 48, 57, 65, 90, 97, 122, 127):
            if a <= b:
                yield 'range', 'meta::xpr::range<%s, %s>' % (tmeta.cch(a), tmeta.cch(b)), ('lit', a) if a == b else bts(range(a, b + 1))
    for i in list(range(1, 12)) + [42, 99, 100, 1000]:
        yield 'group', 'meta::xpr::group<%d>' % i, ('bref', i)
    for s in ('a', 'n', 'name_9', 'Zz', 'a_long_name_with_many_characters_0123456789'):
        yield 'group_named', 'meta::xpr::group_named<"%s">' % s, ('nbref', s)


def try_canon(g):
    """canonical tree of a printed type, or the reason there is none"""
    if isinstance(g, tmeta.Fail):
        return None, str(g)
    try:
        return canon(read(g), ids=True), g
    except (ValueError, KeyError, IndexError) as e:
        return None, '%s: %s' % (e, g)


# ---- concrete expressions

CONC = [[('lit', 97)], [('lit', 97), ('lit', 98)], [alt([('lit', 97), ('seq', (('lit', 97), ('lit', 98)))]), ('lit', 98)], [('rep', 'g', 0, None, ('lit', 97)), ('lit', 97)], [alt([('seq', (('lit', 97), ('lit', 98))), ('lit', 97)]), alt([('lit', 98), ('seq', (('lit', 98), ('lit', 97)))])], [('rep', 'l', 0, 2, ('lit', 97)), ('rep', 'g', 1, None, ('lit', 98)), ('lit', 97)], [seq([('lit', 97), ('lit', 98)]), alt([('lit', 97), ('lit', 98)])], [('rep', 'g', 1, 2, ('lit', 97)), ('wildcard',)]]


def subst(t, f):
    k = t[0]
    if k == 'sk':
        return f(t[1])
    if k == 'seq':
        return seq([subst(x, f) for x in t[1]])
    if k == 'alt':
        return alt([subst(x, f) for x in t[1]])
    if k == 'rep':
        return t[:4] + (subst(t[4], f),)
    if k == 'cap':
        return t[:3] + (subst(t[3], f),)
    if k == 'look':
        return t[:2] + (subst(t[2], f),)
    if k == 'not':
        return ('not', subst(t[1], f))
    return t


PLAIN = {'empty': '(?:)', 'wildcard': '.', 'beginning_of_line': '^', 'end_of_line': '$', 'beginning_of_input': '\\A', 'end_of_input': '\\Z', 'word_boundary': '\\b'}


def esc(c):
    return chr(c) if chr(c).isalnum() and c < 128 else '\\x%02x' % c


def items(s):
    """set items for the bytes s, runs as ranges"""
    s, out = sorted(s), ''
    i = 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        out += esc(s[i]) if j == i else esc(s[i]) + ('-' if j > i + 1 else '') + esc(s[j])
        i = j + 1
    return out


def text(t, ctx=0):
    """canonical tree -> a pattern string that spells it; None where there is none"""
    k = t[0]
    if k == 'lit':
        return esc(t[1])
    if k in PLAIN:
        return PLAIN[k] if ctx < 2 or k in ('wildcard', 'empty') else '(?:%s)' % PLAIN[k]
    if k == 'bytes':
        return None if t[2] else '[%s]' % items(t[1])
    if k == 'bref':
        return '(?:\\%d)' % t[1]
    if k == 'nbref':
        return '\\k<%s>' % t[1]
    if k == 'not':
        x = t[1]
        if x[0] == 'bytes':
            return None if x[2] else '[^%s]' % items(x[1])
        if x[0] == 'lit':
            return '[^%s]' % esc(x[1])
        if x[0] == 'word_boundary':
            return '\\B' if ctx < 2 else '(?:\\B)'
        if x[0] == 'look':
            y = text(x[2])
            return None if y is None else '(?%s!%s)' % ('<' if x[1] == 'behind' else '', y)
        return None
    if k in ('seq', 'alt'):
        xs = [text(x, 1 if k == 'seq' else 0) for x in t[1]]
        if None in xs or not xs:
            return None
        s = ('' if k == 'seq' else '|').join(xs)
        return s if ctx == 0 else '(?:%s)' % s
    if k == 'rep':
        s = text(t[4], 2)
        if s is None:
            return None
        a, b = t[2], t[3]
        q = {(0, None): '*', (1, None): '+', (0, 1): '?'}.get((a, b)) or ('{%d}' % a if a == b else '{%d,%s}' % (a, '' if b is None else b))
        s += q + {'g': '', 'l': '?', 'p': '+'}[t[1]]
        return s if ctx < 2 else '(?:%s)' % s
    if k == 'cap':
        s = text(t[3])
        return None if s is None else '(%s%s)' % ('?<%s>' % t[2] if t[2] else '', '' if s == '(?:)' else s)
    if k == 'look':
        s = text(t[2])
        return None if s is None else '(?%s=%s)' % ('<' if t[1] == 'behind' else '', s)
    return None


def spelled(t):
    """pattern of the tree, if parsing it gives the tree back"""
    import refparse
    s = text(t)
    if s is None:
        return None
    try:
        p = refparse.Parser(s).parse()
    except (refparse.Bad, refparse.Unsupported):
        return None
    return s if tmeta.loose(tmeta.of_ref(p, ids=True)) == tmeta.loose(t) else None


def concrete(h, shapes, r, n):
    """concrete uses of a helper -> (pattern, tree, None, expression)"""
    out = []
    for k in range(4 * n):
        # first operands that can match in several ways, in a context that asks for another way
        c = CONC[(2, 2, 4, 3)[k]] if k < 4 else CONC[k % len(CONC)] if k < len(CONC) + 4 else r.choice(CONC)
        o = r.randrange(3) if k > 3 else 0
        args = [subst(x, lambda i: c[(i + o) % len(c)]) for x in shapes]
        want = h.want(args)
        e = h.cpp([operand(a) for a in args])
        form = k % 5 if k > 3 else 1
        L = ('lit', r.choice((97, 98)) if k > 3 else 97 + k % 2)
        lx = operand(L)
        if form == 1:
            want, e = seq([want, L]), 'meta::xpr::concat(%s, %s)' % (e, lx)
        elif form == 2:
            want, e = seq([L, want, ('lit', 98)]), 'meta::xpr::concat(%s, %s, %s)' % (lx, e, operand(('lit', 98)))
        elif form == 3:
            want, e = ('rep', 'g', 1, 2, want), 'meta::xpr::between<1, 2>(%s)' % e
        elif form == 4 and want[0] != 'alt':
            want, e = alt([want, L]), 'meta::xpr::either(%s, %s)' % (e, lx)
        s = spelled(want)
        if s is not None:
            out.append((s, want, None, e.replace('ast::', 'meta::ast::').replace('symbol::', 'meta::symbol::').replace(' match_mode::', ' meta::match_mode::').replace('<match_mode::', '<meta::match_mode::').replace('lookaround_direction::', 'meta::lookaround_direction::')))
        if len(out) >= n:
            break
    return out


# ---- the check

REAL = ['xpr::concat', 'xpr::either', 'xpr::atomic', 'xpr::capture', 'xpr::between', 'xpr::at_least', 'xpr::exactly', 'xpr::zero_or_more', 'xpr::one_or_more', 'xpr::maybe', 'xpr::ahead', 'xpr::behind', 'xpr::negate', 'xpr::str', 'xpr::chr', 'xpr::range', 'xpr::group', 'xpr::group_named', 'xpr::regex', 'xpr terminals',
        'xpr::operators::operator>>', 'xpr::operators::operator|', 'xpr::operators::operator!', 'xpr::operators::operator*', 'xpr::operators::operator+', 'xpr::add_flags', 'xpr::clear_flags', 'xpr::flat_wrap_sequence', 'xpr::pack_sequence', 'xpr::to_sequence', 'xpr::to_regex', 'xpr::detail::flatten', 'regex_adapter::add_flags', 'regex_adapter::clear_flags', 'regex', 'ast_of']


def subsets():
    return [[f for i, f in enumerate(FLAGS) if m >> i & 1] for m in range(32)]


def bits(fs):
    return sum(1 << FLAGS.index(f) for f in set(fs))


def gather(seed, thorough):
    """obligations: (kind, name, query, check(printed) -> (ok, text), witness data)"""
    r = random.Random(7)
    out = []
    for h in helpers():
        for shapes in calls(h, r, thorough):
            want = h.want(shapes)
            out.append((h.group, h.name, 'ast_t<decltype(%s)>' % h.cpp([operand(x) for x in shapes]), want, (h, shapes)))
    for n, e, t in terminals(r, thorough):
        out.append(('terminal', n, 'ast_t<decltype(%s)>' % e, t, (e,)))
    same = []
    rf = lambda fs: ', '.join('regex_flag::' + f for f in fs)
    base = ('meta::regex_adapter<sk<1>%s>', 'meta::regex_adapter<meta::ast::alternation<sk<1>, sk<2>>%s>')
    for a in subsets():
        for b in subsets():
            t = base[0] % (', ' + rf(a) if a else '')
            same.append(('add_flags', 'fl<%s>::v' % ('decltype(meta::xpr::add_flags<%s>(%s{}))' % (rf(b), t)), bits(a + b), (a, b)))
            same.append(('add_flags', 'fl<%s>::v' % ('typename %s::template add_flags<%s>' % (t, rf(b))), bits(a + b), (a, b)))
        for t0 in base:
            t = t0 % (', ' + rf(a) if a else '')
            same.append(('flags', 'fl<%s>::v' % t, bits(a), (a, [])))
            same.append(('clear_flags', 'fl<decltype(meta::xpr::clear_flags(%s{}))>::v' % t, 0, (a, None)))
            same.append(('clear_flags', 'fl<typename %s::clear_flags>::v' % t, 0, (a, None)))
        same.append(('regex flags', 'fl<meta::regex<"a%s">>::v' % ('", ' + rf(a) + 'X' if a else '"X'), bits(a), (a, [])))
    same = [(k, q.replace('X">>', '>>').replace('X>>', '>>'), w, d) for k, q, w, d in same]
    eq = []
    for a in subsets():
        for t0 in base:
            t = t0 % (', ' + rf(a) if a else '')
            inner = t0[t0.index('<') + 1:-3]
            for b in ([], ['icase'], ['ungreedy', 'unroll']):
                eq.append(('flags keep the tree', 'ast_t<decltype(meta::xpr::add_flags<%s>(%s{}))>' % (rf(b), t), inner))
            eq.append(('flags keep the tree', 'ast_t<decltype(meta::xpr::clear_flags(%s{}))>' % t, inner))
    for p in PATS:
        s = tmeta.cstr(p)
        eq.append(('regex', 'ast_t<decltype(meta::xpr::regex<%s>)>' % s, 'meta::ast_of<%s>' % s))
        eq.append(('regex', 'ast_t<meta::regex<%s>>' % s, 'meta::ast_of<%s>' % s))
        eq.append(('regex', 'ast_t<meta::regex<%s, regex_flag::icase, regex_flag::unroll>>' % s, 'meta::ast_of<%s>' % s))
        eq.append(('regex', 'meta::ast_of<%s>' % s, 'typename meta::parser<%s>::ast_type' % s))
    return out, same, eq


def prove(prop, tier, seed, jobs):
    thorough = tier == 'thorough'
    t0 = time.time()
    base = dict(queries=0, solver_s=0.0, lemmas=0, invariants=(), real=REAL)
    out = []
    try:
        with tmeta.Eval(PRELUDE, jobs) as ev:
            trees, same, eq = gather(seed, thorough)
            qs = [t[2] for t in trees] + ['val<%s>' % s[1] for s in same] + [e[1] for e in eq] + [e[2] for e in eq]
            got = ev(qs)
            n, kinds, bad = len(trees) + len(same) + len(eq), {}, {}

            def no(kind, nm, q, want, txt, data):
                bad.setdefault((kind, nm), []).append((q, want, txt, data))
            for (k, nm, q, want, data), g in zip(trees, got):
                kinds[k] = kinds.get(k, 0) + 1
                c, txt = try_canon(g)
                if c is None or tmeta.loose(c) != tmeta.loose(want):
                    no(k, nm, q, tmeta.show(want), txt if c is None else tmeta.show(c), data)
            i = len(trees)
            for (k, q, want, data), g in zip(same, got[i:]):
                kinds[k] = kinds.get(k, 0) + 1
                v = None if isinstance(g, tmeta.Fail) else read(g)[1][0]
                if v != want:
                    no('flags', k, q, want, str(g)[:300], ('flags',) + tuple(data))
            i += len(same)
            for (k, q, w), g, h in zip(eq, got[i:], got[i + len(eq):]):
                kinds[k] = kinds.get(k, 0) + 1
                if isinstance(g, tmeta.Fail) or g != h:
                    no('same-tree', k, q, str(h)[:200], str(g)[:300], None)
            nbad = sum(map(len, bad.values()))
            out.append(dict(base, name='expressions', group='xpr', n=n - nbad, kinds=kinds, queries=ev.n, status='proved', time=time.time() - t0, lemmas=1))
            if bad:
                wit = witnesses(bad, seed, jobs)
                for (k, nm), bs in bad.items():
                    q, want, txt, data = bs[0]
                    ws = wit.get((k, nm), [])
                    x = dict(base, name='expression: %s' % nm, group='xpr', kind=k, where=nm, detail='%s: expected %s, got %s' % (q[:300], want, str(txt)[:300]), n=0, time=0, found=ws)
                    x['status'] = 'failed' if ws else 'undecided'
                    if not ws:
                        x['reason'] = 'differs from the contract, but no expression was found that matches differently: ' + x['detail'][:300]
                    out.append(x)
    except tmeta.Fail as e:
        out.append(dict(base, name='expressions', group='xpr', n=0, kinds={}, status='undecided', reason='the components cannot be evaluated on this tree: %s' % str(e)[:300], time=time.time() - t0))
    return out


def witnesses(bad, seed, jobs):
    import confirm
    import difftest
    import pools
    r = random.Random(seed)
    out, t0, plan = {}, time.time(), {}
    for key, bs in bad.items():
        its, cs = [], []
        bs = sorted(bs, key=lambda b: len(b[0]))
        for q, want, txt, data in bs[:3] + (r.sample(bs[3:], min(len(bs) - 3, 20)) if len(bs) > 3 else []):
            if data is None:
                continue
            if isinstance(data[0], Helper):
                its += concrete(data[0], data[1], r, 6)
            elif data[0] == 'flags':
                a, b = data[1], data[2]
                for p, e in (('.(?:ab|a)+?(?:^b|$)', 'meta::regex<".(?:ab|a)+?(?:^b|$)"%s>{}'), ('a{2,3}', 'meta::regex<"a{2,3}"%s>{}')):
                    e = e % ''.join(', meta::regex_flag::' + f for f in a)
                    e = 'meta::xpr::clear_flags(%s)' % e if b is None else e if not b else 'meta::xpr::add_flags<%s>(%s)' % (', '.join('meta::regex_flag::' + f for f in b), e)
                    c = pools.Case(p, flags=(), alphabet='aAb\n', maxlen=4, expr=e)
                    c.bits = lambda fs=[] if b is None else a + b: sum(pools.FL[f] for f in set(fs))
                    cs.append(c)
            else:
                t = [x for x in terminals(random.Random(7), True) if x[1] == data[0]]
                for _, e, tree in t[:1]:
                    for w, x in ((tree, e), (seq([tree, ('lit', 97)]), 'meta::xpr::concat(%s, %s)' % (e, operand(('lit', 97)).replace('ast::', 'meta::ast::')))):
                        if spelled(w):
                            its.append((spelled(w), w, None, x))
        seen = set()
        plan[key] = [i for i in its if not (i[3] in seen or seen.add(i[3]))], cs[:30]
    # in rounds over all the components that differ, a few expressions of each at a time
    done = {k: 0 for k in plan}
    for size in (4, 8, 16, 32):
        its = [(key, i) for key, (its, cs) in plan.items() for i in its[done[key]:done[key] + size]][:240]
        cs = [(key, c) for key, (i, cs) in plan.items() for c in cs[:size]][:120]
        for key in plan:
            done[key] += size
        f = confirm.confirm([i for _, i in its], jobs) if its else []
        own = {i[3]: key for key, i in its}
        for x in f:
            if x.get('expression') in own:
                out.setdefault(own[x['expression']], []).append(x)
        if cs:
            d = difftest.run([c for _, c in cs], jobs)
            for m in d['mismatches'][:20]:
                out.setdefault(cs[m['case']][0], []).append(dict(difftest.describe(cs[m['case']][1], m), kind='match'))
        if out or time.time() - t0 > 250 or not (its or cs):
            break
    return {k: v[:10] for k, v in out.items()}


def bounded(prop, tier, seed, jobs):
    """every component on concrete operands, run against the pattern it spells"""
    import confirm
    r = random.Random(seed)
    its = []
    for h in helpers():
        small = all(int(x) < 5 for x in __import__('re').findall(r'\d+', h.name.replace('name_9', '')))
        if not small:
            continue
        for _ in range(2 if tier == 'quick' else 8):
            n = r.choice([k for k in (1, 1, 2, 2, 3, 4) if h.lo <= k <= h.hi])
            its += concrete(h, [r.choice(ops(d)[:r.choice((1, 4, MAIN))]) for d in range(n)], r, 1)
    its = [x for x in its if len(x[0]) < 70]
    return len(its), confirm.confirm(its, jobs)


if __name__ == '__main__':
    import sys
    for r in prove('C17', sys.argv[1] if len(sys.argv) > 1 else 'quick', 1, 8):
        print({k: v for k, v in r.items() if k not in ('real',)})
