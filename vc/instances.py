"""The instances under proof: pattern node x iterator kind x flags, by group."""
from pat import *

ITERS = {
    'raw': ('raw', 'raw', False),
    'fwd': ('fwd', 'fwd', False),
    'bidi': ('bidi', 'bidi', False),
    'rraw': ('std::reverse_iterator<raw>', 'raw', True),
    'rnd': ('rnd', 'rnd', False),
    # input given by reverse iterators: the text is read from its end, by a pattern that is not mirrored
    'urev': ('std::reverse_iterator<raw>', 'std::reverse_iterator<raw>', True),
    'rbidi': ('std::reverse_iterator<bidi>', 'bidi', True),
}


class Inst:
    def __init__(self, group, name, pat, it, flags=(), budget=60, extra=''):
        self.extra = extra
        self.group, self.pat, self.it, self.flags, self.budget = group, pat, it, tuple(flags), budget
        self.name = '%s__%s__%s%s' % (group, name, it, ''.join('_' + f for f in flags))
        self.kind = 'match'

    @property
    def rev(self):
        return ITERS[self.it][2]

    @property
    def user_rev(self):
        return self.it == 'urev'

    def node_type(self):
        t = self.pat.cpp()
        return 'meta::ast::invert_t<%s>' % t if self.rev and not self.user_rev else t

    def cpp(self):
        it, base, rev = ITERS[self.it]
        fl = ''.join(', meta::regex_flag::' + f for f in self.flags)
        return ('typedef %s T_%s;\nextern "C" bool %s(raw b, raw e, raw c, context<%s%s> *ctx, raw *out) noexcept { return run<T_%s, %s>(b, e, c, ctx, out); }\n'
                'extern "C" bool %s__z() noexcept { return is_zero_length_matcher<T_%s>; }\n') % (
            self.node_type(), self.name, self.name, base, fl, self.name, it, self.name, self.name)


class PredInst:
    """match_one of a single-character construct, for all 256 bytes"""

    def __init__(self, group, name, pat, flags=()):
        self.group, self.pat, self.flags = group, pat, tuple(flags)
        self.name = '%s__%s__one%s' % (group, name, ''.join('_' + f for f in flags))
        self.kind = 'pred'
        self.extra = ''
        self.budget = 20

    def cpp(self):
        fl = ''.join(', meta::regex_flag::' + f for f in self.flags)
        return 'extern "C" bool %s(char c, context<raw%s> *ctx) noexcept { return %s::match_one(c, *ctx); }\n' % (self.name, fl, self.pat.cpp())


FLAGS = ('icase', 'dotall', 'multiline', 'ungreedy', 'unroll')
ALL = ('raw', 'fwd', 'bidi', 'rraw')
BACK = ('raw', 'bidi', 'rraw', 'rbidi')


def build(thorough=False):
    out = []

    def add(group, name, pat, its=ALL, flags=((),), budget=60):
        for it in its:
            for fl in flags:
                out.append(Inst(group, name, pat, it, fl, budget))
        # the same on other kinds of input, and under flags that must not matter to this node
        for it in ('rnd', 'urev'):
            if 'raw' in its:
                out.append(Inst(group, name, pat, it, (), budget, 'iter'))
        if 'raw' in its:
            for fl in [(f,) for f in FLAGS] + [FLAGS]:
                if fl not in flags:
                    out.append(Inst(group, name, pat, 'raw', fl, budget, 'flag'))

    known = set()

    def big(group, name, pat, flags=(), its=('raw', 'fwd', 'rraw')):
        for it in its:
            for fl in [()] + list(flags if it == 'raw' else ()):
                i = Inst(group, name, pat, it, fl, 60, 'big')
                if i.name not in known:
                    known.add(i.name)
                    out.append(i)
    n1, n2, n3, n4, n5 = [N(i) for i in range(1, 6)]
    m1 = N(1, False)
    m2 = N(2, False)
    c1, c2, c3, c4, c5 = [C(i) for i in range(1, 6)]
    nn, cc = [n1, n2, n3, n4, n5], [c1, c2, c3, c4, c5]
    # ---- concatenation and alternation
    for k in range(1, 6):
        add('seq', 'n%d' % k, SEQ(*nn[:k]))
        add('seq', 'c%d' % k, SEQ(*cc[:k]), ALL + ('rbidi',))
        add('alt', 'n%d' % k, ALT(*nn[:k]))
        add('alt', 'c%d' % k, ALT(*cc[:k]))
    add('seq', 'cn', SEQ(c1, n1))
    add('seq', 'nc', SEQ(n1, c1))
    add('seq', 'ncn', SEQ(n1, c1, n2))
    add('seq', 'cnc', SEQ(c1, n1, c2))
    add('seq', 'ccn', SEQ(c1, c2, n1))
    add('seq', 'ncc', SEQ(n1, c1, c2))
    add('seq', 'mn', SEQ(m1, n2))
    add('seq', 'nm', SEQ(n1, m2))
    add('seq', 'ne', SEQ(n1, EMPTY()))
    add('seq', 'empty', EMPTY())
    add('seq', 'nested', SEQ(SEQ(n1, n2), SEQ(c1, n3)))
    add('alt', 'cn', ALT(c1, n1))
    add('alt', 'nc', ALT(n1, c1))
    add('alt', 'cnc', ALT(c1, n1, c2))
    add('alt', 'mm', ALT(m1, m2))
    add('alt', 'nm', ALT(n1, m2))
    add('alt', 'mn', ALT(m1, n2))
    add('alt', 'ne', ALT(n1, EMPTY()))
    add('alt', 'seqs', ALT(SEQ(n1, n2), SEQ(n1, n3)))
    add('alt', 'in_seq', SEQ(ALT(n1, n2), n3))
    add('alt', 'in_seq2', SEQ(n3, ALT(n1, c1), n2))
    add('alt', 'chars_in_seq', SEQ(ALT(c1, c2), c3))
    # ---- quantifiers
    bounds = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 4), (0, INF), (1, INF), (2, INF), (3, INF), (0, 0), (1, 1), (2, 2), (3, 3), (4, 4)]
    if thorough:
        bounds += [(0, 4), (0, 5), (1, 4), (3, 4), (3, 5), (4, INF), (5, INF), (5, 5), (6, 6)]
    for a, b in bounds:
        nm = '%d_%s' % (a, 'inf' if b is None else b)
        for mode in ('greedy', 'lazy'):
            for tag, x in (('n', n1), ('m', m1), ('c', c1)):
                fls = [()]
                if a != b:
                    fls.append(('ungreedy',))
                if a > 1:
                    fls.append(('unroll',))
                if a > 1 and a != b:
                    fls.append(('ungreedy', 'unroll'))
                add('quant', '%s_%s_%s' % (mode, tag, nm), REP(x, a, b, mode), ALL, fls)
        for tag, x in (('n', n1), ('m', m1), ('c', c1)):
            fls = [()]
            if a != b:
                fls.append(('ungreedy',))
            if a > 1:
                fls.append(('unroll',))
            add('poss', '%s_%s' % (tag, nm), REP(x, a, b, 'possessive'), ALL, fls)
    # composite operands, to pin the traits that select the implementation
    for mode in ('greedy', 'lazy'):
        add('quant', mode + '_star_set', REP(SET(c1, c2), 0, INF, mode), ALL)
        add('quant', mode + '_star_not', REP(NOT(c1), 0, INF, mode), ALL)
        add('quant', mode + '_plus_set', REP(SET(c1, c2), 1, INF, mode), ('raw', 'fwd'), budget=240)
        add('quant', mode + '_star_seq', REP(SEQ(n1, n2), 0, INF, mode), ('raw', 'rraw'))
        add('quant', mode + '_star_alt', REP(ALT(n1, m2), 0, INF, mode), ('raw', 'rraw'))
    add('poss', 'star_set', REP(SET(c1, c2), 0, INF, 'possessive'), ALL)
    add('poss', 'star_not', REP(NOT(c1), 0, INF, 'possessive'), ALL)
    known |= {i.name for i in out}
    # longer packs and larger bounds: the recursion repeats the same step, and nothing starts at a threshold
    for k in (6, 7, 8, 12, 16):
        big('seq', 'n%d' % k, SEQ(*[N(j) for j in range(1, k + 1)]))
        big('seq', 'c%d' % k, SEQ(*[C(j) for j in range(1, k + 1)]))
        big('alt', 'n%d' % k, ALT(*[N(j) for j in range(1, k + 1)]))
        big('alt', 'c%d' % k, ALT(*[C(j) for j in range(1, k + 1)]))
    for a, b in [(5, 5), (6, 6), (8, 8), (10, 10), (16, 16), (20, 20), (0, 6), (0, 9), (0, 10), (3, 6), (5, 7), (8, 9), (5, 12), (5, INF), (8, INF), (10, INF), (20, INF)]:
        nm = '%d_%s' % (a, 'inf' if b is None else b)
        for tag, x in (('n', n1), ('m', m1), ('c', c1)):
            for mode in ('greedy', 'lazy'):
                big('quant', '%s_%s_%s' % (mode, tag, nm), REP(x, a, b, mode), (a > 1 and [('unroll',)] or []))
            big('poss', '%s_%s' % (tag, nm), REP(x, a, b, 'possessive'), (a > 1 and [('unroll',)] or []))
    for a, b in [(30, 30), (100, 100), (0, 30), (3, 40), (0, 100), (30, INF), (128, 128), (300, 300), (0, 300), (2, 1000), (0, 70000)]:
        nm = '%d_%s' % (a, 'inf' if b is None else b)
        for mode in ('greedy', 'lazy'):
            big('quant', '%s_c_%s' % (mode, nm), REP(c1, a, b, mode), (), ('raw', 'rraw'))
        big('poss', 'c_%s' % nm, REP(c1, a, b, 'possessive'), (), ('raw', 'fwd', 'rraw'))
    # ---- atomic groups
    add('atomic', 'n', ATOM(n1))
    add('atomic', 'm', ATOM(m1))
    add('atomic', 'c', ATOM(c1))
    add('atomic', 'seq', ATOM(SEQ(n1, n2)))
    add('atomic', 'alt', ATOM(ALT(n1, n2)))
    add('atomic', 'in_seq', SEQ(n1, ATOM(n2), n3))
    # ---- lookarounds
    for neg in (False, True):
        g = 'neg' if neg else 'pos'
        for tag, x in (('n', n1), ('m', m1), ('c', c1), ('seq', SEQ(n1, n2)), ('cc', SEQ(c1, c2)), ('alt', ALT(n1, n2)), ('cn', SEQ(c1, n1))):
            add('look', '%s_ahead_%s' % (g, tag), LOOK(False, neg, x), ALL)
            add('look', '%s_behind_%s' % (g, tag), LOOK(True, neg, x), BACK)
        for bo in (False, True):
            for bi in (False, True):
                for ni in (False, True):
                    add('look', '%s_%d_nest_%d%d' % (g, bo, bi, ni), LOOK(bo, neg, SEQ(n1, LOOK(bi, ni, SEQ(n2, n3)), n4)), ('raw', 'rraw'))
        for kind in ('bol', 'eol', 'boi', 'eoi', 'wordb'):
            add('look', '%s_behind_%s' % (g, kind), LOOK(True, neg, SEQ(TEST(kind), n1)), ('raw', 'rraw'), ((), ('multiline',)))
        add('look', '%s_ahead_star' % g, LOOK(False, neg, REP(c1, 0, INF, 'greedy')), ('raw', 'rraw'))
        add('look', '%s_behind_plus' % g, LOOK(True, neg, REP(n1, 1, INF, 'greedy')), ('raw', 'rraw'))
        add('look', '%s_in_seq' % g, SEQ(n1, LOOK(False, neg, n2), n3), ALL)
        add('look', '%s_behind_in_seq' % g, SEQ(n1, LOOK(True, neg, n2), n3), BACK)
    # ---- anchors
    for kind in ('bol', 'eol', 'boi', 'eoi', 'wordb'):
        for neg in (False, True):
            nm = ('not_' if neg else '') + kind
            fls = ((), ('multiline',))
            add('anchor', nm, TEST(kind, neg), BACK, fls)
            if kind != 'wordb':
                add('anchor', nm, TEST(kind, neg), ('fwd',), ((),) if kind == 'bol' else fls)
    add('anchor', 'b_seq', SEQ(n1, TEST('wordb'), n2), BACK)
    add('anchor', 'bol_seq', SEQ(n1, TEST('bol'), n2), BACK, ((), ('multiline',)))
    add('anchor', 'eol_seq', SEQ(n1, TEST('eol'), n2), BACK, ((), ('multiline',)))
    # ---- captures
    add('cap', 'n', CAP(1, n1))
    add('cap', 'm', CAP(1, m1))
    add('cap', 'c', CAP(1, c1))
    add('cap', 'named', CAP(2, n1))
    add('cap', 'empty', CAP(1, EMPTY()))
    add('cap', 'nested', CAP(1, SEQ(n1, CAP(2, n2), n3)))
    add('cap', 'seq', SEQ(CAP(1, n1), CAP(2, n2)))
    add('cap', 'inner_seq', CAP(1, SEQ(n1, n2)))
    add('cap', 'alt', ALT(CAP(1, n1), CAP(2, n2)))
    add('cap', 'opt', REP(CAP(1, n1), 0, 1, 'greedy'))
    add('cap', 'opt_lazy', REP(CAP(1, n1), 0, 1, 'lazy'))
    add('cap', 'twice', REP(CAP(1, n1), 2, 2, 'greedy'))
    add('cap', 'star', REP(CAP(1, n1), 0, INF, 'greedy'))
    add('cap', 'star_m', REP(CAP(1, m1), 0, INF, 'greedy'))
    add('cap', 'star_lazy', REP(CAP(1, n1), 0, INF, 'lazy'))
    add('cap', 'star_alt', REP(ALT(CAP(1, n1), CAP(2, n2)), 0, INF, 'greedy'), ('raw', 'rraw'))
    add('cap', 'poss_opt', REP(CAP(1, n1), 0, 1, 'possessive'))
    add('cap', 'poss_star', REP(CAP(1, n1), 0, INF, 'possessive'))
    add('cap', 'atomic', ATOM(CAP(1, n1)))
    add('cap', 'atomic_seq', ATOM(SEQ(CAP(1, n1), CAP(2, n2))))
    add('cap', 'of_atomic', CAP(1, ATOM(n1)))
    add('cap', 'look', LOOK(False, False, CAP(1, n1)))
    add('cap', 'neglook', LOOK(False, True, CAP(1, n1)))
    add('cap', 'behind', LOOK(True, False, CAP(1, n1)), BACK)
    add('cap', 'negbehind', LOOK(True, True, CAP(1, n1)), BACK)
    add('cap', 'behind_seq', LOOK(True, False, SEQ(CAP(1, n1), CAP(2, n2))), BACK)
    # ---- backreferences
    fls = ((), ('icase',))
    add('bref', 'id1', BREF(1), BACK, fls)
    add('bref', 'id2', BREF(2), BACK, fls)
    add('bref', 'named', BREF(2, True), BACK, fls)
    add('bref', 'cap_then', SEQ(CAP(1, n1), BREF(1)), ('raw', 'rraw'))
    add('bref', 'seq', SEQ(n1, BREF(1), n2), ('raw', 'rraw'))
    # ---- single characters
    fls = ((), ('icase',), ('dotall',), ('multiline',))
    reps = [('a', LIT(97)), ('Z', LIT(90)), ('5', LIT(53)), ('at', LIT(64)), ('hi', LIT(0xe1)), ('nul', LIT(0)), ('nl', LIT(10)), ('wild', WILD), ('word', WORD), ('digit', DIGIT), ('space', SPACE),
            ('lbrk', LBRK), ('nothing', NOTHING), ('az', RANGE(97, 122)), ('mixed', RANGE(64, 100)), ('hirange', RANGE(128, 255)),
            ('set', SET(LIT(97), RANGE(48, 57), LIT(45))), ('nset', NOT(SET(LIT(97), RANGE(66, 90)))), ('nword', NOT(WORD)), ('ndigit', NOT(DIGIT)), ('nspace', NOT(SPACE))]
    for nm, x in reps:
        add('chr', nm, x, ALL, ((), ('icase',)))
        for fl in fls:
            out.append(PredInst('chr', nm, x, fl))
    # sets of arbitrary single-character constructs
    cs = [C(k) for k in range(1, 17)]
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        add('chr', 'setc%d' % k, SET(*cs[:k]), ALL if k in (0, 2, 3) else ('raw',))
        add('chr', 'nsetc%d' % k, NOT(SET(*cs[:k])), ALL if k in (0, 2, 3) else ('raw',))
    add('chr', 'notc', NOT(c1))
    add('chr', 'notnotc', NOT(NOT(c1)), ('raw',))
    add('chr', 'setnotc', SET(NOT(c1), c2, NOT(c3)), ('raw',))
    add('chr', 'nsetnotc', NOT(SET(NOT(c1), c2, NOT(c3))), ('raw',))
    for v in range(256):
        for fl in ((), ('icase',)):
            out.append(PredInst('chr', 'lit%d' % v, LIT(v), fl))
    crit = [0, 1, 47, 48, 57, 58, 64, 65, 66, 77, 89, 90, 91, 95, 96, 97, 98, 109, 121, 122, 123, 127, 128, 193, 218, 225, 250, 254, 255]
    if thorough:
        crit = sorted(set(crit) | {10, 13, 32, 33, 70, 80, 100, 110, 124, 126, 129, 192, 219, 224, 251})
    for i, a in enumerate(crit):
        for b in crit[i:]:
            for fl in ((), ('icase',)):
                out.append(PredInst('chr', 'rng%d_%d' % (a, b), RANGE(a, b), fl))
    names = [i.name for i in out]
    assert len(names) == len(set(names)), [x for x in names if names.count(x) > 1][:5]
    return out
