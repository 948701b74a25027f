"""Pattern generation: random structures, their pattern strings and their expression (xpr) forms."""
import random

CLS = {'digit': 'd', 'word': 'w', 'space': 's', 'lbrk': 'R'}
NEGCLS = {'digit': 'D', 'word': 'W', 'space': 'S', 'lbrk': 'N'}
TST = {('bol', 0): '^', ('eol', 0): '$', ('boi', 0): r'\A', ('eoi', 0): r'\Z', ('wordb', 0): r'\b', ('wordb', 1): r'\B'}
META = set('()[]{}|*+?.^$\\')


def lit(c):
    o = chr(c)
    if o in META:
        return '\\' + o
    if 32 < c < 127:
        return o
    return '\\x%02x' % c


def set_item(x):
    if x[0] == 'lit':
        c = chr(x[1])
        if c in ']\\^-':
            return '\\' + c
        return c if 32 < x[1] < 127 else '\\x%02x' % x[1]
    if x[0] == 'range':
        return set_item(('lit', x[1])) + '-' + set_item(('lit', x[2]))
    return '\\' + (NEGCLS if x[2] else CLS)[x[1]]


def unparse(n, ctx=0):
    """ctx 0: alternation level, 1: sequence element, 2: operand of a quantifier"""
    k = n[0]
    if k == 'empty':
        return '(?:)'
    if k == 'lit':
        return lit(n[1])
    if k == 'wild':
        return '.'
    if k == 'class':
        return '\\' + (NEGCLS if n[2] else CLS)[n[1]]
    if k == 'set':
        return '[' + ('^' if n[1] else '') + ''.join(set_item(x) for x in n[2]) + ']'
    if k == 'test':
        t = TST[(n[1], n[2])]
        return t if ctx < 2 else '(?:%s)' % t
    if k == 'bref':
        return '(?:\\%d)' % n[1]
    if k == 'nbref':
        return '\\k<%s>' % n[1]
    if k == 'cap':
        return '(%s%s)' % ('?<%s>' % n[2] if n[2] else '', '' if n[3][0] == 'empty' else unparse(n[3]))
    if k == 'atom':
        return '(?>%s)' % unparse(n[1])
    if k == 'look':
        return '(?%s%s%s)' % ('<' if n[1] else '', '!' if n[2] else '=', unparse(n[3]))
    if k == 'seq':
        s = ''.join(unparse(x, 1) for x in n[1])
        return s if ctx == 0 else '(?:%s)' % s
    if k == 'alt':
        s = '|'.join(unparse(x, 0) for x in n[1])
        return s if ctx == 0 else '(?:%s)' % s
    if k == 'rep':
        s = unparse(n[1], 2)
        a, b = n[2], n[3]
        q = {(0, None): '*', (1, None): '+', (0, 1): '?'}.get((a, b))
        if q is None:
            q = '{%d}' % a if a == b else '{%d,%s}' % (a, '' if b is None else b)
        s += q + {'g': '', 'l': '?', 'p': '+'}[n[4]]
        return s if ctx < 2 else '(?:%s)' % s
    raise ValueError(k)


def flat(n):
    """alternation directly inside alternation or sequence inside sequence, unwrapped as the parser sees groups"""
    return n


BOUNDS = [(0, 1), (0, None), (1, None), (0, 2), (1, 2), (2, 2), (2, None), (1, 3), (3, 3), (0, 3), (2, 3), (0, 0), (1, 1)]


class Gen:
    """Random structures.  w: weights of the constructs; atoms: list of atom structures"""

    def __init__(self, seed, atoms, w, names=0.0, bounds=BOUNDS, modes='ggglp', ncap=4):
        self.r = random.Random(seed)
        self.atoms, self.w, self.names, self.bounds, self.modes, self.ncap = atoms, w, names, bounds, modes, ncap

    def pattern(self, depth=3):
        while True:
            self.n = 0
            self.brefs = []
            t = self.node(depth)
            if self.n:
                t = self.fill(t)
            elif self.has(t, 'bref'):
                continue
            t = self.number(t)
            s = unparse(t)
            if len(s) <= 60:
                return t, s

    def has(self, t, k):
        if t[0] == k:
            return True
        return any(self.has(x, k) for x in kids(t))

    def fill(self, t):
        return t

    def number(self, t):
        """group numbers in the order of the opening parentheses; back-references drawn from them"""
        total = self.count(t)
        cnt = [0]
        names = {}

        def go(n):
            k = n[0]
            if k == 'cap':
                cnt[0] += 1
                i = cnt[0]
                nm = 'n%d' % i if n[2] else ''
                if nm:
                    names[i] = nm
                return ('cap', i, nm, go(n[3]))
            if k in ('seq', 'alt'):
                return (k, [go(x) for x in n[1]])
            if k in ('rep', 'atom'):
                return (k, go(n[1])) + n[2:]
            if k == 'look':
                return n[:3] + (go(n[3]),)
            return n

        t = go(t)

        def refs(n):
            k = n[0]
            if k == 'bref':
                i = n[1] % total + 1
                return ('nbref', names[i]) if i in names and n[1] % 2 else ('bref', i)
            if k in ('seq', 'alt'):
                return (k, [refs(x) for x in n[1]])
            if k in ('rep', 'atom'):
                return (k, refs(n[1])) + n[2:]
            if k in ('look', 'cap'):
                return n[:3] + (refs(n[3]),)
            return n
        return refs(t)

    def count(self, t):
        return (t[0] == 'cap') + sum(self.count(x) for x in kids(t))

    def node(self, d):
        r = self.r
        if d == 0 or r.random() < 0.15:
            return r.choice(self.atoms)
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if k == 'seq':
            return ('seq', [self.node(d - 1) for _ in range(r.choice((2, 2, 3)))])
        if k == 'alt':
            return ('alt', [self.node(d - 1) for _ in range(r.choice((2, 2, 3)))])
        if k == 'rep':
            a, b = r.choice(self.bounds)
            return ('rep', self.node(d - 1), a, b, r.choice(self.modes))
        if k == 'cap':
            if self.n >= self.ncap:
                return self.node(d - 1)
            self.n += 1
            return ('cap', 0, 'x' if r.random() < self.names else '', self.node(d - 1))
        if k == 'atom':
            return ('atom', self.node(d - 1))
        if k == 'ahead':
            return ('look', 0, r.choice((0, 0, 1)), self.node(d - 1))
        if k == 'behind':
            return ('look', 1, r.choice((0, 0, 1)), self.node(d - 1))
        if k == 'test':
            return r.choice([('test',) + x for x in TST])
        if k == 'bref':
            return ('bref', r.randrange(100))
        if k == 'empty':
            return ('empty',)
        raise ValueError(k)


def kids(t):
    k = t[0]
    if k in ('seq', 'alt'):
        return t[1]
    if k in ('rep', 'atom'):
        return [t[1]]
    if k in ('look', 'cap'):
        return [t[3]]
    return []


def needs_bidi(t, multiline=False):
    """constructs that the library supports on bidirectional iterators only"""
    if t[0] == 'look' and t[1] or t[0] == 'test' and (t[1] == 'wordb' or t[1] == 'bol' and multiline):
        return True
    return any(needs_bidi(x, multiline) for x in kids(t))


# ---------------------------------------------------------------- expression form
def cchr(c):
    return 'char(%d)' % c


def xpr(n, r):
    """a C++ expression for the structure; r chooses between equivalent spellings"""
    k = n[0]
    x = lambda m: xpr(m, r)
    if k == 'empty':
        return 'xpr::empty'
    if k == 'nothing':
        return 'xpr::nothing'
    if k == 'lit':
        return 'xpr::chr<%s>' % cchr(n[1])
    if k == 'wild':
        return 'xpr::wildcard'
    if k == 'class':
        t = 'xpr::' + {'digit': 'digit', 'word': 'word', 'space': 'whitespace', 'lbrk': 'linebreak', 'lower': 'lower', 'upper': 'upper'}[n[1]]
        return r.choice(('!%s', 'xpr::negate(%s)')) % t if n[2] else t
    if k == 'set':
        if not n[1] and len(n[2]) == 1 and n[2][0][0] == 'range':
            return 'xpr::range<%s,%s>' % (cchr(n[2][0][1]), cchr(n[2][0][2]))
        return 'xpr::regex<R"~(%s)~">' % unparse(n)
    if k == 'test':
        t = 'xpr::' + {'bol': 'begin_line', 'eol': 'end_line', 'boi': 'begin_input', 'eoi': 'end_input', 'wordb': 'word_boundary'}[n[1]]
        return '(!%s)' % t if n[2] else t
    if k == 'bref':
        return 'xpr::group<%d>' % n[1]
    if k == 'nbref':
        return 'xpr::group_named<"%s">' % n[1]
    args = lambda m: ', '.join(x(y) for y in (m[1] if m[0] == 'seq' and r.random() < .6 else [m]))
    if k == 'cap':
        return 'xpr::capture<%d%s>(%s)' % (n[1], ', "%s"' % n[2] if n[2] else '', args(n[3]))
    if k == 'atom':
        return 'xpr::atomic(%s)' % args(n[1])
    if k == 'look':
        s = 'xpr::%s(%s)' % ('behind' if n[1] else 'ahead', args(n[3]))
        return '(%s%s)' % (r.choice(('!', 'not ')), s) if n[2] else s
    if k == 'seq':
        if all(y[0] == 'lit' and 32 < y[1] < 127 and chr(y[1]) not in '"\\' for y in n[1]) and r.random() < .5:
            return 'xpr::str<"%s">' % ''.join(chr(y[1]) for y in n[1])
        if r.random() < .5:
            return 'xpr::concat(%s)' % ', '.join(x(y) for y in n[1])
        return '(%s)' % ' >> '.join(x(y) for y in n[1])
    if k == 'alt':
        if r.random() < .5:
            return 'xpr::either(%s)' % ', '.join(x(y) for y in n[1])
        return '(%s)' % ' | '.join(x(y) for y in n[1])
    if k == 'rep':
        a, b, m = n[2], n[3], n[4]
        md = 'meta::match_mode::' + {'g': 'greedy', 'l': 'lazy', 'p': 'possessive'}[m]
        arg = args(n[1])
        single = x(n[1])
        opts = []
        mx = ', ' + md if m != 'g' or r.random() < .3 else ''
        my = '<%s>' % md if mx else ''
        if b is None:
            opts.append('xpr::at_least<%d%s>(%s)' % (a, mx, arg))
            if a == 0:
                opts.append('xpr::zero_or_more%s(%s)' % (my, arg))
                if m == 'g':
                    opts.append('(*%s)' % single)
            if a == 1:
                opts.append('xpr::one_or_more%s(%s)' % (my, arg))
                if m == 'g':
                    opts.append('(+%s)' % single)
        else:
            opts.append('xpr::between<%d, %d%s>(%s)' % (a, b, mx, arg))
            if a == b:
                opts.append('xpr::exactly<%d%s>(%s)' % (a, mx, arg))
            if (a, b) == (0, 1):
                opts.append('xpr::maybe%s(%s)' % (my, arg))
        return r.choice(opts)
    raise ValueError(k)
