"""The patterns each property is exercised with on the real code."""
import itertools
import random
import refparse as R
from gen import Gen, unparse, needs_bidi, xpr

FL = {'icase': 1, 'dotall': 2, 'multiline': 4, 'ungreedy': 8, 'unroll': 16}
ALLM = 127
M3 = 7
GENM = 0b1111000

L = lambda c: ('lit', ord(c))
AB = [L('a'), L('b')]
ABX = AB + [('wild',), ('set', 0, [L('a'), L('b')]), ('set', 1, [L('a')])]


class Case:
    def __init__(self, pattern, flags=(), alphabet='ab', maxlen=6, extra=(), methods=M3, how='ptr3', expr=None, struct=None):
        self.pattern, self.flags, self.alphabet, self.maxlen = pattern, tuple(flags), alphabet, maxlen
        self.extra, self.methods, self.how, self.expr = tuple(extra), methods, how, expr
        t, g, names = R.parse(pattern)
        self.struct = R.resolve(t, names)
        self.groups, self.names = g, names
        if self.groups > 15:
            raise R.Unsupported('groups')

    def type(self):
        fl = ''.join(', regex_flag::' + f for f in self.flags)
        if self.expr:
            return 'decltype(xpr::add_flags<%s>(%s))' % (fl[2:], self.expr) if fl else 'std::remove_cvref_t<decltype(%s)>' % self.expr
        return 'meta::regex<%s%s>' % (cstr(self.pattern), fl)

    def bits(self):
        return sum(FL[f] for f in self.flags)


def cstr(s):
    out = ''
    for c in s:
        o = ord(c)
        out += '\\' + c if c in '"\\' else c if 32 <= o < 127 and c != '?' else '\\%03o' % o
    return '"%s"' % out


def combos(tmpl, **kw):
    for vals in itertools.product(*kw.values()):
        yield tmpl.format(**dict(zip(kw, vals)))


def rand(seed, n, atoms, w, depth=3, **kw):
    g = Gen(seed, atoms, w, **kw)
    seen, out = set(), []
    tries = 0
    while len(out) < n and tries < 50 * n:
        tries += 1
        t, s = g.pattern(depth)
        if s in seen or len(s) < 3:
            continue
        seen.add(s)
        out.append((t, s))
    return out


class Pool:
    def __init__(self):
        self.cases, self.seen = [], set()

    def add(self, pattern, **kw):
        try:
            c = Case(pattern, **kw)
        except R.Unsupported:
            return
        key = (pattern, c.flags, c.how, c.expr, c.alphabet)
        if key not in self.seen:
            self.seen.add(key)
            self.cases.append(c)

    def many(self, patterns, **kw):
        for p in patterns:
            self.add(p, **kw)


X = ['a', '.', '[ab]', r'\w', '(a)', '(?:ab)', '(?:a|ab)', '(?:ab|a)', '(?:a?)', '(?:a|b?)', '(a|b)', '(?:a*?)', '(?:aa|b)', '(ab?)']
BND = ['{0}', '{1}', '{2}', '{3}', '{0,1}', '{0,2}', '{1,2}', '{1,3}', '{2,3}', '{2,4}', '{0,3}', '{0,}', '{1,}', '{2,}', '{3,}', '*', '+', '?']


# operands that look around, so that the range handed to an operand matters
CTX = [r'\A', '^', '$', r'\Z', r'\b', r'\B', '(?<=a)', '(?<!a)', '(?=b)', '(?<=ab)', '(?!.)', '(?<!.)']


def in_context(p, quantifiers, wrap=('%s',), flags=((),), maxlen=5):
    for k, z in enumerate(CTX):
        for j, q in enumerate(quantifiers):
            for w in wrap:
                for fl in flags:
                    p.add(w % ('(?:%sb|a)' % z + q), flags=fl, maxlen=maxlen)
                    if (j + k) % 2 == 0:
                        p.add(w % ('(?:a|b%s)' % z + q), flags=fl, maxlen=maxlen)


def c01(n, seed):
    p = Pool()
    for z in CTX:
        p.many([x.replace('Z', z) for x in ('aZb', 'abZa', '(?:a|Zb)(?:Zb|a)', '.(?:Zb|Za|b)', '(?:aZ|b)(?:a|bZ)?', 'a(?:bZ|Zb|b)a?', '(?:a|b)(?:(?:Za|b)|.).?', '(?:ab|a|Z)b')], maxlen=5)
    p.many(['a.', 'ab.', '..', '...', '[^b][^a]', 'a[^a]', '.{2}.', '(?:a|b).', 'a..', '....', '.a.', 'a[^]', '[^][^][^]', '(?:.|ab)[^a].'], maxlen=5)
    for k in range(1, 9):
        p.add(('ab' * 5)[:k], maxlen=5, extra=[('ab' * 5)[:k], ('ab' * 5)[:k] + 'a', ('ab' * 5)[1:k]])
        p.add('|'.join(['a', 'ab', 'b', 'ba', 'aa', 'bb', 'aba', 'abab'][:k]), maxlen=5, methods=ALLM, how='ptr')
        p.add('(?:' + '|'.join(['abab', 'aba', 'bb', 'aa', 'ba', 'b', 'ab', 'a'][-k:]) + ')b', maxlen=6)
        p.add(''.join('(?:%s)' % x for x in ['a|ab', 'b|ba', 'a?', 'b*', 'a|b', 'ab|a', 'b?', 'a'][:k]), maxlen=6)
        p.add(''.join('(%s)' % x for x in ['a|ab', 'b|ba', 'a?', 'b*', 'a|b', 'ab|a', 'b?', 'a'][:k]), maxlen=6)
    p.many(combos('(?:{x}|{y})(?:{z}|{w})', x=['a', 'ab', 'aba'], y=['a', 'ab', 'b'], z=['a', 'b', 'ba'], w=['ab', 'b', 'bab']), maxlen=6)
    p.many(combos('{x}{y}{z}', x=['a', 'a?', 'a*?', '(?:a|ab)'], y=['b', 'b?', '(?:b|ba)', '.'], z=['a', 'a*', '(?:ab|a)', '$']), maxlen=6)
    p.many(['a|b|', 'x'][1:] + ['(?:a|b)(?:a|b)(?:a|b)', '(?:(?:a|ab)(?:c|bcd))d*', '(?:a|(?:b|c))d', 'a(?:b|)c'][:3], alphabet='abcd', maxlen=5)
    for t, s in rand(seed, n, AB + [('lit', 99)], dict(seq=5, alt=4, rep=2, cap=1), depth=3, modes='ggl'):
        p.add(s, alphabet='abc' if 'c' in s else 'ab', maxlen=5 if 'c' in s else 6)
    return p.cases


def c02(n, seed):
    p = Pool()
    r = random.Random(seed)
    allp = []
    for x in X:
        for b in BND:
            for m in ('', '?'):
                for suf in ('', 'a', 'b', '(a|b)$'):
                    allp.append(x + b + m + suf)
    r.shuffle(allp)
    for i, s in enumerate(allp[:n]):
        p.add(s, flags=[(), (), ('ungreedy',), ('unroll',), ('ungreedy', 'unroll')][i % 5], maxlen=7)
    in_context(p, ('*', '+?', '{2}', '{1,3}', '{2,}?', '{3}?', '??'), ('%s', '.%sa?'))
    in_context(p, ('{2}', '{2,}?', '{1,3}'), ('.%s',), (('unroll',),))
    for x in X[:9]:
        for b in ('*', '+', '{2,}', '{3}', '?'):
            p.add(x + b, maxlen=7)
            p.add(x + b + '?', maxlen=7)
    for a, b in ((5, 5), (7, 7), (8, 8), (9, 9), (10, 10), (16, 16), (17, 17), (32, 32), (33, 33), (5, 8), (3, 9), (4, 12), (0, 10), (10, 20), (0, 33), (10, None), (5, None), (12, None)):
        q = '{%d}' % a if a == b else '{%d,%s}' % (a, '' if b is None else b)
        ins = ['a' * k + t for k in range(0, 36) for t in ('', 'b')]
        for x in ('a', '(?:a)', '(a|c)', '.', '[^b]'):
            for m in ('', '?'):
                for fl in ((), ('unroll',)):
                    p.add(x + q + m + ('b?' if m else ''), flags=fl, maxlen=0, extra=ins)
    for a, b in ((100, 100), (127, 127), (128, 128), (255, 255), (256, 256), (257, 257), (1000, 1000), (0, 255), (3, 300), (100, None), (256, None)):
        q = '{%d}' % a if a == b else '{%d,%s}' % (a, '' if b is None else b)
        ins = ['a' * k + t for v in (0, 1, 44, a, b or a) for k in (v - 1, v, v + 1) if k >= 0 for t in ('', 'b')]
        for x in ('a', '[^b]', '(?:ac?)'):
            for m in ('', '?', '+'):
                p.add(x + q + m, flags=('unroll',) if x == 'a' and (a + (b or 0)) % 2 and a < 300 else (), maxlen=0, extra=ins)
    p.many(['(?:a|b)*?c', '(?:a*)*', '(?:a*)*b', '(?:a*)+b', '(?:a?){3}b', '(?:a?b?)*c', '(?:|a)*'][:6] + ['(?:a*){2,}b', '(?:a??)*b', '(?:(?:a?)*)*b', '(?:a?){0,3}?b', '(?:()|a)*b', '(?:()|a)+?b', '(?:(?=a)|a)*b'], alphabet='abc', maxlen=5)
    for t, s in rand(seed + 1, n // 2, AB, dict(rep=6, seq=3, alt=2, cap=1), depth=3, modes='gl'):
        p.add(s, flags=r.choice(((), ('ungreedy',), ('unroll',))), maxlen=6)
    return p.cases


def c03(n, seed):
    p = Pool()
    in_context(p, ('*+', '{2}+', '{1,3}+', '{2,}+', '?+'), ('%s', '.%sa?', '(?>a|%s)b?'))
    in_context(p, ('{2}+', '{2,}+'), ('.%s',), (('unroll',),))
    r = random.Random(seed)
    for x in X:
        for b in BND:
            for suf in ('', 'a', 'b?$'):
                if r.random() < (0.6 if n > 200 else 0.35):
                    p.add(x + b + '+' + suf, flags=[(), ('unroll',), ('ungreedy',)][r.randrange(3)], maxlen=7)
        for suf in ('', 'a', 'b', '$'):
            p.add('(?>%s)%s' % (x, suf), maxlen=6)
            p.add('(?>%s*)%s' % (x, suf), maxlen=6)
            p.add('(?>%s*?)%s' % (x, suf), maxlen=6)
    for q in ('{5}+', '{9}+', '{3,7}+', '{16}+', '{2,12}+', '{5,}+'):
        p.many(['a' + q + 'b', '(a)' + q + '.', '(?:a|ab)' + q + 'a'], maxlen=0, extra=['a' * k + t for k in range(20) for t in ('', 'b', 'ba')] + ['ab' * k + t for k in range(14) for t in ('', 'a')])
    p.many(['(?>a|ab)c', '(?>(a)|b)c|(.)', '(?>a*)ab', '(?>a|ab)(?>b|c)', '((?>a+))b', '(?>(a+)b?)\\1', '(?:(?>a|ab)c|abd)', '(?>(?>a|ab)b|abc)c', '(?=(?>a|ab)c)', '(?>a(?=b)|ab)b'], alphabet='abcd', maxlen=5)
    for t, s in rand(seed, n, AB, dict(rep=4, seq=4, alt=3, cap=2, atom=3), depth=3, modes='gppl'):
        p.add(s, maxlen=6)
    return p.cases


def c04(n, seed):
    p = Pool()
    inner = ['a', 'ab', 'a|b', 'a*', 'a+b', '(a)', '^a', 'a$', r'\ba', r'a\b', '(?=a)', '(?!b)a', '(?<=a)b', 'b(?=a)', '(?<!a)b', '(a|b)\\1', '', '.', 'a?b', r'\Aa', r'a\Z', 'a{2}', 'a*?b', '(?>a|ab)b', 'a++b']
    for k in ('=', '!', '<=', '<!'):
        for x in inner:
            for t in ('(?{k}{x}).', '.(?{k}{x})', 'a?(?{k}{x})b*', '(?{k}{x})'):
                p.add(t.format(k=k, x=x), maxlen=5, flags=('multiline',) if '$' in x or '^' in x else ())
    for k1 in ('=', '!', '<=', '<!'):
        for k2 in ('=', '!', '<=', '<!'):
            for x in ('a', 'ab', 'b|aa', 'a*b'):
                p.add('.(?%sa?(?%s%s)b?).?' % (k1, k2, x), maxlen=5)
                p.add('(?%s.(?%s%s).)' % (k1, k2, x), maxlen=5)
            for k3 in ('=', '<=', '<!'):
                p.add('a(?%sb(?%s.(?%sa)))' % (k1, k2, k3), maxlen=5)
    p.many(['(?<=a(?=bc))bc', '(?<=(?<=ab)c)d', '(?<=^a)b', '(?<=a$)', r'(?<=\ba)b', '(?<=(a)(b))c', '(?<=(a|b)\\1)c', '(?<=\\1(a|b))c', '(?<!(a)b)c', '(?<=a{2,3})b', '(?<=[^a]c)d', '(?=(a))a\\1', '(?!(a)b)\\1a'], alphabet='abcd', maxlen=5)
    for t, s in rand(seed, n, AB, dict(seq=5, alt=2, rep=2, cap=1, ahead=3, behind=4, test=1, bref=.5), depth=3, modes='ggl'):
        p.add(s, maxlen=5)
    return p.cases


BYTES = None  # every single byte


def c05(n, seed):
    p = Pool()
    r = random.Random(seed)
    fls = [(), ('icase',), ('dotall',), ('multiline',), ('icase', 'dotall')]
    base = ['.', r'\d', r'\D', r'\w', r'\W', r'\s', r'\S', r'\R', r'\N', '[]', '[^]', '[a-z]', '[A-Z]', '[^a-z]', '[0-9]', '[a-c]', '[X-c]', '[@-Z]', '[Z-a]', '[a-{]', r'[\x00-\x7f]', r'[\x80-\xff]', r'[\x00-\xff]', '[^A-Z]',
            r'[\x60-\x7b]', r'[\x40-\x5b]', r'[\x5b-\x60]', r'[k-n]', r'[N-P]', r'[ -~]', r'[!-@]', '[^Q-S]', r'[\d]', r'[^\d]', r'[\w-]', r'[^\w]', r'[\s]', r'[^\s]', r'[\D]', r'[\W]', r'[\S]', r'[\R]', r'[\N]', r'[^\N]', r'[\d\s]', r'[^\d\s]', r'[\Da]',
            'a', 'Z', 'm', '5', '_', '@', '`', '[[]', '}', r'\[', r'\\', r'\n', r'\t', r'\0', r'\x7f', r'\xe1', r'\xff', r'\x80', '[abc]', '[^abc]', '[a-cx-z]', '[-a]', '[a-]', r'[\b]', '[.]', '[$^]', '[aB9]', '[^aB9]', r'[a\dZ]', r'[\x41-\x43]', '[^\\n]', '[^.]', r'[^\R]', r'[^\r]']
    for s in base:
        for fl in (fls if s in ('.', 'a', '[^]', r'\N', '[a-z]', '[X-c]', r'\w', '[^a-z]') else fls[:2]):
            p.add(s, flags=fl, alphabet=BYTES, maxlen=1, methods=5, how='ptr3')
            if fl == fls[0]:
                p.add('a%s+b' % s, flags=fl, alphabet='ab\n', maxlen=4)
    bytes_ = list(range(256))
    r.shuffle(bytes_)
    for v in bytes_[:(64 if n < 500 else 256)]:
        p.add('\\x%02x' % v, flags=('icase',), alphabet=BYTES, maxlen=1, methods=1)
        p.add('[^\\x%02x]' % v, flags=r.choice(fls[:2]), alphabet=BYTES, maxlen=1, methods=1)
    for _ in range(n // 2):
        items = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .5:
                a, b = sorted(r.sample(range(256), 2)) if r.random() < .5 else sorted(r.sample(range(60, 128), 2))
                items.append('\\x%02x-\\x%02x' % (a, b))
            elif k < .8:
                items.append('\\x%02x' % r.randrange(256))
            else:
                items.append(r.choice((r'\d', r'\w', r'\s', r'\D', r'\S', r'\R', r'\N')))
        p.add('[%s%s]' % (r.choice(('', '^')), ''.join(items)), flags=r.choice(fls[:2]), alphabet=BYTES, maxlen=1, methods=1)
    return p.cases


def c06(n, seed):
    p = Pool()
    T = ['^', '$', r'\A', r'\Z', r'\b', r'\B']
    alph = 'a\n\r '
    for fl in ((), ('multiline',)):
        for t in T:
            for s in ('{t}', '{t}a', 'a{t}', 'a{t}a', '.{t}.', r'\n{t}a', r'a{t}\n', '(?:{t}|a)*', '(?={t})', '(?!{t}).', '(?<={t})a', '(?<!{t})a', 'a(?<=a{t})', '({t})a', '(?>{t})a?', r'(?:{t}\w)+', r'\s?{t}', '.*{t}', '.*?{t}a', r'[^a]{t}'):
                p.add(s.format(t=t), flags=fl, alphabet=alph, maxlen=4, methods=ALLM, how='ptr')
            for u in T:
                p.add(t + u, flags=fl, alphabet=alph, maxlen=4)
                p.add(t + '.' + u, flags=fl, alphabet=alph, maxlen=4)
                p.add('(?<=' + t + '.)' + u, flags=fl, alphabet=alph, maxlen=4)
    for t in (r'\b', r'\B'):
        for s in ('{t}', '.{t}', '{t}.', 'a{t}'):
            p.add(s.format(t=t), alphabet='a_9-Z', maxlen=3)
            p.add(s.format(t=t), alphabet=BYTES, maxlen=2 if n > 500 else 1)
    for t, s in rand(seed, n, [L('a'), ('wild',), ('class', 'word', 0), ('class', 'lbrk', 0)], dict(seq=5, alt=2, rep=2, test=5, ahead=1, behind=1), depth=3, modes='ggl'):
        for fl in ((), ('multiline',)):
            p.add(s, flags=fl, alphabet=alph, maxlen=4)
    return p.cases


def c07(n, seed):
    p = Pool()
    p.many(['(a)|b', '(a)|(b)', '((a)|b)*', '((a)|b)+', '(?:(a)|b)*', '(?:(a)|(b))*', '(a*)*', '(a*)+', '(a?)*b', '(a|ab)(b|c)?', '(a)?b', '(a)??b', '(?:(a)b|a)', '(?:(a)b)?ab', '(?=(a))', '(?!(a))b', '(?>(a)|b)a', '(?>(a)b)?', '(?:(a)|b){2}',
            '(?:(a)|b){2,3}?', '(?:(a)|b){3}+', '(?:(a)|b)*+', '(?:(a)|b)?+', '((a)(b)?)*', '((a)|(b)|(c))*', '(a(b(c)?)?)?', '(.)(.)?(.)?', '(?<x>a)(?<y>b)?', '(?:(?=(a))a|b)*', '(?<=(a))b', '(?<!(a))b', '(?<=(a)(b)?)c', '(a)*?b', '(?:(a)b?)*a',
            '(?>(a+))(b)?', '((?>a|ab))(b)?', '(a{2})*', '(a){0,2}(b)?', '(a){0}b', '()a', '(a|b|())c', '(?:()|a)*b', '(?:(a*)b)*a', '(?:(a)|(b)|c)*+', '(?:(a)(?:b|(c)))+', '(?!(a)b)(a)', '(?=(a)(b)?)a', '(?:(a)(?!b))*', '(?:a(?=(b))|b(a)?)*'], alphabet='abc', maxlen=5)
    for t, s in rand(seed, n, AB, dict(cap=6, seq=4, alt=4, rep=4, atom=1, ahead=1, behind=1), depth=4, modes='gglp'):
        p.add(s, maxlen=6 if len(s) < 25 else 5)
    # groups of successive results
    p.many(['(a)|b', '(a)|(b)', '(?:(a)|b)', '(a)?b', '(a)??b', '(a)(b)?', '(?:(a)b|a)', 'a(b)?|b', '(?<=(a))b|a', '(?:(a)|(b)|c)', '(a*)b|c', '((a)|b){2}', '(?=(a))a|b', '(?!(a)b)(a)|b', 'c(?:(a)|b)*+', '(?<x>a)(?<y>b)?|c'], alphabet='abc', maxlen=5, methods=GENM, how='ptr')
    return p.cases


def c08(n, seed):
    p = Pool()
    B = ['(a|b)\\1', '(a*)\\1', '(a*)b\\1', '(ab?)\\1', '(a)?\\1b', '(?:(a)|b)\\1', '(a|b)(a|b)\\2\\1', '(?<x>a|b)\\k<x>', '(?<x>a*)(?<y>b*)\\k<y>\\k<x>', '(?:(a|b)\\1)+', '(a+)\\1$', '(?=(a+))\\1b', '(?<=(a|b))\\1', '(?<=\\1(a|b))', '(?<=(a|b)\\1)', '(a|b)(?=\\1)',
         '(a|b)(?!\\1)', '(a|b)\\1*', '(a|b)\\1+?b', '(a|b)\\1{2}', '\\1(a)', '(?:\\1a|(b))+', '(a|b)(?>\\1|.)', '((a|b)\\2)\\1', '(a?)\\1\\1', '()\\1a', '(a\\1)', '(?<!\\1)(a|b)', '(.)(.)\\2\\1', '(..)\\1', '(.)\\1', '(?<=(..)\\1)', '(?<=\\1(..))', '(?<=(..))\\1']
    for s in B:
        p.add(s, maxlen=6, methods=ALLM, how='ptr')
        p.add(s, alphabet='aAb', maxlen=5, flags=('icase',))
    for s in ('(.)\\1', '(?<x>.)\\k<x>', '(?<=(.)\\1)', '(?<=\\1(.))'):
        for fl in ((), ('icase',)):
            p.add(s, alphabet='aA@`', maxlen=4, flags=fl)
            p.add(s, alphabet='[{1Q\x11q', maxlen=3, flags=fl)
            p.add(s, alphabet=BYTES, maxlen=2, flags=fl, methods=1)
    ten = ''.join('(%s)' % c for c in 'abcdefghij')
    p.many([ten + '\\10', ten + '\\9', ten + '\\1[0]', ten + '(?:\\1)0'], alphabet='a', maxlen=0, extra=['abcdefghij' + x for x in ('j', 'a0', 'i', 'a', '', 'b')])
    for t, s in rand(seed, n, AB, dict(cap=5, seq=5, alt=2, rep=3, bref=5, ahead=.7, behind=.7, atom=.5), depth=4, modes='gglp', names=.3):
        if '\\' in s:
            p.add(s, maxlen=6 if len(s) < 25 else 5)
            if len(s) < 30:
                p.add(s, alphabet='aAb', maxlen=4, flags=('icase',))
    return p.cases


def c09(n, seed):
    p = Pool()
    p.many(['a', 'ab', 'a*', 'a+', 'a?', '', 'a|ab', 'ab|a', '^a', 'a$', '^', '$', '(?=a)', r'\bab', '(?<=a)b', 'a*?', 'a+?b?', '.*', '.*?', '.*b', '.*?b', 'b|$', '[]', '[^]', '(?:a|b)*$', '(?!a)', '(?<!a)b', 'a{2}', '(?:ab)+', r'\Z', r'\A', 'aa|a', 'a(?=b)', '(?>a|ab)'], maxlen=6, methods=ALLM, how='ptr')
    for t, s in rand(seed, n, ABX, dict(seq=5, alt=3, rep=3, cap=1, test=1, ahead=1, behind=1), depth=3, modes='gglp'):
        p.add(s, maxlen=6)
    return p.cases


def c10(n, seed):
    p = Pool()
    p.many(['a', 'ab', 'a*', 'a+', 'a?', '', 'a|ab', '^a', 'a$', '^', '$', '(?=a)', r'\b', r'\bab?', '(?<=a)b', '(?<=^a)b', 'a*?', 'a+?b?', '.*', '.*?', '.*?b', 'b|$', '[]', '[^]', '(?!a)', '(?<!a)b', 'a{2}', '(?:ab)+', r'\Z', r'\A', r'\Aa', 'aa|a', 'a(?=b)', 'a|$', '(a)|(b)', '(a)(b)?', '(?:(a)|b)', 'a(b)?|b', '(?<=(a))b?', '(?<=b)a|b', r'\Ba', '(a)?', '(?<=a)|b'], maxlen=7, methods=GENM, how='ptr')
    for fl in (('multiline',), ('icase',), ('dotall',)):
        p.many(['^a?', 'a?$', '^', '$', '.+', 'A', '^.', '.$', '(?<=^a)b'], flags=fl, alphabet='a\nA', maxlen=5, methods=GENM, how='ptr')
    for t, s in rand(seed, n // 2, ABX, dict(seq=5, alt=4, rep=3, cap=2, test=1, ahead=1, behind=1), depth=3, modes='gglp'):
        p.add(s, maxlen=6, methods=GENM, how='ptr')
    return p.cases


TAGS = ('forward_iterator_tag', 'bidirectional_iterator_tag', 'random_access_iterator_tag')


def c11(n, seed):
    p = Pool()
    r = random.Random(seed)
    pats = ['a', 'ab', 'abc', '.', '[ab]', '[^a]', r'\w', r'\W', 'a*', 'a+?', 'a{2}', 'a{3}', 'a{2,3}', 'a{3,}?', 'a{2}+', '(?:ab){2}', '(?:ab)*', '(a)\\1', '(ab)\\1', '(?:a|ab)c?', '^a', 'a$', '^', '$', r'\b', r'\B', r'\ba', r'a\B', r'\A', r'\Z', '(?=a)', '(?!a)', '(?=ab)', '(?=..)', '(?=a{2})',
            '(?<=a)', '(?<!a)', '(?<=ab)', '(?<=..)', '(?<=a{2})', '(?<=a{3})b', '(?<=^a)', '(?<=a$)', r'(?<=\b)', r'(?<=\Ba)', '(?<=(a)\\1)', '(?<=\\1(a))', '(?<=a(?=b))', '(?<=(?<=a)b)', '(?>a*)', 'a*+b', '(a*)*', '[]', '[^]', 'abcd', 'a.{2}', '.{4}', r'[^]{3}', '(?:a{2}){2}', '(ab?)\\1', '(?<=[^]{2})', '.*', '.*?b', '(?:a.)+', 'a|bb|bab']
    for s in pats:
        for fl in ((), ('multiline',), ('unroll',)):
            if fl == ('multiline',) and not any(x in s for x in '^$'):
                continue
            if fl == ('unroll',) and '{' not in s:
                continue
            for tag in TAGS:
                try:
                    t = R.parse(s)[0]
                except R.Bad:
                    raise
                if tag == TAGS[0] and (needs_bidi(t, fl == ('multiline',)) or '\\1' in s):
                    continue
                p.add(s, flags=fl, alphabet='ab\n' if '^' in s or '$' in s else 'ab', maxlen=4, methods=ALLM, how='safe:' + tag)
    for t, s in rand(seed, n // 3, ABX, dict(seq=5, alt=3, rep=4, cap=1, test=1, ahead=1, behind=2, bref=.5), depth=3, modes='gglp'):
        tag = r.choice(TAGS[1:]) if needs_bidi(t, True) or '\\' in s else r.choice(TAGS)
        p.add(s, flags=r.choice(((), ('unroll',), ('multiline',))), maxlen=5, methods=M3 | 8 | 16, how='safe:' + tag)
    return p.cases


def c12(n, seed):
    p = Pool()
    E = ['a*', 'a?', 'a??', '(?:a|b?)', '(a*)', '()', '(?:)', '(?=a)', '(?!a)', '^', '$', r'\b', '(?<=a)', 'a{0}', 'a{0,2}', '(?:a*b*)', '(?>a*)', 'a*+', '(?:a*?)', '(a?)\\1', '(?:(?:a*)*)', '(?:^|a)', '(?:$|a)', '(?:a|(?=b))', r'(?:\b|a)', r'\B', r'(?:\Z)?', '(?:a?b??)']
    for e in E:
        x = e if e.startswith('(') and e.endswith(')') and not e.endswith('\\1)') and e.count('(') == 1 else '(?:%s)' % e
        for q in ('*', '+', '*?', '+?', '*+', '++', '{2,}', '{2,}?', '{1,}+', '{0,}', '{3,}'):
            p.add(x + q, maxlen=4, methods=ALLM, how='ptr')
            p.add(x + q + 'b', maxlen=4)
    for t, s in rand(seed, n // 2, [L('a'), ('empty',), ('test', 'bol', 0), ('look', 0, 0, L('a'))], dict(rep=6, seq=3, alt=3, cap=1, atom=1), depth=4, modes='gglp', bounds=[(0, None), (1, None), (0, 1), (2, None), (0, 2)]):
        p.add(s, maxlen=4, methods=ALLM, how='ptr')
    return p.cases


METAS = 'ab(|)*+?{}[]^-\\$.,12<>:=!dk'


def c13(n, seed):
    p = Pool()
    p.many(['ab*', '(ab)*', 'a|bc', 'ab|c', '(?:a|b)c', 'a|b*', 'a{2}b', 'ab{2}', 'a{', 'a{b', 'a{+', 'a{,2}', 'xa{|b', 'a{{', 'a{{2}', 'a{}', 'a}', 'a]', 'a{2}?', 'a{1,2}+', 'a{2,}', '[a-c]', '[-a]', '[a-]', '[a-c-e]', r'[\d-a]', r'[\w-a]', r'[\s-a]', r'[\R-a]', r'[\N-z]', '[]a]', '[^]a]', '[^]', '[^^]', '[a^]', '[a|b]', '[(]', '[*+?]',
            r'\(a\)', r'\*', r'\.', r'\x61', r'\x4a', r'[\x61-\x63]', r'[\x61-c]', r'[a-\x63]', r'\c', r'\q', r'[\1]', r'[\12]', r'[\k]', r'[\A\Z\B]', r'[\b]', '(?:a)(?=b)b', '(?<n>a)\\k<n>', 'a(?:b|c)*d', 'a|b|c|d', 'ab|cd|ef', '(a|b)(c|d)', '(?:a(?:b(?:c)))', 'a??b', 'a+?b', 'a*?b', 'a?+b', 'a++b', 'a*+b', 'a{2}{'[:4], r'a\{2}', r'\n\r\t\f\v\a\e\0',
            'ab{2,3}c', '(?:ab){2,3}c', 'a|b{2}', '(a)(b)\\2', '(?>ab|a)c', '(?<=a|b)c', '(?<!ab)c', '(?!a|b)c', '^a|b$', '^(?:a|b)$', 'a{0}b', 'a{10}', 'a{1}', 'a{01}', r'[^\d]', r'[\d\D]', '[a-a]', '[--a]', '[+--]', r'[\--a]', r'[a\-c]', '[a-c-]', '[a-b--c]', '()', '(?:)', '(|a)'[:0] + '(a|())', 'a()b', '(())', '(?=)a', '(?>)a', '(?<x>)a', 'a{2,3', ][:-1],
           alphabet='abc', maxlen=4, extra=['{', 'a{', 'a{b', 'a{{', 'ab{', 'a{{{', '-', ']', '^', 'a]', 'a}', 'a{}', 'a{,2}', 'xb', 'xa{', 'b', '(', 'a|b', '*', '+', '?', '|', '.', '\\', 'aaaaaaaaaa', 'z', 'd', '1', '2', '12', 'k', 'A', 'Z', 'B', '\b', '\n', '\r', '\t', ' ', 'q', 'c', 'J', '\n\r\t\f\v\a\x1b', '_', 'a{2}', 'a{01}', ',', '+,', '-a', 'd-', 'e', '{2}', 'abcd', 'cd', 'ef', 'ac', 'acd', 'abccbd', '0', '9', 'ww', 'w'])
    # every short pattern
    r = random.Random(seed)
    short = []
    for k, m in ((2, 1.0), (3, .12 if n < 500 else 1.0), (4, .004 if n < 500 else .04), (5, .0003 if n < 500 else .002)):
        if k < 4:
            it = (''.join(t) for t in itertools.product(METAS, repeat=k))
            it = [s for s in it if r.random() < m]
        else:
            it = [''.join(r.choice(METAS) for _ in range(k)) for _ in range(int(len(METAS) ** k * m * (1 if k < 5 else .2)))]
        for s in it:
            try:
                R.parse(s)
                short.append(s)
            except (R.Bad, R.Unsupported):
                pass
    r.shuffle(short)
    for s in short[:n]:
        p.add(s, alphabet=''.join(sorted(set('ab' + ''.join(c for c in s if c.isalnum() or c in '{}[],-<>:=!')))), maxlen=2 if len(s) < 4 else 2, extra=[s, s.replace('\\', ''), 'aab', 'aba', 'bbb', 'aaaa'])
    for t, s in rand(seed + 1, n // 3, AB, dict(rep=4, seq=4, alt=4, cap=2, atom=1, ahead=1, behind=1, empty=.5), depth=4, modes='gglp'):
        p.add(s, maxlen=5)
    return p.cases


def c15(n, seed):
    p = Pool()
    p.many(['(a)|(b)', '(a(b))', '((a)b)', '((a)|(b))', '(a)(?:(b)|(c))(a)?', '(?:(a)|(b))(c)', '((a)|(b))(c)', '(?=(a))(b)?(a)', '(a)(?<=(a))(b)', '(?>(a)|(b))(c)', '(a)*(b)*', '(?:(a)(b))*(c)', '(((a)))', '((a)((b)(c)))', '(?<x>a)(b)(?<y>c)', '(a)(?<x>b)|(?<y>c)', '(?!(a))(b)', '(a)?((b)|(c))+', '(?:(a)|(?:(b)|(c)))', '((a)|b)((c)|b)',
            '(a){2}(b)', '(?:(a)|b){2}(c)', '(a)(b)(c)(a)(b)(c)(a)(b)(c)', '(?:(a)|(b)|(c)|(?:ab(c)))', '(?:(?:(a)|b)|(c))', '(a|(b)|c)(a|(b)|c)', '(?<=(a)(b))(c)', '(?<!(a))(b)', '(a)\\1(b)\\2', '(?:(a)|(b))\\2', '(?:(a)|(b)(c))\\3', '(a)|(?:(b)|((c)))'], alphabet='abc', maxlen=5)
    for t, s in rand(seed, n, AB + [L('c')], dict(cap=7, seq=5, alt=5, rep=2, atom=1, ahead=1, behind=1, bref=1), depth=4, modes='gglp', ncap=8, names=.3):
        names = R.parse(s)[2]
        p.add(s, alphabet='abc', maxlen=4, how='named:' + ', '.join('nm<"%s", %d>' % x for x in names.items()) if names else 'ptr3')
    for s in ('(?<x>a)(b)(?<y>c)', '(a)(?<x>b)|(?<y>c)', '(?<long_Name9>a)(?<_>b)?', '(?:(?<a>a)|(?<b>b))(?<c>c)', '((?<in>a)b)(?<out>c)?', '(?<=(?<p>a))(?<q>b)'):
        p.add(s, alphabet='abc', maxlen=4, how='named:' + ', '.join('nm<"%s", %d>' % x for x in R.parse(s)[2].items()))
    return p.cases


def c17(n, seed):
    p = Pool()
    r = random.Random(seed)
    cls = [('class', 'digit', 0), ('class', 'word', 1), ('class', 'space', 0), ('class', 'lbrk', 1), ('set', 0, [('range', 97, 98)]), ('set', 1, [L('a')])]
    for t, s in rand(seed, n, AB * 2 + [('wild',)] + cls[-2:], dict(seq=5, alt=4, rep=4, cap=2, atom=1, ahead=1, behind=1, test=1, bref=.7, empty=.3), depth=3, modes='gglp', names=.3):
        p.add(s, expr=xpr(t, r), flags=r.choice(((), (), ('icase',), ('ungreedy',), ('multiline', 'dotall'))), maxlen=5)
    for t in cls:
        p.add(unparse(t), expr=xpr(t, r), alphabet=BYTES, maxlen=1)
    p.add('[a-z]', expr='xpr::lower', alphabet=BYTES, maxlen=1)
    p.add('[A-Z]', expr='xpr::upper', alphabet=BYTES, maxlen=1)
    p.add('[a-z]', expr='xpr::lower', alphabet=BYTES, maxlen=1, flags=('icase',))
    for s, e in [(r'\w+(?!\w)', '+xpr::word >> not xpr::ahead(xpr::word)'), ('[]', 'xpr::nothing'), ('[]?a', 'xpr::maybe(xpr::nothing) >> xpr::chr<\'a\'>'), (r'\b', 'xpr::word_boundary'), (r'\Aa', "xpr::begin_input >> xpr::chr<'a'>"), ('a$', "xpr::chr<'a'> >> xpr::end_line"), ('(?:ab|b)+a', 'xpr::regex<"(?:ab|b)+"> >> xpr::chr<\'a\'>'),
                 ('(?:a|b|ab)b', 'xpr::concat(xpr::either(xpr::chr<\'a\'>, xpr::regex<"b|ab">), xpr::str<"b">)'), ('ab(?:a|b)', 'xpr::str<"ab"> >> (xpr::chr<\'a\'> | xpr::chr<\'b\'>)'), ('(?:aba|b)', 'xpr::str<"aba"> | xpr::str<"b">'), ('a(?:b|ba)a?', "xpr::chr<'a'> >> xpr::regex<\"b|ba\"> >> xpr::maybe(xpr::chr<'a'>)"), ('(ab)\\1', 'xpr::capture<1>(xpr::str<"ab">) >> xpr::group<1>'),
                 ('(?<x>a|b)\\k<x>', 'xpr::capture<1, "x">(xpr::chr<\'a\'> | xpr::chr<\'b\'>) >> xpr::group_named<"x">'), ('(?:ab){2}', 'xpr::exactly<2>(xpr::str<"ab">)'), ('(?:ab){2}', "xpr::exactly<2>(xpr::chr<'a'>, xpr::chr<'b'>)"), ('(?:ab){1,2}?a', "xpr::between<1, 2, meta::match_mode::lazy>(xpr::chr<'a'>, xpr::chr<'b'>) >> xpr::chr<'a'>"), ('(?:ab){2,}+', "xpr::at_least<2, meta::match_mode::possessive>(xpr::str<\"ab\">)"),
                 ('(?<=ab)a', "xpr::behind(xpr::chr<'a'>, xpr::chr<'b'>) >> xpr::chr<'a'>"), ('(?!ab)a', "!xpr::ahead(xpr::str<\"ab\">) >> xpr::chr<'a'>"), ('(?>a|ab)b', 'xpr::atomic(xpr::chr<\'a\'> | xpr::str<"ab">) >> xpr::chr<\'b\'>')]:
        for fl in ((), ('icase',), ('ungreedy',)):
            p.add(s, expr=e, flags=fl, maxlen=5, methods=ALLM, how='ptr')
    return p.cases


def c16(n, seed):
    p = Pool()
    p.many(['a', 'a*', '(a)|(b)', '(a)(b)?', '(?<x>a+)(?<y>b)?', '((a)|b)*', '()a?', '[]', '(a*)(b*)(a*)', '(?<x>a)|(?<y>b)|(ab)', '', '(?=(a))a', '(ab|a)(?<z>b*)'], maxlen=4, how='acc')
    for t, s in rand(seed, n // 10, ABX, dict(cap=6, seq=5, alt=3, rep=3), depth=3, modes='gglp', names=.5):
        p.add(s, maxlen=4, how='acc')
    for s in ('(?<x>a+)(?<y>b)?', '(?<x>a)|(?<y>b)|(ab)', '(?<one>a(?<two>b?))*(c)?', '(?:(?<n>a)|b)*'):
        p.add(s, alphabet='abc', maxlen=3, how='named:' + ', '.join('nm<"%s", %d>' % x for x in R.parse(s)[2].items()))
    long = [x for k in (14, 15, 16, 17, 31, 33, 64) for x in ('a' * k, ' ' * k, (' 0123456789abcdef' * 4)[:k], ('b' * k)[:-1] + 'a', 'a' + 'b' * (k - 1))]
    p.many(['.*', '(.)(.*)', '(.*)(.)', '(?<x>a*)(?<y>b*)', '(a*)|(b*a?)'], maxlen=0, extra=long, how='acc')
    return p.cases


CONT = ['std::string', 'std::vector<char>', 'std::deque<char>', 'std::list<char>', 'std::forward_list<char>', 'rev', 'revlist']


def c18(n, seed):
    p = Pool()
    r = random.Random(seed)
    pats = ['a*b', '(a+)(b?)', '(?:a|ab)(b|a)', 'a{2,3}?b', 'a{3}', '(?:ab){2}', 'a*+b?', '[ab]+?a', '.*b', '(?>a|ab)b?', '(?=ab)a', '(?!ab).', '^a|b$', 'a|ab|b', '(a|b)*', '(a*)*b', 'abab', 'a..b', '(?:a.)+', '(?<=a)b', '(?<!a)b', r'\ba', r'\B.', '(?<=ab)a', '(a|b)\\1', '(?<=(a|b)\\1)', '(?<=a{2})b', '(?<=^a)b', r'\Aa+\Z', 'a+?b+?$']
    for s in pats:
        t = R.parse(s)[0]
        for c in CONT:
            if c == 'std::forward_list<char>' and (needs_bidi(t) or '\\1' in s):
                continue
            p.add(s, maxlen=5, methods=ALLM, how=('cont:' + c) if '::' in c else c)
            if '{' in s and c in ('std::list<char>', 'std::forward_list<char>', 'std::deque<char>', 'revlist'):
                p.add(s, flags=('unroll',), maxlen=5, methods=M3, how=('cont:' + c) if '::' in c else c)
    long = ['a' * k for k in range(4, 22)] + ['ab' * k + x for k in range(2, 10) for x in ('', 'a', 'b')]
    for s in ('abababab', 'a{6}', 'a{10}b?', '[ab]{7}', '(?:ab){5}', '(?:a|b){9}', 'aaaaaaa', '[ab]{16}', 'a{5,8}?b?', '(ab){6,}', '.{20}', '(?<=a{6})b?', '(?<=[ab]{12})a?'):
        for c in CONT:
            if c != 'std::forward_list<char>' or '<=' not in s:
                p.add(s, maxlen=0, extra=long, how=('cont:' + c) if '::' in c else c)
    for s in ('a', 'a|ab', '(a)(b)?', '^a', 'a$', 'a*', '(a)|b'):
        for c in ('std::string', 'std::vector<char>', 'std::deque<char>', 'std::list<char>'):
            p.add(s, maxlen=5, methods=ALLM, how='whole:' + c)
    ins = ['', 'a', 'b', 'ab', 'aab', 'abab', 'bba', 'aabbab', 'aaab', 'abb']
    for s in pats + ['[^b]+', r'\w{2,}', '(?:a?)*b', '(?:(a)|b)*', r'(?<=\b)a', '(?<x>a)\\k<x>']:
        p.add(s, maxlen=0, extra=ins, how='ctime:' + ', '.join('"%s"' % i for i in ins))
        for tag in TAGS[:2]:
            if tag == TAGS[1] or not (needs_bidi(R.parse(s)[0]) or '\\' in s):
                p.add(s, maxlen=0, extra=ins, how='ctimew:%s, %s' % (tag, ', '.join('"%s"' % i for i in ins)))
    for s in ('a{7}', '[ab]{6}', 'abababab', '(?:ab){5}', 'a{3,8}?b', 'a{5,}+b', '(?:a|b){9}', '(?<=a{6})b'):
        lng = [''] + ['a' * k + x for k in (5, 6, 7, 8) for x in ('', 'b')] + ['ab' * k for k in (3, 4, 5)] + ['abababa', 'aaaaaaaaa']
        for tag in TAGS:
            if tag != TAGS[0] or '<=' not in s:
                p.add(s, maxlen=0, extra=lng, how=('ctimew:%s, ' % tag if tag != TAGS[2] else 'ctime:') + ', '.join('"%s"' % i for i in lng))
    import difftest
    import constant
    if constant.asks(difftest.REPO):
        # the code distinguishes: many more evaluations during compilation
        ins = ['', 'a', 'b', 'aa', 'ab', 'ba', 'aab', 'aba', 'abb', 'bba', 'aaab', 'abab', 'aAa', 'a\\nb']
        for t, s in rand(seed + 5, 150, ABX, dict(seq=5, alt=3, rep=5, cap=2, test=1.5, ahead=1, behind=1.5, bref=1, atom=.7), depth=3, modes='gglp'):
            p.add(s, flags=r.choice(((), (), ('icase',), ('multiline',), ('unroll',), ('dotall',), ('ungreedy',))), maxlen=0, extra=[i.replace('\\n', '\n') for i in ins], how=r.choice(('ctime:', 'ctimew:bidirectional_iterator_tag, ')) + ', '.join('"%s"' % i for i in ins))
    for s in ('(a|b)\\1', '^a', 'a$'):
        for c in CONT:
            if c != 'std::forward_list<char>':
                p.add(s, flags=('icase',) if '1' in s else ('multiline',), alphabet='aAb' if '1' in s else 'a\nb', maxlen=4, methods=M3, how=('cont:' + c) if '::' in c else c)
    for t, s in rand(seed, n // 3, ABX, dict(seq=5, alt=3, rep=4, cap=2, test=.7, ahead=1, behind=1.5, bref=.5, atom=.5), depth=3, modes='gglp'):
        for c in r.sample(CONT, 2):
            if c == 'std::forward_list<char>' and (needs_bidi(t) or '\\' in s):
                continue
            p.add(s, maxlen=5, methods=ALLM if len(s) < 12 else M3, how=('cont:' + c) if '::' in c else c)
    return p.cases


POOLS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18}


def pool(prop, tier, seed):
    n = 240 if tier == 'quick' else 1500
    return POOLS[prop](n, seed)
