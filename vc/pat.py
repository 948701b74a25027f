"""Pattern descriptions: each gives the C++ node type that is compiled and the specification it must satisfy."""
import z3
import spec as S

INF = None


class P:
    def cpp(self):
        raise NotImplementedError

    def spec(self, fl):
        raise NotImplementedError

    def ids(self):
        """opaque sub-patterns used: id -> may be empty"""
        out = {}
        for x in self.kids():
            out.update(x.ids())
        return out

    def kids(self):
        return ()

    def mirror(self):
        """the pattern that means on the text read from its end what this one means"""
        return self

    def charpreds(self, fl):
        out = []
        for x in self.kids():
            out += x.charpreds(fl)
        return out


class N(P):
    def __init__(self, i, empty=True):
        self.i, self.e = i, empty

    def cpp(self):
        return 'node<%d,%s>' % (self.i, 'true' if self.e else 'false')

    def spec(self, fl):
        return S.Opaque(self.i, self.e)

    def ids(self):
        return {self.i: self.e}


class ChP(P):
    """a single-character construct: pred(c, flags)"""

    def __init__(self, cpp, pred, name):
        self._cpp, self.pred, self.name = cpp, pred, name

    def cpp(self):
        return self._cpp

    def spec(self, fl):
        return S.Char(lambda c: self.pred(c, fl), self.name)

    def charpreds(self, fl):
        return [(self.name, lambda c: self.pred(c, fl))]


class C(ChP):
    def __init__(self, i):
        super().__init__('chr<%d>' % i, lambda c, fl: S.Cf(i)(c), 'c%d' % i)


def lit_pred(v, fl, c):
    r = c == v
    if 'icase' in fl and chr(v).isascii() and chr(v).isalpha():
        r = z3.Or(r, c == v ^ 32)
    return r


def LIT(v):
    return ChP('literal<char(%d)>' % v, lambda c, fl: lit_pred(v, fl, c), 'lit%d' % v)


def range_pred(a, b, fl, c):
    r = z3.And(z3.ULE(a, c), z3.ULE(c, b))
    if 'icase' in fl:
        o = c ^ 32
        r = z3.Or(r, z3.And(S.alpha(c), z3.ULE(a, o), z3.ULE(o, b)))
    return r


def RANGE(a, b):
    return ChP('range<char(%d),char(%d)>' % (a, b), lambda c, fl: range_pred(a, b, fl, c), 'rng%d_%d' % (a, b))


def SET(*x):
    return ChP('set<%s>' % ','.join(y.cpp() for y in x), lambda c, fl: z3.Or(*[y.pred(c, fl) for y in x]) if x else z3.BoolVal(False), 'set_' + '_'.join(y.name for y in x))


def NOT(x):
    return ChP('negated<%s>' % x.cpp(), lambda c, fl: z3.Not(x.pred(c, fl)), 'not_' + x.name)


WILD = ChP('wildcard', lambda c, fl: z3.BoolVal(True) if 'dotall' in fl else z3.And(c != 10, c != 13), 'wild')
WORD = ChP('word', lambda c, fl: S.is_word(c), 'word')
DIGIT = ChP('digit', lambda c, fl: z3.And(z3.ULE(48, c), z3.ULE(c, 57)), 'digit')
SPACE = ChP('whitespace', lambda c, fl: z3.Or(*[c == v for v in (10, 13, 32, 9, 11, 12)]), 'space')
LBRK = ChP('linebreak', lambda c, fl: S.is_nl(c), 'lbrk')
NOTHING = ChP('nothing', lambda c, fl: z3.BoolVal(False), 'nothing')


class EMPTY(P):
    def cpp(self):
        return 'empty'

    def spec(self, fl):
        return S.Empty()


class Many(P):
    def __init__(self, *x):
        self.x = x

    def kids(self):
        return self.x


class SEQ(Many):
    def cpp(self):
        return 'sequence<%s>' % ','.join(y.cpp() for y in self.x)

    def mirror(self):
        return SEQ(*[y.mirror() for y in self.x[::-1]])

    def spec(self, fl):
        return S.Seq(*[y.spec(fl) for y in self.x])


class ALT(Many):
    def cpp(self):
        return 'alternation<%s>' % ','.join(y.cpp() for y in self.x)

    def mirror(self):
        return ALT(*[y.mirror() for y in self.x])

    def spec(self, fl):
        return S.Alt(*[y.spec(fl) for y in self.x])


class REP(Many):
    def __init__(self, x, a, b, mode):
        super().__init__(x)
        self.a, self.b, self.mode = a, b, mode

    def mirror(self):
        return REP(self.x[0].mirror(), self.a, self.b, self.mode)

    def cpp(self):
        q = lambda v: 'meta::symbol::infinity' if v is None else 'meta::symbol::quantifier_value<%d>' % v
        return 'basic_repetition<meta::match_mode::%s,%s,%s,%s>' % (self.mode, q(self.a), q(self.b), self.x[0].cpp())

    def spec(self, fl):
        m = self.mode
        if 'ungreedy' in fl and m != 'possessive':
            m = 'lazy' if m == 'greedy' else 'greedy'
        return S.Rep(self.x[0].spec(fl), self.a, self.b, m)


class ATOM(Many):
    def mirror(self):
        return ATOM(self.x[0].mirror())

    def cpp(self):
        return 'atomic<%s>' % self.x[0].cpp()

    def spec(self, fl):
        return S.Atomic(self.x[0].spec(fl))


class CAP(Many):
    def __init__(self, g, x):
        super().__init__(x)
        self.g = g

    def mirror(self):
        return CAP(self.g, self.x[0].mirror())

    def cpp(self):
        return 'capture<%d,%s,%s>' % (self.g, 'meta::symbol::unnamed' if self.g == 1 else 'meta::symbol::name<"n">', self.x[0].cpp())

    def spec(self, fl):
        return S.Capture(self.g, self.x[0].spec(fl))


class LOOK(Many):
    def __init__(self, behind, neg, x):
        super().__init__(x)
        self.behind, self.neg = behind, neg

    def mirror(self):
        return LOOK(not self.behind, self.neg, self.x[0].mirror())

    def cpp(self):
        return '%s_%s<%s>' % ('negative' if self.neg else 'positive', 'lookbehind' if self.behind else 'lookahead', self.x[0].cpp())

    def spec(self, fl):
        return S.Look(self.behind, self.neg, self.x[0].spec(fl))


class TEST(P):
    def __init__(self, kind, neg=False):
        self.kind, self.neg = kind, neg

    def mirror(self):
        return TEST({'bol': 'eol', 'eol': 'bol', 'boi': 'eoi', 'eoi': 'boi'}.get(self.kind, self.kind), self.neg)

    def cpp(self):
        t = {'bol': 'beginning_of_line', 'boi': 'beginning_of_input', 'eol': 'end_of_line', 'eoi': 'end_of_input', 'wordb': 'word_boundary'}[self.kind]
        return 'negated<%s>' % t if self.neg else t

    def spec(self, fl):
        ml = 'multiline' in fl
        f = {'bol': lambda: S.bol(ml), 'boi': lambda: S.bol(False), 'eol': lambda: S.eol(ml), 'eoi': lambda: S.eol(False), 'wordb': lambda: S.wordb()}[self.kind]()
        if self.neg:
            g = f.fn
            return S.Test(lambda p: z3.Not(g(p)))
        return f


class BREF(P):
    def __init__(self, g, named=False):
        self.g, self.named = g, named

    def cpp(self):
        return 'named_backref<"n">' if self.named else 'backref<%d>' % self.g

    def spec(self, fl):
        return S.Backref(self.g, 'icase' in fl)
