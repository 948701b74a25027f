"""Reference parser: the documented pattern syntax (README, syntax reference), written independently of the library's
grammar tables as a recursive descent over the pattern.  Produces the structure a pattern denotes."""


class Bad(Exception):
    """syntax error"""


class Unsupported(Exception):
    """accepted by the syntax, but ruled out by another compile-time rule (bounds out of order, no such group)"""


ESC_CHAR = {'0': 0, 'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7, 'e': 27}
CLASSES = {'d': ('digit', 0), 'D': ('digit', 1), 'w': ('word', 0), 'W': ('word', 1), 's': ('space', 0), 'S': ('space', 1), 'R': ('lbrk', 0), 'N': ('lbrk', 1)}
TESTS = {'b': ('wordb', 0), 'B': ('wordb', 1), 'A': ('boi', 0), 'Z': ('eoi', 0)}
QUANT = {'*': (0, None), '+': (1, None), '?': (0, 1)}


def is_name(c, first):
    return c != '' and (c.isascii() and (c.isalnum() or c == '_')) and not (first and c.isdigit())


class Parser:
    def __init__(self, text):
        self.t, self.i, self.groups = text, 0, 0
        self.names = {}
        self.brefs = []

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def take(self):
        c = self.peek()
        if c == '':
            raise Bad('end of pattern')
        self.i += 1
        return c

    def expect(self, c):
        if self.take() != c:
            raise Bad('expected ' + c)

    def parse(self):
        if not self.t:
            return ('empty',)
        r = self.alternation()
        if self.i != len(self.t):
            raise Bad('trailing')
        for b in self.brefs:
            if isinstance(b, int) and b > self.groups or isinstance(b, str) and b not in self.names:
                raise Unsupported('no such group')
        return r

    def alternation(self):
        alts = [self.sequence()]
        while self.peek() == '|':
            self.take()
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def sequence(self):
        items = []
        while self.peek() not in ('', ')', '|'):
            items += self.item()
        if not items:
            raise Bad('empty alternative')
        return items[0] if len(items) == 1 else ('seq', items)

    def item(self):
        """one atom with its quantifier; a brace that starts no quantifier is a literal following it"""
        node, quantifiable = self.atom()
        out = []
        while True:
            c = self.peek()
            if c in QUANT:
                if not quantifiable:
                    raise Bad('nothing to repeat')
                self.take()
                a, b = QUANT[c]
                return out + [self.modifier(node, a, b)]
            if c != '{':
                return out + [node]
            if not quantifiable:
                raise Bad('nothing to repeat')
            self.take()
            if self.peek() not in tuple('0123456789'):
                out.append(node)
                node = ('lit', ord('{'))
                continue
            a = self.number()
            b = a
            if self.peek() == ',':
                self.take()
                b = self.number() if self.peek() in tuple('0123456789') else None
            self.expect('}')
            if b is not None and b < a:
                raise Unsupported('bounds')
            return out + [self.modifier(node, a, b)]

    def number(self):
        v = ''
        while self.peek() in tuple('0123456789'):
            v += self.take()
        return int(v)

    def modifier(self, node, a, b):
        mode = 'g'
        if self.peek() == '?':
            self.take()
            mode = 'l'
        elif self.peek() == '+':
            self.take()
            mode = 'p'
        return ('rep', node, a, b, mode)

    def atom(self):
        c = self.take()
        if c in '*+?{)|':
            raise Bad('unexpected ' + c)
        if c == '(':
            return self.group(), True
        if c == '[':
            return self.set(), True
        if c == '.':
            return ('wild',), True
        if c == '^':
            return ('test', 'bol', 0), False
        if c == '$':
            return ('test', 'eol', 0), False
        if c == '\\':
            return self.escape()
        return ('lit', ord(c)), True

    def hex(self):
        v = 0
        for _ in range(2):
            c = self.take()
            if c not in '0123456789abcdefABCDEF':
                raise Bad('hex digit')
            v = 16 * v + int(c, 16)
        return v

    def name(self):
        n = ''
        while True:
            c = self.take()
            if c == '>' and n:
                return n
            if not is_name(c, not n):
                raise Bad('name')
            n += c

    def escape(self):
        c = self.take()
        if c in ESC_CHAR:
            return ('lit', ESC_CHAR[c]), True
        if c in CLASSES:
            return ('class',) + CLASSES[c], True
        if c in TESTS:
            return ('test',) + TESTS[c], False
        if c == 'x':
            return ('lit', self.hex()), True
        if c == 'k':
            self.expect('<')
            n = self.name()
            self.brefs.append(n)
            return ('nbref', n), True
        if c in '123456789':
            self.i -= 1
            n = self.number()
            self.brefs.append(n)
            return ('bref', n), True
        return ('lit', ord(c)), True

    def body(self):
        if self.peek() == ')':
            self.take()
            return ('empty',)
        r = self.alternation()
        self.expect(')')
        return r

    def group(self):
        if self.peek() != '?':
            self.groups += 1
            n = self.groups
            return ('cap', n, '', self.body())
        self.take()
        c = self.take()
        if c == ':':
            return self.body()
        if c == '>':
            return ('atom', self.body())
        if c == '=':
            return ('look', 0, 0, self.body())
        if c == '!':
            return ('look', 0, 1, self.body())
        if c == '<':
            if self.peek() == '=':
                self.take()
                return ('look', 1, 0, self.body())
            if self.peek() == '!':
                self.take()
                return ('look', 1, 1, self.body())
            nm = self.name()
            self.groups += 1
            n = self.groups
            if nm in self.names:
                raise Unsupported('duplicate name')
            self.names[nm] = n
            return ('cap', n, nm, self.body())
        raise Bad('group kind')

    def set_escape(self, range_end):
        c = self.take()
        if c == 'b':
            return ('lit', 8)
        if c in CLASSES:
            if range_end:
                raise Bad('class as range bound')
            return ('class',) + CLASSES[c]
        if c in ESC_CHAR:
            return ('lit', ESC_CHAR[c])
        if c == 'x':
            return ('lit', self.hex())
        return ('lit', ord(c))

    def set(self):
        neg = 0
        if self.peek() == '^':
            self.take()
            neg = 1
        items = []
        fresh = False  # whether the last item may begin a range
        while True:
            c = self.take()
            if c == ']':
                break
            if c == '\\':
                items.append(self.set_escape(False))
                fresh = True
            elif c == '-' and fresh and self.peek() != ']':
                start = items[-1]
                if self.peek() == '\\':
                    self.take()
                    end = self.set_escape(True)
                else:
                    end = ('lit', ord(self.take()))
                if start[0] == 'lit':
                    items[-1] = ('range', start[1], end[1])
                    if start[1] > end[1]:
                        raise Unsupported('bounds')
                else:
                    items += [('lit', ord('-')), end]
                fresh = False
            else:
                items.append(('lit', ord(c)))
                fresh = True
        return ('set', neg, items)


def parse(text):
    p = Parser(text)
    r = p.parse()
    return r, p.groups, p.names


def ser(n):
    """serialised form read by oracle.hpp"""
    k = n[0]
    if k == 'empty':
        return 'E'
    if k == 'lit':
        return 'L %d' % n[1]
    if k == 'range':
        return 'G %d %d' % (n[1], n[2])
    if k == 'wild':
        return 'W'
    if k == 'class':
        return 'C %d %d' % ({'digit': 0, 'word': 1, 'space': 2, 'lbrk': 3, 'lower': 4, 'upper': 5}[n[1]], n[2])
    if k == 'set':
        return 'T %d %d %s' % (n[1], len(n[2]), ' '.join(ser(x) for x in n[2]))
    if k == 'seq':
        return 'S %d %s' % (len(n[1]), ' '.join(ser(x) for x in n[1]))
    if k == 'alt':
        return 'A %d %s' % (len(n[1]), ' '.join(ser(x) for x in n[1]))
    if k == 'rep':
        return 'R %d %d %d %s' % (n[2], -1 if n[3] is None else n[3], 'glp'.index(n[4]), ser(n[1]))
    if k == 'cap':
        return 'P %d %s' % (n[1], ser(n[3]))
    if k == 'atom':
        return 'O %s' % ser(n[1])
    if k == 'look':
        return 'K %d %d %s' % (n[1], n[2], ser(n[3]))
    if k == 'test':
        return 'B %d %d' % ({'bol': 0, 'eol': 1, 'boi': 2, 'eoi': 3, 'wordb': 4}[n[1]], n[2])
    if k == 'bref':
        return 'F %d' % n[1]
    if k == 'nothing':
        return 'N'
    raise ValueError(k)


def resolve(n, names):
    """named back-references become numbers"""
    k = n[0]
    if k == 'nbref':
        return ('bref', names[n[1]])
    if k in ('seq', 'alt'):
        return (k, [resolve(x, names) for x in n[1]])
    if k == 'rep':
        return (k, resolve(n[1], names)) + n[2:]
    if k == 'cap':
        return n[:3] + (resolve(n[3], names),)
    if k == 'atom':
        return (k, resolve(n[1], names))
    if k == 'look':
        return n[:3] + (resolve(n[3], names),)
    return n
