"""Evaluation of the library's compile-time metafunctions.

The parser, the tree construction, the group numbering and the expression components of the library are type-level
functions: clang is their interpreter.  This module evaluates closed type expressions over the real headers and reads the
resulting types back.  Arguments the function under contract must treat as opaque are passed as skolem types (hx::sk<N>):
a template cannot look inside them, so the result is an answer for every argument, up to the specialisations that match
on a constructor, which the callers enumerate."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++', '-std=c++20', '-O0', '-w', '-ftemplate-depth=4096', '-fbracket-depth=4096']
PRE = r'''#include <mregex.hpp>
#include <cstdio>
namespace hx
{
    template<int N> struct sk {};
    // an opaque tree that stands for one character
    template<int N> struct tk { template<typename C> static constexpr bool match_one(char, C) noexcept { return false; } };
    struct err {};
    template<typename T> constexpr char const *nm() { return __PRETTY_FUNCTION__; }
    template<auto V> struct val {};
    using namespace meta;
}
'''
MARK = 'T = '


class Fail(Exception):
    """the metafunctions cannot be evaluated on this tree"""


class Eval:
    def __init__(self, prelude='', jobs=8):
        self.d = tempfile.mkdtemp(prefix='tm_')
        self.jobs, self.n, self.compiled = jobs, 0, 0
        try:
            with open(self.d + '/p.hpp', 'w') as f:
                f.write(PRE + prelude)
            r = subprocess.run(CXX + ['-I' + REPO + '/include', '-x', 'c++-header', self.d + '/p.hpp', '-o', self.d + '/p.pch'], capture_output=True, text=True)
            if r.returncode:
                raise Fail(errors(r.stderr))
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _compile(self, k, qs, decls):
        """-> printed types, or (indices of expressions the compiler complains about, message)"""
        src, exe = '%s/%s.cpp' % (self.d, k), '%s/%s' % (self.d, k)
        lead = 'using namespace hx;\n%s\nstatic char const *const v[] = {\n' % decls
        with open(src, 'w') as f:
            f.write(lead + ',\n'.join('nm<%s>()' % q for q in qs) + '};\nint main() { for (auto s : v) std::puts(s); }\n')
        r = subprocess.run(CXX + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-include-pch', self.d + '/p.pch', '-I' + REPO + '/include', src, '-o', exe], capture_output=True, text=True)
        os.unlink(src)
        if r.returncode:
            first = lead.count('\n') + 1
            at = {int(m) - first for m in re.findall(re.escape(src) + r':(\d+):', r.stderr)}
            return {i for i in at if 0 <= i < len(qs)}, errors(r.stderr)
        out = subprocess.run([exe], capture_output=True, text=True, encoding='latin1').stdout.split('\n')
        os.unlink(exe)
        out = [s[s.index(MARK) + len(MARK):-1] for s in out if MARK in s]
        if len(out) != len(qs):
            raise Fail('evaluator output')
        return out

    def _chunk(self, k, qs, decls):
        """an expression that does not compile is a Fail; the expressions named in the messages are taken out first (a
        class that failed once is not complained about again, hence the rounds), then the rest is halved"""
        left, out = list(range(len(qs))), [None] * len(qs)
        for rnd in range(12):
            if not left:
                return out
            r = self._compile('%sr%d' % (k, rnd), [qs[i] for i in left], decls)
            if isinstance(r, list):
                for i, x in zip(left, r):
                    out[i] = x
                return out
            for j in r[0]:
                out[left[j]] = Fail(r[1])
            if not r[0]:
                break
            left = [i for i in left if out[i] is None]
        if len(left) == 1:
            out[left[0]] = Fail(r[1])
        elif left and k.count('x') < 40:
            h = len(left) // 2
            for part, t in ((left[:h], 'xa'), (left[h:], 'xb')):
                for i, x in zip(part, self._chunk(k + t, [qs[i] for i in part], decls)):
                    out[i] = x
        return [Fail('not evaluated') if x is None else x for x in out]

    def __call__(self, qs, per=1500, decls=''):
        """-> list of printed types, or Fail for the expressions that do not compile"""
        if not qs:
            return []
        n = max(1, -(-len(qs) // per))
        if n > 1:
            n = -(-n // self.jobs) * self.jobs
        elif len(qs) > 160:
            n = min(self.jobs, len(qs) // 80)
        self.n += len(qs)
        base = self.compiled
        self.compiled += n
        out = [None] * len(qs)
        with ThreadPoolExecutor(self.jobs) as ex:
            for k, r in enumerate(ex.map(lambda k: self._chunk('q%d' % (base + k), qs[k::n], decls), range(n))):
                out[k::n] = r
        return out


def errors(s):
    e = [x for x in s.splitlines() if 'error' in x]
    return '\n'.join(e[:3])[-600:] or s[-300:]


def cch(c):
    """C++ character constant of one byte (a str of length one or an int)"""
    v = c if isinstance(c, int) else ord(c)
    return "char(%d)" % (v - 256 if v > 127 else v)



def cstr(s):
    return '"%s"' % ''.join(c if c.isalnum() and c.isascii() else '\\%03o' % ord(c) for c in s)


# ---- reading types back

class Ch(int):
    """a character constant"""


ESC = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7, 'b': 8, '0': 0, '\\': 92, "'": 39, '"': 34, 'e': 27, '?': 63}


def read(s):
    """printed type -> (name, args) | int | str name;  characters become ints, string values ('str', bytes)"""
    i = 0
    n = len(s)

    def ws():
        nonlocal i
        while i < n and s[i] == ' ':
            i += 1

    def char():
        nonlocal i
        i += 1
        if s[i] != '\\':
            v = ord(s[i])
            i += 1
        else:
            c = s[i + 1]
            i += 2
            if c == 'x':
                j = i
                while s[j] in '0123456789abcdefABCDEF':
                    j += 1
                v = int(s[i:j], 16)
                i = j
            else:
                v = ESC[c]
        if s[i] != "'":
            raise ValueError('character in ' + s[max(0, i - 20):i + 20])
        i += 1
        return Ch(v & 255)

    def braces():
        """{{{97, 98}}}"""
        nonlocal i
        j = s.index('}', i)
        body = s[i:j].strip('{ ')
        while j < n and s[j] == '}':
            j += 1
        i = j
        return ('str', bytes(int(x) & 255 for x in body.split(',') if x.strip()))

    def one():
        nonlocal i
        ws()
        if s[i] == "'":
            return char()
        if s[i] == '-' or s[i].isdigit():
            j = i + 1
            while j < n and (s[j].isdigit() or s[j] in 'UL'):
                j += 1
            v = int(s[i:j].rstrip('UL'))
            i = j
            ws()
            if i < n and s[i] in '+-*' and s[i + 1] == ' ':
                # an unevaluated constant such as 2UL - 1
                op = s[i]
                i += 1
                r = one()
                v = v - r if op == '-' else v + r if op == '+' else v * r
            return v
        j = i
        while j < n and (s[j].isalnum() or s[j] in '_:~' or s[j:j + 11] == '(anonymous '):
            j += 1
        name = s[i:j]
        if not name:
            raise ValueError('type in ' + s[max(0, i - 20):i + 20])
        i = j
        if name in ('struct', 'class', 'enum', 'const', 'typename'):
            return one()
        args = None
        if i < n and s[i] == '<':
            i += 1
            args = []
            ws()
            while s[i] != '>':
                args.append(one())
                ws()
                if s[i] == ',':
                    i += 1
                    ws()
            i += 1
        if i < n and s[i] == '{':
            return braces()
        return name if args is None else (name, args)
    t = one()
    ws()
    if i != n:
        raise ValueError('trailing text in type: ' + s[i:i + 40])
    return t


def head(t):
    return t[0] if isinstance(t, tuple) else t


def args(t):
    return t[1] if isinstance(t, tuple) and t[0] != 'str' else []


def short(nm):
    return nm.rsplit('::', 1)[-1]


def write(t):
    """type -> C++ (for symbols that go back into a query)"""
    if isinstance(t, Ch):
        return cch(int(t))
    if isinstance(t, int):
        return str(t)
    if isinstance(t, tuple) and t[0] == 'str':
        return 'meta::static_string<%d>{"%s"}' % (len(t[1]), ''.join('\\%03o' % c for c in t[1]))
    if isinstance(t, str):
        return t
    return '%s<%s>' % (t[0], ', '.join(write(a) for a in t[1]))


# ---- canonical trees

def bts(s, other=()):
    return ('bytes', frozenset(s), frozenset(other))


RANGE = {'digit': set(range(48, 58)), 'lower': set(range(97, 123)), 'upper': set(range(65, 91)), 'lbrk': {10, 13}, 'space': {9, 10, 11, 12, 13, 32}}
RANGE['word'] = RANGE['digit'] | RANGE['lower'] | RANGE['upper'] | {95}
MODES = {'meta::match_mode::greedy': 'g', 'meta::match_mode::lazy': 'l', 'meta::match_mode::possessive': 'p'}


def seq(xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == 'seq' else [x]
    return out[0] if len(out) == 1 else ('seq', tuple(out))


def alt(xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == 'alt' else [x]
    return out[0] if len(out) == 1 else ('alt', tuple(out))


def members(xs):
    s, o = set(), set()
    for x in xs:
        if x[0] == 'lit':
            s.add(x[1])
        elif x[0] == 'bytes':
            s |= x[1]
            o |= x[2]
        else:
            o.add(x)
    return bts(s, o)


def name_of(t):
    """symbol::name<...> -> text, unnamed -> ''"""
    if short(head(t)) == 'name':
        return args(t)[0][1].decode('latin1')
    if short(head(t)) == 'unnamed':
        return ''
    raise ValueError('name %r' % (t,))


def bound(t):
    h = short(head(t))
    if h == 'infinity':
        return None
    if h == 'quantifier_value':
        return args(t)[0]
    raise ValueError('bound %r' % (t,))


def canon(t, ids=False):
    """tree type -> canonical tree: sequences and alternations flattened, one-character nodes as byte sets"""
    h, a = short(head(t)), args(t)
    if h == 'sk':
        return ('sk', a[0])
    if h == 'tk':
        return ('sk', 1000 + a[0])
    if h == 'sequence':
        return seq([canon(x, ids) for x in a])
    if h == 'alternation':
        return alt([canon(x, ids) for x in a])
    if h == 'literal':
        return ('lit', a[0])
    if h == 'range':
        return bts(range(a[0], a[1] + 1))
    if h == 'set':
        return members([canon(x, ids) for x in a])
    if h == 'negated':
        return ('not', canon(a[0], ids))
    if h == 'basic_repetition':
        return ('rep', MODES[head(a[0])], bound(a[1]), bound(a[2]), canon(a[3], ids))
    if h == 'capture':
        return ('cap', a[0] if ids else 0, name_of(a[1]), canon(a[2], ids))
    if h == 'lookaround':
        return ('look', short(head(a[0])), canon(a[1], ids))
    if h == 'backref':
        return ('bref', a[0])
    if h == 'named_backref':
        return ('nbref', a[0][1].decode('latin1'))
    if h in ('empty', 'beginning_of_line', 'beginning_of_input', 'end_of_line', 'end_of_input', 'word_boundary', 'wildcard'):
        return (h,)
    raise ValueError('node %s' % h)


TESTS = {'bol': 'beginning_of_line', 'boi': 'beginning_of_input', 'eol': 'end_of_line', 'eoi': 'end_of_input', 'wordb': 'word_boundary'}


def of_ref(n, ids=False):
    """tree of the reference parser -> canonical tree"""
    k = n[0]

    def go(x):
        return of_ref(x, ids)
    if k == 'empty':
        return ('empty',)
    if k == 'lit':
        return ('lit', n[1])
    if k == 'range':
        return bts(range(n[1], n[2] + 1))
    if k == 'wild':
        return ('wildcard',)
    if k == 'class':
        b = bts(RANGE[n[1]])
        return ('not', b) if n[2] else b
    if k == 'set':
        b = members([go(x) for x in n[2]])
        return ('not', b) if n[1] else b
    if k == 'seq':
        return seq([go(x) for x in n[1]])
    if k == 'alt':
        return alt([go(x) for x in n[1]])
    if k == 'rep':
        return ('rep', n[4], n[2], n[3], go(n[1]))
    if k == 'cap':
        return ('cap', n[1] if ids else 0, n[2], go(n[3]))
    if k == 'atom':
        return ('rep', 'p', 1, 1, go(n[1]))
    if k == 'look':
        x = ('look', 'behind' if n[1] else 'ahead', go(n[3]))
        return ('not', x) if n[2] else x
    if k == 'test':
        x = (TESTS[n[1]],)
        return ('not', x) if n[2] else x
    if k == 'bref':
        return ('bref', n[1])
    if k == 'nbref':
        return ('nbref', n[1])
    if k == 'nothing':
        return bts(())
    raise ValueError(k)


def loose(t):
    """canonical tree without the distinctions that make no difference: a literal and the set of that one character,
    greedy and lazy repetition an exact number of times"""
    k = t[0]
    if k == 'lit':
        return bts((t[1],))
    if k in ('seq', 'alt'):
        return (k, tuple(loose(x) for x in t[1]))
    if k == 'rep':
        return (k, 'g' if t[1] == 'l' and t[2] == t[3] else t[1]) + t[2:4] + (loose(t[4]),)
    if k == 'cap':
        return t[:3] + (loose(t[3]),)
    if k == 'look':
        return t[:2] + (loose(t[2]),)
    if k == 'not':
        return ('not', loose(t[1]))
    if k == 'bytes':
        return ('bytes', t[1], frozenset(loose(x) for x in t[2]))
    return t


def show(t):
    """canonical tree as text"""
    k = t[0]
    if k == 'bytes':
        return '[%s%s]' % (''.join(chr(c) if 32 < c < 127 else '\\x%02x' % c for c in sorted(t[1])) if len(t[1]) < 70 else '%d characters' % len(t[1]), ''.join(' ' + show(x) for x in t[2]))
    if k == 'lit':
        return repr(chr(t[1]))
    if k in ('seq', 'alt'):
        return '%s(%s)' % (k, ', '.join(show(x) for x in t[1]))
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:])) if len(t) > 1 else k
