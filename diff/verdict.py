"""Accept/reject verdict of the real parser against the reference parser, and rejection of invalid patterns by the public entry points."""
import itertools
import os
import random
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import refparse as R
import difftest as D
from gen import Gen
from pools import METAS, cstr, rand, AB

SEEDS = ['a{2,3}', 'a{2,}', 'a{2}?', 'a{2}+', '(?<name>a)', '(?<n>a)\\k<n>', '(?=a)', '(?!a)', '(?<=a)', '(?<!a)', '(?>a)', '(?:a)', '[a-z]', '[^a-z]', r'[\x41-\x5a]', r'\x41', r'(a)\1', r'\bab', r'\Aab\Z', '^ab$', 'a|b|c', '(a|b)*c', 'a*?b+?c??', 'a*+b++c?+', r'[\d\w\s]', r'[\]]', '[]', '[^]',
         'a{', 'a{b', r'\d+\D*\w?\W\s\S\R\N', r'\n\r\t\f\v\0\a\e', '(a(b(c)))', '((a)|(b))', 'a.b', '[a-]', '[-a]', r'(?<n1>a)(?<n2>b)\k<n2>', 'a{10,20}b', '()', '(?:)', '(?=)', '[a-c-e]', r'[\d-a]', 'x{1}{', r'(?<a_b>x)', '[.*+?]', r'\.\*\+', '(?:a|b){2,}?', r'(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)\10']


def want(s):
    """True accepted, False rejected, None: another rule decides"""
    try:
        R.parse(s)
        return True
    except R.Bad:
        return False
    except R.Unsupported:
        return None
    except (RecursionError, ValueError):
        return None


def strings(tier, seed):
    r = random.Random(seed)
    big = tier != 'quick'
    out = [''] + [chr(c) for c in range(1, 256)] + ['\\' + chr(c) for c in range(1, 256)]
    for c in range(1, 256):
        for t in ('[%s]', '[\\%s]', '[a-\\%s]', '[\\%s-z]', '(?%s', '(?%sa)', 'a{%s}', 'a%s', 'a{1%s', '\\x%s1', '\\x4%s', '(?<%s>a)', '(?<a%s>a)', '(?<%s', '(?<a)\\k%s', '^%s', 'a{1}%s', 'a*%s', 'a{1,%s}', '(a)\\1%s', '(a%s', '\\x%s', 'a|%s'):
            if big or r.random() < .1 or 32 < c < 127 and r.random() < .3:
                out.append(t % chr(c))
    for k, m in ((2, None), (3, 1200), (4, 1000), (5, 600), (6, 400)):
        if m is None:
            out += [''.join(t) for t in itertools.product(METAS, repeat=k)]
        else:
            out += [''.join(r.choice(METAS) for _ in range(k)) for _ in range(m * (12 if big else 1))]
    valid = SEEDS + [s for _, s in rand(seed, 80 if not big else 600, AB, dict(seq=4, alt=3, rep=4, cap=3, atom=1, ahead=1, behind=1, bref=1, test=1, empty=.5), depth=3, modes='gglp', names=.3)]
    out += valid
    for s in valid:
        cut = list(range(len(s) + 1))
        for i in cut if len(s) < 14 else r.sample(cut, 6):
            out.append(s[:i])
            out.append(s[:i] + s[i + 1:])
            out.append(s[:i] + r.choice(METAS) + s[i:])
            out.append(s[:i] + r.choice(METAS) + s[i + 1:])
    seen, res = set(), []
    for s in out:
        if s not in seen and len(s) < 60 and '\0' not in s:
            seen.add(s)
            w = want(s)
            if w is not None:
                res.append((s, w))
    return res


TMPL = '''#include <mregex/regex.hpp>
#include <cstdio>
using meta::parser;
static bool const v[] = {%s};
int main() { for (bool x : v) std::putchar(x ? '1' : '0'); }
'''


def run(items, jobs=8, per=300):
    """-> dict(mismatches=[(pattern, expected, got)], errors)"""
    import tempfile
    import shutil
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='dv_')
    out = dict(mismatches=[], errors=[], evals=0, accepted=0, rejected=0)

    def one(a):
        k, ch = a
        src, exe = '%s/%s.cpp' % (d, k), '%s/%s' % (d, k)
        with open(src, 'w') as f:
            f.write(TMPL % ',\n'.join('parser<%s>::accepted' % cstr(s) for s, _ in ch))
        p = subprocess.run(D.CXX + ['-I' + D.REPO + '/include', src, '-o', exe], capture_output=True, text=True)
        if p.returncode:
            if len(ch) == 1:
                return [], [(ch[0], p.stderr[-1500:])]
            h = len(ch) // 2
            a, b = one((k + 'a', ch[:h])), one((k + 'b', ch[h:]))
            return a[0] + b[0], a[1] + b[1]
        r = subprocess.run([exe], capture_output=True, text=True).stdout
        os.unlink(exe)
        return [(s, w, x == '1') for (s, w), x in zip(ch, r)], []
    try:
        n = max(1, -(-len(items) // per))
        n = -(-n // jobs) * jobs
        with ThreadPoolExecutor(jobs) as ex:
            for got, errs in ex.map(one, [('t%d' % k, items[k::n]) for k in range(n) if items[k::n]]):
                out['errors'] += errs
                for s, w, x in got:
                    out['evals'] += 1
                    out['accepted' if w else 'rejected'] += 1
                    if w != x:
                        out['mismatches'].append((s, w, x))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out['wall'] = time.time() - t0
    return out


BADENTRY = ['meta::regex<"("> x;', 'bool b = bool(meta::regex<"a**">::match("a"));', 'auto x = meta::xpr::regex<"[a">;', 'using t = meta::regex<"a|">::ast_type; t y;', 'bool b = bool(meta::regex<"\\\\">::search("a"));']
GOODENTRY = ['meta::regex<"()"> x;', 'bool b = bool(meta::regex<"a*">::match("a"));', 'auto x = meta::xpr::regex<"[a]">;', 'using t = meta::regex<"a|b">::ast_type; t y;', 'bool b = bool(meta::regex<"\\\\d">::search("a"));']


def entries(jobs=8):
    """a rejected pattern must not compile as a regex; -> list of (source, expected to compile, compiled)"""
    def one(a):
        s, w = a
        p = subprocess.run(D.CXX + ['-fsyntax-only', '-I' + D.REPO + '/include', '-x', 'c++', '-'], input='#include <mregex.hpp>\nvoid f() { %s }\n' % s, capture_output=True, text=True)
        return s, w, p.returncode == 0
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, [(s, False) for s in BADENTRY] + [(s, True) for s in GOODENTRY]))


if __name__ == '__main__':
    xs = strings(os.environ.get('VERIF_TIER', 'quick'), 1)
    print(len(xs))
    r = run(xs)
    print({k: v for k, v in r.items() if k not in ('mismatches', 'errors')}, r['mismatches'][:20], [(e[0], e[1][-300:]) for e in r['errors'][:3]])
    t = time.time()
    print([x for x in entries() if x[1] != x[2]], time.time() - t)
