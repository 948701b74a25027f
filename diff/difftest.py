"""Compiles the cases of a property against /repo's current headers and runs them against the oracle."""
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++', '-std=c++20', '-O0', '-w', '-fbracket-depth=2048', '-ftemplate-depth=4096']
METHODS = ['match', 'match_prefix', 'search', 'tokenizer', 'searcher', 'tokenize', 'find_all']


class BuildError(Exception):
    pass


def runner(how, k):
    if how in ('ptr', 'ptr3', 'rev', 'revlist', 'acc'):
        return '&%s<R%d>' % (how, k)
    kind, arg = how.split(':', 1)
    return '&%s<R%d, %s>' % (kind, k, arg)


def cbytes(s):
    return '"%s"' % ''.join('\\%03o' % ord(c) for c in s)


def source(cases):
    from refparse import ser
    s = ['#include "dx.hpp"\nusing namespace dx;\nnamespace xpr = meta::xpr;\nusing namespace xpr::operators;\n']
    rows = []
    for k, c in cases:
        s.append('using R%d = %s;\n' % (k, c.type()))
        rows.append('{%d,"%s",%d,%d,%s,%d,%s,%du,%s}' % (
            k, ser(c.struct), c.groups, c.bits(), 'nullptr' if c.alphabet is None else cbytes(c.alphabet), c.maxlen,
            cbytes('\x1e'.join(c.extra)), c.methods, runner(c.how, k)))
    s.append('static tcase const cases[] = {%s};\nint main() { return drive(cases, %d); }\n' % (',\n'.join(rows), len(rows)))
    return ''.join(s)


class Build:
    """scratch directory with the precompiled header and the driver"""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='dx_')
        try:
            lib = subprocess.Popen(['clang++', '-std=c++20', '-O1', '-c', HERE + '/dxlib.cpp', '-o', self.d + '/dxlib.o'], stderr=subprocess.PIPE, text=True)
            r = subprocess.run(CXX + ['-I' + REPO + '/include', '-x', 'c++-header', HERE + '/dx.hpp', '-o', self.d + '/dx.pch'], capture_output=True, text=True)
            err = lib.communicate()[1]
            if lib.returncode:
                raise RuntimeError(err)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def compile(self, text, name, extra=()):
        src, exe = '%s/%s.cpp' % (self.d, name), '%s/%s' % (self.d, name)
        with open(src, 'w') as f:
            f.write(text)
        r = subprocess.run(CXX + list(extra) + ['-include-pch', self.d + '/dx.pch', '-I' + REPO + '/include', '-I' + HERE, src, self.d + '/dxlib.o', '-o', exe], capture_output=True, text=True)
        return (exe if r.returncode == 0 else None), r.stderr


def run_chunk(b, cases, name, depth=0):
    """-> (mismatches, stats, [(case, error)])"""
    exe, err = b.compile(source(cases), name)
    if exe is None:
        if len(cases) == 1:
            return [], {}, [(cases[0], err)]
        h = len(cases) // 2
        m1, s1, e1 = run_chunk(b, cases[:h], name + 'a', depth + 1)
        m2, s2, e2 = run_chunk(b, cases[h:], name + 'b', depth + 1)
        return m1 + m2, {k: s1.get(k, 0) + s2.get(k, 0) for k in set(s1) | set(s2)}, e1 + e2
    mism, stats = [], {}
    r = subprocess.run([exe], capture_output=True, text=True, timeout=700)
    done = False
    for line in r.stdout.splitlines():
        d = json.loads(line)
        if 'done' in d:
            stats = d
            done = True
        else:
            mism.append(d)
    os.unlink(exe)
    if not done and mism:
        # a crash or a hang ends the program: go on with the cases after it
        last = mism[-1]['case']
        i = [k for k, _ in cases].index(last)
        if i + 1 < len(cases) and depth < 40:
            m2, s2, e2 = run_chunk(b, cases[i + 1:], name + 'r', depth + 1)
            return mism + m2, s2, e2
    elif not done:
        raise RuntimeError('driver ended without a verdict: %s %s' % (r.returncode, r.stderr[-500:]))
    return mism, stats, []


def run(cases, jobs=8, per=40):
    """-> dict(mismatches, errors, evals, ...)"""
    t = time.time()
    b = Build()
    try:
        idx = list(enumerate(cases))
        nch = max(1, (len(idx) + per - 1) // per)
        nch = max(min(jobs, len(idx)), (nch + jobs - 1) // jobs * jobs)
        chunks = [c for c in (idx[k::nch] for k in range(nch)) if c]
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(lambda a: run_chunk(b, a[1], 'c%d' % a[0]), list(enumerate(chunks))))
    finally:
        b.close()
    out = dict(mismatches=[], errors=[], evals=0, accepted=0, rejected=0, cases=len(cases))
    for m, s, e in rs:
        out['mismatches'] += m
        out['errors'] += e
        for k in ('evals', 'accepted', 'rejected'):
            out[k] += s.get(k, 0)
    out['wall'] = time.time() - t
    return out


def describe(c, m):
    """replay record of a disagreement"""
    inp = bytes.fromhex(m['input']).decode('latin1')
    return dict(pattern=c.pattern, expression=c.expr, flags=list(c.flags), input=inp, input_hex=m['input'], iterators=c.how, method=METHODS[m['method']], what=m['what'],
                expected=m['expected'], got=m['got'], meaning='results as [matched, [begin,end] of group 0, 1, ...]; [-1,-1] is an empty group', source=source([(0, c)]))


if __name__ == '__main__':
    import sys
    sys.path.insert(0, HERE)
    import pools
    for prop in sys.argv[1:]:
        cs = pools.pool(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
        r = run(cs)
        print(prop, {k: v for k, v in r.items() if k not in ('mismatches', 'errors')}, len(r['mismatches']), len(r['errors']))
        for m in r['mismatches'][:8]:
            c = cs[m['case']]
            d = describe(c, m)
            print('   ', repr(c.pattern), c.expr or '', c.flags, c.how, repr(d['input']), d['method'], d['what'], 'want', str(d['expected'])[:80], 'got', str(d['got'])[:80])
        for (k, c), e in r['errors'][:3]:
            print('    ERR', repr(c.pattern), c.expr, c.how, [l for l in e.splitlines() if 'error' in l][:2])
