"""Compiles harness instances against /repo's current headers and discharges their obligations, in parallel."""
import multiprocessing
import os
import re
import subprocess
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OPT = '/usr/lib/llvm-18/bin/opt'
CLANG = ['clang++', '-std=c++20', '-O1', '-fno-exceptions', '-fno-rtti', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-w']
PASSES = ['-S', '-passes=cgscc(inline),function(sroa,early-cse,lower-constant-intrinsics,simplifycfg<no-speculate-blocks;bonus-inst-threshold=0>)', '-two-entry-phi-node-folding-threshold=0', '-inline-threshold=1000000']


def compile_ir(text, d, tag):
    src = os.path.join(d, tag + '.cpp')
    ll, llo = os.path.join(d, tag + '.ll'), os.path.join(d, tag + '.o.ll')
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(CLANG + ['-I' + REPO + '/include', '-I' + HERE + '/harness', src, '-o', ll], capture_output=True, text=True, timeout=600)
    if r.returncode:
        return None, r.stderr[-3000:]
    r = subprocess.run([OPT] + PASSES + [ll, '-o', llo], capture_output=True, text=True, timeout=600)
    if r.returncode:
        return None, r.stderr[-3000:]
    t = open(llo).read()
    names = real_functions(open(ll).read())
    for p in (src, ll, llo):
        os.unlink(p)
    return t, names


def real_functions(text):
    """the library's functions (template arguments dropped) that the unit compiles, before inlining"""
    out = set()
    for m in set(re.findall(r'^define [^@]*@"?(_ZN[A-Z]*4meta[^("]*)', text, re.M)):
        n = plain_name(m)
        if n:
            out.add(n)
    return out


_TOK = re.compile(r'S[0-9A-Z]*_|S[tabsiod]|Tk|TL\d*_\d*_|T\d*_|L[a-z]n?\d*E|A\d+_|C[123]|D[0-9][a-z]?')


def plain_name(m):
    """qualified name of a mangled function, without template arguments"""
    i, depth, parts = 3, 0, []
    while i < len(m):
        t = _TOK.match(m, i)
        if t and not (depth == 0 and t.group()[0] in 'LA'):
            i = t.end()
            continue
        c = m[i]
        if c.isdigit():
            k = re.match(r'\d+', m[i:]).group()
            nm = m[i + len(k):i + len(k) + int(k)]
            if depth == 0:
                parts.append(nm)
            i += len(k) + int(k)
            continue
        if c == 'E':
            if depth == 0:
                return '::'.join(parts) if len(parts) > 1 else None
            depth -= 1
        elif c in 'NIXJFL' or m.startswith('tl', i) or m.startswith('il', i):
            depth += 1
        elif depth == 0 and m.startswith('cl', i):
            parts.append('operator()')
            i += 1
        elif depth == 0 and m.startswith('cv', i):
            parts.append('operator bool')
            i += 1
        elif depth == 0 and c not in 'KVRO':
            return None
        i += 1
    return None


def prelude():
    return '#include "base.hpp"\nusing namespace hx; using namespace meta::ast;\n'


_CHUNKS = []  # inherited by the forked workers


def work(args):
    k, d, deadline = args
    return run_chunk((_CHUNKS[k], d, 't%d' % k, deadline))


def run_chunk(args):
    insts, d, tag, deadline = args
    sys.path.insert(0, HERE)
    import ir
    t0 = time.time()
    text, err = compile_ir((getattr(insts[0], 'pre', None) or prelude()) + ''.join(i.cpp() for i in insts), d, tag)
    tc = time.time() - t0
    out = []
    if text is None:
        if len(insts) > 1:
            h = len(insts) // 2
            return run_chunk((insts[:h], d, tag + 'a', deadline)) + run_chunk((insts[h:], d, tag + 'b', deadline))
        return [dict(name=insts[0].name, group=insts[0].group, status='undecided', reason='does not compile: ' + err[-600:], time=tc)]
    try:
        mod = ir.parse_module(text)
    except Exception as e:
        return [dict(name=i.name, group=i.group, status='undecided', reason='IR: %s' % e, time=0) for i in insts]
    for i in insts:
        out.append(prove_one(mod, i, deadline))
    if out:
        out[0]['compile_s'] = tc
        out[0]['real'] = sorted(err)
    return out


def prove_one(mod, i, deadline=None):
    import prove
    from engine import Failure, Undecided
    t = time.time()
    r = dict(name=i.name, group=i.group)
    b = i.budget
    if deadline:
        b = min(b, deadline - t)
    try:
        if b <= 0:
            raise Undecided('out of time')
        st = prove.dispatch(mod, i, b)
        r.update(status='proved', n=st.n, kinds=st.by_kind, queries=st.queries, solver_s=st.solver_s, lemmas=st.lemmas, functions=sorted(st.functions), invariants=st.invariants)
        if st.n == 0:
            r.update(status='undecided', reason='no obligations')
    except Failure as f:
        r.update(status='failed', kind=f.kind, where=str(f.where)[:500], detail=str(f.detail)[:3000])
    except Undecided as f:
        r.update(status='undecided', reason=str(f)[:500])
    except RecursionError:
        r.update(status='undecided', reason='recursion depth')
    except Exception as e:
        r.update(status='undecided', reason='internal: ' + ''.join(traceback.format_exception(e))[-700:])
    r['time'] = time.time() - t
    return r


def weight(i):
    """rough cost in seconds"""
    if hasattr(i, 'cost'):
        return i.cost
    if '_plus_set' in i.name:
        return 40
    if i.group in ('quant', 'poss') and re.search(r'_c_\d_inf|(star|plus)_(set|not|alt)', i.name):
        return 10
    return 1


def run(insts, jobs=8, per=None, budget=None):
    """prove all instances; returns the list of result records"""
    d = tempfile.mkdtemp(prefix='vc_')
    deadline = time.time() + budget if budget else None
    per = per or max(4, min(40, len(insts) // (3 * jobs) + 1))
    # slow instances first and in small chunks, the others interleaved so that chunks are balanced
    slow = sorted([i for i in insts if weight(i) > 1], key=lambda i: -weight(i))
    fast = [i for i in insts if weight(i) <= 1]
    chunks = []
    for i in slow:
        if chunks and sum(weight(j) for j in chunks[-1]) + weight(i) <= 30:
            chunks[-1].append(i)
        else:
            chunks.append([i])
    for pre in {getattr(i, 'pre', None) for i in fast}:
        some = [i for i in fast if getattr(i, 'pre', None) == pre]
        n = (len(some) + per - 1) // per
        chunks += [some[k::n] for k in range(n)]
    _CHUNKS[:] = chunks
    try:
        with ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context('fork')) as ex:
            res = []
            for r in ex.map(work, [(k, d, deadline) for k in range(len(chunks))]):
                res += r
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    import collections
    import instances
    pats = sys.argv[1:]
    xs = [i for i in instances.build() if not pats or any(i.name.startswith(p) or p in i.name and p.startswith('_') for p in pats)]
    t = time.time()
    res = run(xs)
    c = collections.Counter((r['group'], r['status']) for r in res)
    for k in sorted(c):
        print(k, c[k], 'slowest', max((r['time'], r['name']) for r in res if (r['group'], r['status']) == k))
    bad = [r for r in res if r['status'] != 'proved']
    seen = collections.Counter()
    for r in bad:
            k = (r['group'], r.get('kind'), r.get('reason', '')[:60])
            seen[k] += 1
            if seen[k] > 3:
                continue
           
            print(r['name'], r['status'], r.get('kind', ''), r.get('where', '')[:200], r.get('reason', '')[-300:].replace('\n', ' | '))
    import json
    json.dump(res, open(os.environ['VC_DUMP'], 'w')) if 'VC_DUMP' in os.environ else None
    print('obligations', sum(r.get('n', 0) for r in res), 'cpu', sum(r['time'] for r in res), 'compile', sum(r.get('compile_s', 0) for r in res), 'wall', time.time() - t)
