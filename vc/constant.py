"""The same contracts for the code as it runs during compilation.

A function body is one and the same in both modes unless it asks which mode it runs in.  When no header asks, the proofs on
the IR are proofs for constant evaluation too; when one does, the question is answered "during compilation" in a scratch copy
of the headers (a textual substitution, nothing else) and all contracts are proved again on it."""
import os
import re
import shutil
import tempfile

ASK = [(re.compile(r'\bif\s*(?:!|not\b)\s*consteval\b'), 'if (false)'), (re.compile(r'\bif\s+consteval\b'), 'if (true)'),
       (re.compile(r'\b(?:std\s*::\s*is_constant_evaluated|__builtin_is_constant_evaluated)\s*\(\s*\)'), 'true'), (re.compile(r'\bis_constant_evaluated\s*\(\s*\)'), 'true')]
HIDDEN = re.compile(r'__builtin_constant_p|is_constant_evaluated|__builtin_is_constant_evaluated|\bif\s+.{0,4}consteval')


def bare(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)


def headers(repo):
    for r, _, fs in os.walk(os.path.join(repo, 'include')):
        for f in fs:
            yield os.path.join(r, f)


def asks(repo):
    return sorted(p for p in headers(repo) if HIDDEN.search(bare(open(p, errors='replace').read())))


def scratch(repo):
    """copy of the headers in which every such question is answered with "during compilation" """
    d = tempfile.mkdtemp(prefix='cx_')
    shutil.copytree(os.path.join(repo, 'include'), d + '/include')
    for p in headers(d):
        t = s = open(p, errors='replace').read()
        for rx, to in ASK:
            s = rx.sub(to, s)
        if s != t:
            with open(p, 'w') as f:
                f.write(s)
    return d


def prove(insts, jobs, budget):
    import runner
    old = runner.REPO
    qs = asks(old)
    if not qs:
        return [dict(name='constant-evaluation', group='const', status='proved', n=1, kinds={'same-code-during-compilation': 1}, time=0)]
    d = scratch(old)
    try:
        runner.REPO = d
        rs = runner.run(insts, jobs=jobs, budget=budget)
    finally:
        runner.REPO = old
        shutil.rmtree(d, ignore_errors=True)
    for r in rs:
        r['name'] += ' (during compilation)'
    return rs
