#!/usr/bin/env python3-vt
"""Decides one property:  check.py C01        replays a recorded violation:  check.py --replay FILE

Contracts first: the obligations generated from /repo's current headers are discharged by the prover in vc/.  The same
run executes the real code against the reference oracle in diff/, to turn a failed obligation into a failing input and
to stand in (bounded, labelled so) for whatever the prover cannot reach on the tree at hand.

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.  See DESIGN.md."""
import collections
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for d in ('diff', 'vc'):
    sys.path.insert(0, os.path.join(HERE, d))
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
JOBS = min(8, os.cpu_count() or 8)
PROOF_BUDGET = 420 if TIER == 'quick' else 2400

TRUST = ['clang 18 front end and the LLVM passes inline, sroa, early-cse, simplifycfg that turn the real headers into the IR under proof',
         'the IR interpreter and verification condition generator in /verif/vc (symex.py, engine.py, loops.py)',
         'z3 (python bindings), answer unsat',
         'the contract texts in /verif/vc (spec.py, pat.py, instances.py and the property-specific modules)']
ASSUME = ['machine integers: iterator differences and repetition counters are mathematical integers within the size of one object; unsigned counters are checked for wrap-around (no-overflow) where the code increments them',
          'the metatheorem: contracts proved on opaque operands (skolem sub-patterns and continuations that satisfy the contract of a node) compose to every pattern by induction on its structure; operand packs longer than the instances proved (8, 12, 16) repeat the same recursive step',
          'iterators obey their category (libstdc++ pointers, reverse_iterator and the model iterators of the harness)']

META_TRUST = ['clang 18 as the evaluator of the type-level functions of the real headers (template instantiation on closed type expressions), and the reader of printed types in /verif/vc/tmeta.py',
              'the contract texts in /verif/vc (ll.py, parsing.py, trees.py, xprs.py)']
META_ASSUME = ['type-level functions are parametric in the skolem types they are evaluated on: they cannot look inside, except by a specialisation on a constructor, and every constructor is tried in every operand position (pairs of nested constructors in part); a specialisation on a deeper shape is not excluded by the proof, only by the bounded comparison',
               'families of symbols with a number or a name in them (quantifier bounds, backreference numbers, group names, partial hexadecimal codes) are examined at representatives on every token (explored() and LARGE in parsing.py), operand packs up to the lengths in xprs.py and trees.py; larger ones repeat the same step',
               'values too large for std::size_t are outside the contracts']
META = ('Every type-level function the property depends on is evaluated by clang, from the real headers, on skolem operands and on every constructor it can distinguish, and compared with its contract; composition to every pattern is by induction. '
        'Assumes parametricity in the skolems and that numbered and named families behave as their representatives (listed in the evidence). A mismatch is reported with a pattern or expression that behaves differently on the real code. A bounded comparison with an independent reference parser and matcher runs alongside, labelled bounded.')
TECH = {p: 'contract-based verification of type-level functions: symbolic evaluation of the real templates on skolem types against contracts, induction over the pattern' for p in ('C13', 'C14', 'C17')}
TECH['C15'] = TECH['C13'] + '; accessors by z3 on the IR of the real headers'
NOTE = {p: META for p in ('C13', 'C14', 'C15', 'C17')}


def log(*a):
    print(*a, flush=True)


def proofs(prop):
    """-> dict(results, obligations, ...) of the deductive part"""
    out = dict(results=[], obligations=0, discharged=0, kinds=collections.Counter(), queries=0, solver_s=0.0, real=set(), invariants=0, lemmas=0)
    import selection
    if prop in selection.PROVED:
        import runner
        insts = selection.pick(prop, TIER == 'thorough')
        rs = runner.run(insts, jobs=JOBS, budget=PROOF_BUDGET)
        if prop == 'C18':
            import constant
            rs += constant.prove([i for i in insts if not hasattr(i, 'pre')], JOBS, PROOF_BUDGET - 120)
        for r in rs:
            r['engine'] = 'match'
        out['results'] += rs
    for m in MODULES.get(prop, ()):
        out['results'] += __import__(m).prove(prop, TIER, SEED, JOBS)
    for r in out['results']:
        if r['status'] == 'proved':
            out['obligations'] += r['n']
            out['discharged'] += r['n']
            out['kinds'].update(r.get('kinds', {}))
        else:
            out['obligations'] += 1
        out['queries'] += r.get('queries', 0)
        out['solver_s'] += r.get('solver_s', 0)
        out['invariants'] += len(r.get('invariants', ()))
        out['lemmas'] += r.get('lemmas', 0) if isinstance(r.get('lemmas', 0), int) else len(r['lemmas'])
        out['real'] |= set(r.get('real', ()))
    return out


MODULES = {'C04': ['trees'], 'C13': ['parsing'], 'C14': ['parsing'], 'C15': ['trees'], 'C17': ['xprs']}


def bounded(prop, tier, seed):
    b = bounded1(prop, tier, seed)
    for m in MODULES.get(prop, []) + (['parsing'] if prop == 'C15' else []):
        m = __import__(m)
        if hasattr(m, 'bounded'):
            t0 = time.time()
            n, found = m.bounded(prop, tier, seed, JOBS)
            b['cases'] += n
            b['evals'] += n
            b['accepted'] += n
            b['found'] += found
            b['wall'] += time.time() - t0
    return b


def bounded1(prop, tier, seed):
    """real code against the oracle -> dict(evals, cases, accepted, rejected, found=[replay records], errors, total, samples)"""
    if prop == 'C14':
        import verdict
        items = verdict.strings(tier, seed)
        r = verdict.run(items, JOBS)
        found = [dict(kind='verdict', pattern=s, expected='accepted' if w else 'syntax error', got='accepted' if x else 'syntax error') for s, w, x in r['mismatches']]
        if r['errors'] and len(r['errors']) < len(items) // 2:
            found += [dict(kind='verdict', pattern=s, expected='accepted' if w else 'syntax error', got='the parser itself fails to compile', output=e) for (s, w), e in r['errors'][:20]]
            r['errors'] = []
        ent = verdict.entries(JOBS)
        if any(x for _, w, x in ent if w):
            found += [dict(kind='entry', source=s, expected='compiles' if w else 'compile error', got='compiles' if x else 'compile error') for s, w, x in ent if w != x]
        return dict(evals=r['evals'] + len(ent), cases=len(items) + len(ent), accepted=r['accepted'], rejected=r['rejected'], found=found, errors=len(r['errors']), error_text=[e for _, e in r['errors'][:2]], wall=r['wall'], samples=[dict(pattern=s, accepted=w) for s, w in items[600:608]])
    import difftest
    import pools
    cs = pools.pool(prop, tier, seed)
    swept = ''
    if prop == 'C05':
        import exhaust
        more, n, missed = exhaust.scan(JOBS)
        cs = cs + more
        swept = 'complete enumeration of the ends of character ranges: %d evaluations of range<A, B>::match_one, %d of 32896 ranges could not be compiled' % (n, missed)
    r = difftest.run(cs, JOBS)
    found = [dict(difftest.describe(cs[m['case']], m), kind='match') for m in r['mismatches'][:50]]
    if r['errors'] and (len(r['errors']) <= len(cs) // 3 or usable()):
        # a valid pattern or use that compiled before and no longer does
        found += [dict(kind='compile', pattern=c.pattern, expression=c.expr, flags=list(c.flags), iterators=c.how, expected='compiles', got='compile error', output=e[-2500:], source=difftest.source([(0, c)])) for (k, c), e in r['errors'][:20]]
    return dict(evals=r['evals'], cases=len(cs), accepted=r['accepted'], rejected=r['rejected'], found=found, errors=len(r['errors']), error_text=[e[-800:] for _, e in r['errors'][:2]], wall=r['wall'], swept=swept,
                samples=[dict(pattern=c.pattern, flags=list(c.flags), iterators=c.how, expression=c.expr) for c in cs[::max(1, len(cs) // 8)]][:8])


def usable():
    """plain uses of the library still compile, so that a use that no longer does is not a matter of the whole tree"""
    import difftest
    import pools
    try:
        r = difftest.run([pools.Case('a', maxlen=1), pools.Case('(a|b)*c', maxlen=2), pools.Case('(?<x>a+?)', maxlen=2)], JOBS)
    except difftest.BuildError:
        return False
    return not r['errors']


def cut(s):
    return s if len(s) < 120 else '%s... (%d)' % (s[:80], len(s))


def brief(f):
    if f['kind'] == 'verdict':
        return 'pattern %r: expected %s, got %s' % (f['pattern'], f['expected'], f['got'])
    if f['kind'] == 'entry':
        return '%s: expected %s, got %s' % (f['source'], f['expected'], f['got'])
    if f['kind'] == 'compile':
        return 'pattern %r %s no longer compiles' % (f['pattern'], f['expression'] or '')
    return '%r %s %s via %s on %s, %s: expected %s got %s' % (f['pattern'], f['expression'] or '', f['flags'], f['iterators'], cut(repr(f['input'])), f['method'], str(f['expected'])[:120], str(f['got'])[:120])


def main(prop):
    t0 = time.time()
    import selection
    level = 'proof' if prop in selection.PROVED or MODULES.get(prop) else 'exploration'
    tb = time.time()
    try:
        b = bounded(prop, TIER, SEED)
    except Exception as e:
        # the harness does not build on this tree: nothing decided by execution
        b = dict(evals=0, cases=0, accepted=0, rejected=0, found=[], errors=-1, error_text=[''.join(traceback.format_exception(e))[-2000:]], wall=time.time() - tb, samples=[])
        log('bounded: not available on this tree: %s' % b['error_text'][0][-300:])
    log('bounded stand-in: %d cases, %d evaluations on the real code, %d disagreements, %d not compiled, %.0f s' % (b['cases'], b['evals'], len(b['found']), b['errors'], b['wall']))
    tp = time.time()
    p = proofs(prop)
    res = p['results']
    kinds = selection.KINDS.get(prop)
    failed = [r for r in res if r['status'] == 'failed' and (kinds is None or r['kind'] in kinds)]
    other = [r for r in res if r['status'] == 'failed' and not (kinds is None or r['kind'] in kinds)]
    undec = [r for r in res if r['status'] == 'undecided'] + other
    if res:
        log('contracts: %d instances, %d obligations, %d discharged, %d failed, %d undecided, %d queries, solver %.0f s, wall %.0f s' % (
            len(res), p['obligations'], p['discharged'], len(failed), len(undec), p['queries'], p['solver_s'], time.time() - tp))
    for r in undec[:5]:
        log('undecided: %s: %s' % (r['name'], (r.get('reason') or r.get('kind') or '').strip()[-300:]))
    for r in failed:
        b['found'] += r.get('found', ())
    if failed and not b['found']:
        # look harder for a failing input before reporting the obligation alone
        for tier, seed in (('quick', SEED + 100), ('thorough', SEED + 200)):
            try:
                x = bounded(prop, tier, seed)
            except Exception:
                break
            b['evals'] += x['evals']
            b['cases'] += x['cases']
            b['found'] += x['found']
            if b['found'] or time.time() - t0 > 500:
                break
    known = []
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        if line.startswith('known: property=%s ' % prop):
            known.append(line.split(' ', 2)[2].strip())
    live = []
    for f in b['found']:
        hit = [k for k in known if k == brief(f)]
        if hit:
            log('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            live.append(f)
    violated = bool(live or failed)
    rp = None
    if violated:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', '%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, tier=TIER, seed=SEED, disagreements=live[:20], failed_obligations=[{k: r.get(k) for k in ('name', 'kind', 'where', 'detail')} for r in failed[:20]],
                           how='/verif/check.py --replay %s compiles and runs the first disagreement against /repo' % rp), f, indent=1)
    match = [r for r in res if r.get('engine') == 'match']
    assumptions = list(ASSUME if match else []) + list(META_ASSUME if MODULES.get(prop) else [])
    trust = list(TRUST if match else []) + list(META_TRUST if MODULES.get(prop) else [])
    backends = {}
    for r in res:
        k = 'z3' if r.get('engine') == 'match' else 'clang (symbolic evaluation of type-level functions)'
        backends[k] = backends.get(k, 0) + (r['n'] if r['status'] == 'proved' else 0)
    assumptions += ['bounded: pool of %d pattern/flag/iterator cases, inputs enumerated up to the length given per case in diff/pools.py; compared with the reference parser and matcher in diff/ (refparse.py, oracle.hpp)' % b['cases']]
    if b.get('swept'):
        assumptions.append(b['swept'])
    if undec:
        assumptions.append('undecided on this tree, left to the bounded stand-in: ' + ', '.join(r['name'] for r in undec[:40]))
    if level == 'proof':
        cov = dict(obligations=p['obligations'], discharged=p['discharged'], checker_cmd='python3-vt check.py %s' % prop, trusted_base=trust, discharged_by=backends, instances=len(res), by_kind=dict(p['kinds']), solver_queries=p['queries'], solver_s=round(p['solver_s'], 1),
                   loop_invariants=p['invariants'], lemmas_by_induction=p['lemmas'], functions_under_contract=sorted(p['real']), failed=[r['name'] for r in failed][:50], undecided=[r['name'] for r in undec][:200],
                   bounded_standin=dict(label='bounded, not counted as proved', cases=b['cases'], evaluations=b['evals'], matched=b['accepted'], unmatched=b['rejected'], disagreements=len(b['found']), not_compiled=b['errors'], samples=b['samples']))
    else:
        cov = dict(evaluations=b['evals'], distinct_nontrivial=b['accepted'], rule='cases of diff/pools.py (or verdict.py); non-trivial: the reference says the input matches (C14: the pattern is accepted)', samples=b['samples'], cases=b['cases'], disagreements=len(b['found']), not_compiled=b['errors'])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(live) + len(failed))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if live:
        for f in live[:5]:
            log('disagreement: ' + brief(f))
        for r in failed[:5]:
            log('failed obligation: %s %s at %s' % (r['name'], r['kind'], r['where']))
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if failed:
        for r in failed[:5]:
            log('failed obligation: %s %s at %s\n%s' % (r['name'], r['kind'], r['where'], str(r.get('detail'))[:600]))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    if b['cases'] == 0 and (not res or len(undec) == len(res)):
        log('nothing could be decided on this tree')
        return 2
    log('%s: held on everything explored (%s, %.0f s)' % (prop, level, time.time() - t0))
    return 0


def replay(path):
    import subprocess
    import tempfile
    d = json.load(open(path))
    for r in d['failed_obligations'][:3]:
        print('obligation', r['name'], r['kind'], r['where'], '\n', r['detail'])
    if not d['disagreements']:
        return 0
    f = d['disagreements'][0]
    print(brief(f))
    with tempfile.TemporaryDirectory(prefix='rp_') as t:
        if f['kind'] in ('match', 'compile'):
            import difftest
            b = difftest.Build()
            try:
                exe, err = b.compile(f['source'], 'r')
                print(err[-3000:] if exe is None else subprocess.run([exe], capture_output=True, text=True).stdout)
            finally:
                b.close()
        elif f['kind'] == 'verdict':
            import verdict
            print(verdict.run([(f['pattern'], f['expected'] == 'accepted')]))
        else:
            print([x for x in __import__('verdict').entries()])
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
