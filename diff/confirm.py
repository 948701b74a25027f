"""Turns a pattern (or expression) with a wrong tree into an input it is matched wrongly on: inputs made from both trees,
run on the real code against the oracle."""
import random

import difftest
import pools
import refparse


def member(t, r, depth=0):
    """a string the canonical tree t is likely to match"""
    k = t[0]
    if k == 'lit':
        return chr(t[1])
    if k == 'bytes':
        c = sorted(t[1])
        if not c:
            return ''.join(member(x, r) for x in list(t[2])[:1])
        return chr(r.choice((r.choice(c), c[0], c[-1])))
    if k == 'wildcard':
        return r.choice('ab')
    if k == 'not':
        x = t[1]
        if x[0] == 'bytes':
            o = [c for c in (97, 98, 48, 32, 10, 65, 45, 255) if c not in x[1]] or [c for c in range(256) if c not in x[1]]
            return chr(r.choice(o)) if o else ''
        return ''
    if k == 'seq':
        return ''.join(member(x, r, depth) for x in t[1])
    if k == 'alt':
        return member(r.choice(t[1]), r, depth)
    if k == 'rep':
        a, b = t[2], t[3]
        n = r.choice((a, a, a + 1, a + 2 if b is None else min(b, a + 2)))
        if b is not None:
            n = min(n, b)
        return ''.join(member(t[4], r, depth + 1) for _ in range(min(n, r.long or 14)))
    if k == 'cap':
        return member(t[3], r, depth)
    if k == 'look':
        return r.choice(('', member(t[2], r, depth)))
    if k in ('bref', 'nbref'):
        return r.choice(('a', 'b', '', 'ab'))
    return ''


def chars(t, out):
    if t[0] == 'lit':
        out.add(t[1])
    elif t[0] == 'bytes':
        out |= t[1]
        for x in t[2]:
            chars(x, out)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                chars(x, out)
            elif isinstance(x, tuple):
                for y in x:
                    chars(y, out)
    return out


def bounds(t):
    """the largest repetition bound of a tree"""
    b = [x for x in t[2:4] if x is not None] if t[0] == 'rep' else []
    kids = [x for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)] + [y for x in t[1:] if isinstance(x, tuple) and not (x and isinstance(x[0], str)) for y in x if isinstance(y, tuple)]
    return max(b + [bounds(k) for k in kids] + [0])


def anchors(t):
    return t[0] in ('beginning_of_line', 'end_of_line', 'beginning_of_input', 'end_of_input') or any(anchors(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or any(anchors(y) for x in t[1:] if isinstance(x, tuple) and not (x and isinstance(x[0], str)) for y in x if isinstance(y, tuple))


def inputs(want, got, seed=1):
    r = random.Random(seed)
    r.long = 0
    xs, far = [], []
    for t in (want, got):
        # repetition bounds beyond the short inputs: exactly at the bounds of either tree
        if t is not None and bounds(t) > 14:
            r.long = 20000
            for _ in range(6):
                s = member(t, r)
                far += [s, s[:-1], s + s[-1:]]
            r.long = 0
    for _ in range(60):
        for t in (want, got):
            if t is not None:
                s = member(t, r)
                xs += [s, s + 'a', 'a' + s, s[:-1], s + s]
                if s:
                    i = r.randrange(len(s))
                    xs += [s[:i] + r.choice('ab-{1') + s[i + 1:], s[i:], s[:i] + s[i + 1:]]
    a, b = chars(want, set()) if want else set(), chars(got, set()) if got else set()
    diff = sorted(a ^ b)
    xs += [chr(c) for c in (diff if len(diff) < 40 else random.Random(seed).sample(diff, 40))]
    xs = [x for x in dict.fromkeys(xs) if len(x) <= 24]
    al = [c for c in 'ab' if ord(c) in a | b] + [chr(c) for c in diff[:2]] + [chr(c) for c in sorted(a & b) if 32 < c < 127][:3]
    al = ''.join(dict.fromkeys(al))[:4] or 'ab'
    for t in (want, got):
        if t is not None and anchors(t):
            al = al[:2] + '\n'
            xs += [x.replace(r.choice('ab'), '\n') for x in xs[:40]]
            break
    return al, xs[:260] + [x for x in dict.fromkeys(far) if len(x) < 20000][:30]


FLAGS = ((), ('icase',), ('ungreedy',))


def confirm(items, jobs=8, flagsets=((),), how=None):
    """items: (pattern, canonical tree expected, canonical tree found, expression or None) -> findings"""
    cs = []
    for p, want, got, expr in items:
        al, xs = inputs(want, got)
        for fl in flagsets:
            try:
                cs.append(pools.Case(p, flags=fl, alphabet=al, maxlen=3, extra=[x for x in xs if '\x1e' not in x], expr=expr, how=(how or {}).get(p, 'ptr3')))
            except (refparse.Bad, refparse.Unsupported):
                pass
    if not cs:
        return []
    # the control must compile, or the harness does not fit this tree
    cs.append(pools.Case('a', alphabet='a', maxlen=1))
    out = difftest.run(cs, jobs)
    if any(k == len(cs) - 1 for (k, c), e in out['errors']):
        return []
    found, seen = [], set()
    for m in out['mismatches']:
        # no answer: generated operands can backtrack for very long, rightly so
        if m['case'] not in seen and m['what'] != 'no answer':
            seen.add(m['case'])
            found.append(dict(difftest.describe(cs[m['case']], m), kind='match'))
    for (k, c), e in out['errors'][:5]:
        found.append(dict(kind='compile', pattern=c.pattern, expression=c.expr, flags=list(c.flags), iterators=c.how, expected='compiles', got='compile error', output=e[-2500:], source=difftest.source([(0, c)])))
    return found
