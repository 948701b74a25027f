"""Contract of the grammar: what the parser may do for every (symbol, token), and what every semantic action does.

The syntax reference of the README as an LL(1) machine over abstract symbols.  rule(sym, tok) is the contract of the
library's rule table, ACT the contracts of its tree building actions, EFFECT the contract of each symbol (what parsing it
does to the stack of finished trees).  check_effects() derives the EFFECTs from the rules, so that the precondition of
every action holds on every path; run() is the machine itself, and meaning() the tree of a pattern."""
from tmeta import RANGE, alt, bts, members, seq

DIGITS = '0123456789'
HEX = '0123456789abcdefABCDEF'
WORDC = DIGITS + 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
ESC_CHAR = {'0': 0, 'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7, 'e': 27}
CLASS = {'d': 'digit', 'w': 'word', 's': 'space', 'R': 'lbrk'}
NCLASS = {'D': 'digit', 'W': 'word', 'S': 'space', 'N': 'lbrk'}
END = ''
TOKENS = [END] + sorted((chr(i) for i in range(256)), key=lambda c: (not 'a' <= c <= 'z', not ' ' < c < '\x7f', c))
REJECT, ACCEPT = 'reject', 'accept'
UNREACHED = 'unreached'  # no pattern brings this token to this symbol; check_effects() shows why
ADV = ('adv',)


def A(*a):
    return ('A',) + a


def S(*a):
    return ('S',) + a


def atom(c):
    """the symbols one item of a sequence starts with, up to and including its quantifier; None: no item starts with c"""
    if c == END or c in ')*+?{|':
        return None
    if c == '[':
        return [ADV, A('openset'), S('set0'), S('expect', ']'), S('mod')]
    if c == '(':
        return [ADV, S('group0'), S('expect', ')'), S('mod')]
    if c == '\\':
        return [ADV, S('esc'), S('mod')]
    if c == '.':
        return [ADV, A('node', 'wildcard'), S('mod')]
    if c == '^':
        return [ADV, A('node', 'beginning_of_line')]
    if c == '$':
        return [ADV, A('node', 'end_of_line')]
    return [ADV, A('lit'), S('mod')]


def starting(c, tail):
    x = atom(c)
    return REJECT if x is None else x + tail


def escaped(c):
    if c in ESC_CHAR:
        return [ADV, A('push', ESC_CHAR[c])]
    if c in CLASS:
        return [ADV, A('class', CLASS[c])]
    if c in NCLASS:
        return [ADV, A('class', NCLASS[c]), A('neg')]
    return [ADV, A('lit')]


def rule(sym, t):
    k, a = sym[1], sym[2:]
    if k == 'begin':
        return [] if t == END else starting(t, [S('seq'), S('alt')])
    if k == 'group0':
        if t == END:
            return []
        if t == '?':
            return [ADV, S('kind')]
        if t == ')':
            return [A('node', 'empty'), A('cap', '')]
        return starting(t, [S('seq'), S('alt'), A('cap', '')])
    if k == 'kind':
        if t == ':':
            return [ADV, S('body')]
        if t == '>':
            return [ADV, S('body'), A('rep', 'p', 1, 1)]
        if t == '=':
            return [ADV, S('body'), A('look', 'ahead')]
        if t == '!':
            return [ADV, S('body'), A('look', 'ahead'), A('neg')]
        if t == '<':
            return [ADV, S('less')]
        return REJECT
    if k == 'less':
        if t == '=':
            return [ADV, S('body'), A('look', 'behind')]
        if t == '!':
            return [ADV, S('body'), A('look', 'behind'), A('neg')]
        return [ADV, S('cname', t)] if t and t in WORDC and t not in DIGITS else REJECT
    if k == 'cname':
        if t == '>':
            return [ADV, S('body'), A('cap', a[0])]
        return [ADV, S('cname', a[0] + t)] if t and t in WORDC else REJECT
    if k == 'body':
        if t == ')':
            return [A('node', 'empty')]
        return starting(t, [S('seq'), S('alt')])
    if k == 'alt':
        if t in (END, ')'):
            return []
        return [ADV, S('alternative'), A('alt'), S('alt')] if t == '|' else REJECT
    if k == 'alternative':
        return starting(t, [S('seq')])
    if k == 'seq':
        if t in (END, ')', '|'):
            return []
        return starting(t, [A('seq'), S('seq')])
    if k == 'esc':
        if t == END:
            return REJECT
        if t in '123456789':
            return [ADV, S('bref', int(t))]
        if t == 'k':
            return [ADV, S('expect', '<'), S('bname0')]
        if t == 'x':
            return [ADV, S('hex')]
        if t == 'b':
            return [ADV, A('node', 'word_boundary'), S('unq')]
        if t == 'B':
            return [ADV, A('node', 'word_boundary'), A('neg'), S('unq')]
        if t == 'A':
            return [ADV, A('node', 'beginning_of_input'), S('unq')]
        if t == 'Z':
            return [ADV, A('node', 'end_of_input'), S('unq')]
        return escaped(t)
    if k == 'unq':
        return REJECT if t and t in '*+?{' else []
    if k == 'mod':
        if t == '*':
            return [ADV, S('qmod', 0, None)]
        if t == '+':
            return [ADV, S('qmod', 1, None)]
        if t == '?':
            return [ADV, S('qmod', 0, 1)]
        if t == '{':
            return [ADV, S('brace')]
        return []
    if k == 'brace':
        if t and t in DIGITS:
            return [ADV, S('least', int(t))]
        return [A('push', 123), S('mod'), A('seq')]
    if k == 'least':
        if t and t in DIGITS:
            return [ADV, S('least', 10 * a[0] + int(t))]
        if t == '}':
            return [ADV, S('qmod', a[0], a[0])]
        return [ADV, S('most', a[0], None)] if t == ',' else REJECT
    if k == 'most':
        if t and t in DIGITS:
            return [ADV, S('most', a[0], 10 * (a[1] or 0) + int(t))]
        return [ADV, S('qmod', a[0], a[1])] if t == '}' else REJECT
    if k == 'qmod':
        if t == '?':
            return [ADV, A('rep', 'l') + a]
        if t == '+':
            return [ADV, A('rep', 'p') + a]
        return [A('rep', 'g') + a]
    if k == 'bref':
        if t and t in DIGITS:
            return [ADV, S('bref', 10 * a[0] + int(t))]
        return [A('bref', a[0])]
    if k == 'bname0':
        return [ADV, S('bname', t)] if t and t in WORDC and t not in DIGITS else REJECT
    if k == 'bname':
        if t == '>':
            return [ADV, A('nbref', a[0])]
        return [ADV, S('bname', a[0] + t)] if t and t in WORDC else REJECT
    if k == 'hex':
        if len(a) == 2:
            return [A('push', 16 * a[0] + a[1])]
        return [ADV, S('hex', *a, int(t, 16))] if t and t in HEX else REJECT
    if k in ('set0', 'set1', 'sets', 'setr'):
        # set0: just opened; set1: after ^; sets: after an item that may begin a range; setr: after a range
        if t == END:
            return REJECT
        if t == ']':
            return []
        if t == '^' and k == 'set0':
            return [ADV, S('set1'), A('neg')]
        if t == '\\':
            return [ADV, S('setesc'), A('add'), S('sets')]
        if t == '-' and k == 'sets':
            return [ADV, S('rangeend'), S('setend')]
        return [ADV, A('addchar'), S('sets')]
    if k == 'setend':
        return [] if t == ']' else UNREACHED
    if k == 'rangeend':
        if t == END:
            return REJECT
        if t == ']':
            return [A('push', 45), A('add')]
        if t == '\\':
            return [ADV, S('endesc'), A('add'), A('join'), S('setr')]
        return [ADV, A('range'), S('setr')]
    if k in ('setesc', 'endesc'):
        if t == END or k == 'endesc' and (t in CLASS or t in NCLASS):
            return REJECT
        if t == 'x':
            return [ADV, S('hex')]
        if t == 'b':
            return [ADV, A('push', 8)]
        return escaped(t)
    if k == 'expect':
        return [ADV] if t == a[0] else REJECT
    if k == 'bottom':
        return ACCEPT if t == END else REJECT
    raise ValueError(k)


# ---- contracts of the actions: stack of trees (top first), current character -> stack.  An open set is ('open', bytes,
# other members, front): front is the character a following - may begin a range with, None if there is none, ANY if no
# range can follow

ANY = 'any'


class Pre(Exception):
    """precondition of the action not met"""


def need(c):
    if not c:
        raise Pre()


def opened(x):
    return x[0] == 'open'


def elem(x):
    return x[0] in ('lit', 'bytes') or x[0] == 'not' and x[1][0] == 'bytes'


def act(a, st, cur):
    k = a[1]
    if k == 'node':
        return [(a[2],)] + st
    if k == 'lit':
        return [('lit', ord(cur))] + st
    if k == 'push':
        return [('lit', a[2])] + st
    if k == 'class':
        return [bts(RANGE[a[2]])] + st
    if k == 'bref':
        return [('bref', a[2])] + st
    if k == 'nbref':
        return [('nbref', a[2])] + st
    if k == 'openset':
        return [('open', frozenset(), frozenset(), None)] + st
    need(st)
    x, r = st[0], st[1:]
    if k == 'neg':
        return [('not', close(x))] + r
    if k == 'add':
        need(r and opened(r[0]) and elem(x))
        _, b, o, f = r[0]
        if x[0] == 'lit':
            return [('open', b | {x[1]}, o, x[1])] + r[1:] if len(r) else []
        m = members([x])
        return [('open', b | m[1], o | m[2], None)] + r[1:]
    if k == 'addchar':
        need(opened(x))
        return [('open', x[1] | {ord(cur)}, x[2], ord(cur))] + r
    if k == 'range':
        need(opened(x) and x[3] != ANY and (x[1] or x[2]))
        if x[3] is None:
            return [('open', x[1] | {45, ord(cur)}, x[2], ANY)] + r
        need(x[3] <= ord(cur))
        return [('open', x[1] | set(range(x[3], ord(cur) + 1)), x[2], ANY)] + r
    x = close(x)
    if k == 'cap':
        return [('cap', 0, a[2], x)] + r
    if k == 'look':
        return [('look', a[2], x)] + r
    if k == 'rep':
        return [('rep', a[2], a[3], a[4], x)] + r
    need(r)
    y, r = close(r[0]), r[1:]
    if k == 'seq':
        return [seq([y, x])] + r
    if k == 'alt':
        return [alt([y, x])] + r
    raise ValueError(k)


def close(x):
    return ('bytes', x[1], x[2]) if opened(x) else x


def acts(run, st, cur):
    """a run of actions; add,join is one step: the escaped end of a range"""
    i = 0
    while i < len(run):
        if run[i][1] == 'add' and i + 1 < len(run) and run[i + 1][1] == 'join':
            need(len(st) > 1 and st[0][0] == 'lit')
            st = act(A('range'), st[1:], chr(st[0][1]))
            i += 2
            continue
        st = act(run[i], st, cur)
        i += 1
    return st


# ---- the machine

def step(stack, t):
    """closure on one token: -> (outcome, actions before it, rest of the stack);  outcome reject, accept or adv"""
    pre = []
    stack = list(stack)
    while True:
        if stack and stack[0][0] == 'A':
            pre.append(stack.pop(0))
            continue
        sym = stack.pop(0) if stack else S('bottom')
        r = rule(sym, t)
        if r in (REJECT, ACCEPT, UNREACHED):
            return r, pre, []
        if r and r[0] == ADV:
            return 'adv', pre, r[1:] + stack
        stack = r + stack


def run(text, visit=None):
    """-> (accepted, tree or position of the error)"""
    stack, nodes, cur = [S('begin')], [], END
    for i, t in enumerate(list(text) + [END]):
        if visit:
            visit(stack, t)
        out, pre, stack = step(stack, t)
        try:
            nodes = acts(pre, nodes, cur)
        except Pre:
            return None, i
        if out == REJECT:
            return False, i
        if out == ACCEPT:
            return True, nodes[0] if nodes else ('empty',)
        cur = t
        # actions up to the next symbol run before the next token is looked at
        n = 0
        while n < len(stack) and stack[n][0] == 'A':
            n += 1
        try:
            nodes = acts(stack[:n], nodes, cur)
        except Pre:
            return None, i
        stack = stack[n:]


# ---- the stack contract of every symbol: (types popped, types pushed); n any finished tree, o open set, l literal,
# e element of a set

EFFECT = {'begin': ('', 'n'), 'group0': ('', 'n'), 'kind': ('', 'n'), 'less': ('', 'n'), 'cname': ('', 'n'), 'body': ('', 'n'), 'alternative': ('', 'n'), 'alt': ('n', 'n'), 'seq': ('n', 'n'),
          'esc': ('', 'n'), 'unq': ('', ''), 'mod': ('n', 'n'), 'brace': ('n', 'n'), 'least': ('n', 'n'), 'most': ('n', 'n'), 'qmod': ('n', 'n'), 'bref': ('', 'n'), 'bname0': ('', 'n'), 'bname': ('', 'n'),
          'hex': ('', 'l'), 'set0': ('o', 'n'), 'set1': ('o', 'o'), 'sets': ('O', 'o'), 'setr': ('a', 'o'), 'setend': ('o', 'o'), 'rangeend': ('O', 'o'), 'setesc': ('', 'e'), 'endesc': ('', 'l'), 'expect': ('', ''), 'bottom': ('', '')}
# o: open set, O: open set with at least one member, a: open set nothing may be joined to; subtyping below
SUB = {('l', 'n'), ('l', 'e'), ('e', 'n'), ('o', 'n'), ('O', 'n'), ('a', 'n'), ('O', 'o'), ('a', 'o'), ('O', 'a'), ('o', 'a')}
ACTEFF = {'node': ('', 'n'), 'lit': ('', 'l'), 'push': ('', 'l'), 'class': ('', 'e'), 'bref': ('', 'n'), 'nbref': ('', 'n'), 'openset': ('', 'o'), 'neg': ('n', 'n'), 'cap': ('n', 'n'), 'look': ('n', 'n'), 'rep': ('n', 'n'), 'seq': ('nn', 'n'), 'alt': ('nn', 'n'),
          'add': ('eo', 'O'), 'addchar': ('a', 'O'), 'range': ('O', 'a'), 'join': None}


def check_effects(symbols):
    """every rule of every symbol meets the symbol's EFFECT; -> (obligations, failures)"""
    n, bad = 0, []

    def apply(st, eff, who):
        for want in eff[0]:
            if not st:
                raise Pre(who)
            have = st.pop(0)
            if have != want and (have, want) not in SUB:
                raise Pre('%s: %s for %s' % (who, have, want))
        st[:0] = list(eff[1])
    for s in symbols:
        for t in TOKENS:
            r = rule(s, t)
            if r in (REJECT, ACCEPT, UNREACHED):
                continue
            n += 1
            pops, pushes = EFFECT[s[1]]
            st = list(pops)
            items = [x for x in r if x != ADV]
            try:
                i = 0
                while i < len(items):
                    x = items[i]
                    if x[0] == 'S':
                        apply(st, EFFECT[x[1]], x)
                    elif x[1] == 'add' and i + 1 < len(items) and items[i + 1][1] == 'join':
                        apply(st, ('lO', 'a'), x)
                        i += 1
                    elif x[1] == 'neg' and s[1] in ('setesc', 'endesc'):
                        apply(st, ('e', 'e'), x)
                    else:
                        apply(st, ACTEFF[x[1]], x)
                    i += 1
                if s[1] in ('begin', 'group0') and t == END:
                    continue  # the empty pattern; a group cut off here is rejected by the expect that follows
                if len(st) != len(pushes) or any(h != w and (h, w) not in SUB for h, w in zip(st, pushes)):
                    raise Pre('leaves %s' % st)
            except Pre as e:
                bad.append((s, t, str(e)))
    # setend is only looked at with ]: every symbol it follows ends there
    ends = {s: set() for s in symbols}
    while True:
        grown = False
        for s in symbols:
            for t in TOKENS:
                r = rule(s, t)
                if r in (REJECT, ACCEPT, UNREACHED):
                    continue
                syms = [x for x in r if x[0] == 'S']
                new = ends.get(syms[-1], set(TOKENS)) if syms else set(TOKENS) if ADV in r else {t}
                if not new <= ends[s]:
                    ends[s] |= new
                    grown = True
        if not grown:
            break
    n += 1
    for s in symbols:
        if s[1] in ('rangeend', 'setr', 'sets', 'setend') and ends[s] != {']'}:
            bad.append((s, ']', 'may end before %r' % sorted(ends[s])[:5]))
    return n, bad
