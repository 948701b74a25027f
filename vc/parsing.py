"""Contracts of the compile-time parser (C13, C14).

machine   parser::parse, its transitions, the lexer and the driving fold do one step of a predictive parser
table     grammar::rule gives every reachable (symbol, token) the contract ll.rule
actions   ast::build gives every action of the table the contract ll.act, on every shape of the tree stack it can meet
effects   every rule keeps the stack contract of its symbol, so the preconditions of the actions hold on every path

Together they show, by induction over the pattern, that the parser accepts exactly the patterns ll.run accepts and builds
their tree.  A failed obligation is turned into a pattern the real parser treats differently from the reference parser;
without such a pattern nothing is reported (a grammar can be rewritten without changing what it parses)."""
import collections
import itertools
import random
import re
import time

import ll
import refparse
import tmeta
from ll import A, S
from tmeta import args, head, read, short, write

PRELUDE = r'''
namespace hx
{
    // one action after the other on a stack of trees
    template<typename Act, typename Token, typename Nodes> struct b1 { using type = err; };
    template<typename Act, typename Token, typename Nodes>
    requires requires { typename meta::ast::build<Act, Token, Nodes>::type; }
    struct b1<Act, Token, Nodes> { using type = typename meta::ast::build<Act, Token, Nodes>::type; };
    template<typename Token, typename Nodes, typename... Acts> struct bs { using type = Nodes; };
    template<typename Token, typename Nodes, typename Act, typename... Acts>
    struct bs<Token, Nodes, Act, Acts ...> { using type = typename bs<Token, typename b1<Act, Token, Nodes>::type, Acts ...>::type; };
    template<typename Token, typename Nodes, typename... Acts> using bs_t = typename bs<Token, Nodes, Acts ...>::type;
    template<char C> using chr = meta::symbol::character<C>;
    template<typename... T> using ts = meta::type_sequence<T ...>;
    template<typename S, typename T> using rl = typename meta::grammar::rule<S, T>::type;
    template<typename S> using act = val<bool(meta::symbol::is_semantic_action<S>)>;

    template<meta::static_string P, bool = meta::parser<P>::accepted> struct pres { using type = err; };
    template<meta::static_string P> struct pres<P, true> { using type = typename meta::parser<P>::ast_type; };
    template<meta::static_string P> using pres_t = typename pres<P>::type;

    // symbols of the machine's harness: what the table says for them is laid down here
    template<int N> struct hs {};
    template<int N, typename... T> struct does {};
    template<int N> struct hact : meta::symbol::semantic_action {};
    template<typename N, typename... T> struct did {};
}
namespace meta::grammar
{
    template<int N, typename Token> struct rule<hx::hs<N>, Token> { using type = type_sequence<advance, hx::hs<N>>; };
    template<int N, typename... T, typename Token> struct rule<hx::does<N, T ...>, Token> { using type = type_sequence<T ...>; };
    template<typename T, typename Token> struct rule<hx::does<0, T>, Token> { using type = T; };
}
namespace meta::ast
{
    template<int N, typename Token, typename... Nodes>
    struct build<hx::hact<N>, Token, type_sequence<Nodes ...>> { using type = type_sequence<hx::did<hx::sk<N>, Token>, Nodes ...>; };
}
'''


def tok(t):
    return 'meta::symbol::empty' if t == ll.END else 'chr<%s>' % tmeta.cch(t)


SOME = [ll.END] + list('ab0123456789-fFgzA_(|)*+?{}[]^\\$.,<>:=! ') + ['\n', '\0', '\x7f', '\x80', '\xff']


class Table:
    """the real rule table, evaluated on demand"""

    def __init__(self, ev):
        self.ev, self.rules, self.isact, self.sym = ev, {}, {}, {}

    def key(self, t):
        k = write(t)
        self.sym.setdefault(k, t)
        return k

    def load(self, wanted):
        """wanted: set of (symbol text, token)"""
        todo = [w for w in wanted if w not in self.rules]
        rs = self.ev(['rl<%s, %s>' % (s, tok(t)) for s, t in todo])
        for w, r in zip(todo, rs):
            self.rules[w] = None if isinstance(r, tmeta.Fail) else self.norm(read(r))
        new = sorted({x for w in todo if self.rules[w] for x in self.rules[w] if isinstance(x, str) and x != 'adv' and x not in self.isact})
        for s, r in zip(new, self.ev(['act<%s>' % s for s in new])):
            self.isact[s] = not isinstance(r, tmeta.Fail) and read(r)[1][0] in ('true', 1)
        return len(todo)

    def norm(self, t):
        h = head(t)
        if h == 'meta::grammar::reject':
            return ll.REJECT
        if h == 'meta::grammar::accept':
            return ll.ACCEPT
        if h == 'meta::grammar::ignore':
            return []
        if h == 'meta::grammar::advance':
            return ['adv']
        if h == 'meta::type_sequence':
            return ['adv' if head(x) == 'meta::grammar::advance' else self.key(x) for x in args(t)]
        return [self.key(t)]

    def step(self, word, t, missing):
        """closure of a word of symbols on one token -> (outcome, acts, rest), None if rules are missing (added to it)"""
        word, pre, n = list(word), [], 0
        while True:
            n += 1
            if n > 40:
                return 'loop', pre, []
            while word and self.isact.get(word[0]):
                pre.append(word.pop(0))
            if not word:
                return 'pop', pre, []
            w = (word[0], t)
            if w not in self.rules:
                missing.add(w)
                return None
            r = self.rules[w]
            if r is None:
                return 'error', pre, []
            if r in (ll.REJECT, ll.ACCEPT):
                return r, pre, []
            if r and r[0] == 'adv':
                if 'adv' in r[1:]:
                    return 'error', pre, []
                return 'adv', pre, r[1:] + word[1:]
            if 'adv' in r:
                return 'error', pre, []
            word = r + word[1:]


def spec_step(word, t):
    word, pre = list(word), []
    while True:
        while word and word[0][0] == 'A':
            pre.append(word.pop(0))
        if not word:
            return 'pop', pre, []
        r = ll.rule(word[0], t)
        if r in (ll.REJECT, ll.ACCEPT, ll.UNREACHED):
            return r, pre, []
        if r and r[0] == ll.ADV:
            return 'adv', pre, r[1:] + word[1:]
        word = r + word[1:]


def split(word, isact):
    """[runs of actions], [symbols]: len(runs) == len(symbols) + 1"""
    runs, syms = [[]], []
    for x in word:
        if isact(x):
            runs[-1].append(x)
        else:
            syms.append(x)
            runs.append([])
    return runs, syms


def wanted_tokens(s, thorough):
    """tokens a symbol of a parameterised family is examined on (all for the others)"""
    if len(s) > 2 and s[1] in ('bref', 'least', 'most', 'qmod', 'cname', 'bname') and not thorough and s[2:] not in ((1,), (0,), (2,), ('a',), (0, 1), (0, None), (1, None), (2, 3), (2, 2), (12,)):
        return SOME
    if s[1] == 'hex' and len(s) == 4 and s[2:] not in ((6, 1), (0, 0), (15, 15), (2, 13)):
        return [ll.END, 'a', '0', '*', ']', '-', '\\', '\xff']
    return ll.TOKENS


LARGE = tuple(int('65537042193'[:k]) for k in range(1, 9))
LONGNAME = 'a_bC9_long_nameXYZ0123456789_and_more'


def explored(s):
    """representatives of the parameterised families"""
    k, a = s[1], s[2:]
    if k == 'bref':
        return a[0] in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 19, 42, 99, 100, 421) + LARGE
    if k == 'least':
        return a[0] in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 27, 99, 120) + LARGE
    if k == 'most':
        return a[0] in (0, 1, 2, 12) and a[1] in (None, 0, 1, 2, 3, 9, 10, 12, 37, 99, 120) + (LARGE if a[0] == 1 else ())
    if k == 'qmod':
        return a[0] in (0, 1, 2, 3, 12, 27) + LARGE and a[1] in (None, 0, 1, 2, 3, 9, 12, 27, 37) + LARGE
    if k in ('cname', 'bname'):
        return a[0] in ('Z', '_', 'q', 'a1', 'Zz', '_9', 'a1x', 'Zzz') or LONGNAME.startswith(a[0])
    return True


def contract_symbols():
    todo, seen = [S('begin'), S('bottom')], {S('begin'), S('bottom')}
    while todo:
        s = todo.pop()
        for t in ll.TOKENS:
            r = ll.rule(s, t)
            for x in r if isinstance(r, list) else ():
                if x[0] == 'S' and x not in seen and explored(x):
                    seen.add(x)
                    todo.append(x)
    return sorted(seen, key=str)


class Result:
    def __init__(self):
        self.n, self.bad, self.kinds = 0, [], collections.Counter()
        self.runs = {}      # (real run, spec run, current char or None) -> a place
        self.pairs = {}
        self.nreal = 0

    def ob(self, kind, ok, **k):
        self.n += 1
        self.kinds[kind] += 1
        if not ok:
            self.bad.append(dict(k, kind=kind))
        return ok


def squeeze(word):
    """setend only ever sees ], where it ends: two in a row are one"""
    return [x for i, x in enumerate(word) if not (x == S('setend') and i and word[i - 1] == x)]


def align(tb, start, res, thorough):
    """simulation between the real table and the contract, from the start symbol on.  Elements are pairs of symbols, or
    pairs of words where one side spells in several symbols what the other does in one"""
    todo = [((start,), (S('begin'),)), (('meta::symbol::empty',), (S('bottom'),))]
    seen = set(todo)
    res.pairs.update({p: None for p in todo})
    words = 0

    def tokens(s):
        return wanted_tokens(s[0], thorough)
    while todo:
        # load everything this round needs
        missing = {(r[0], t) for r, s in todo for t in tokens(s)}
        while missing:
            tb.load(missing)
            missing = set()
            for r, s in todo:
                for t in tokens(s):
                    tb.step(r, t, missing)
        nxt = []
        for r, s in todo:
            for t in tokens(s):
                ro, rp, rr = tb.step(r, t, set())
                so, sp, sr = spec_step(s, t)
                if so == ll.UNREACHED:
                    continue
                where = dict(symbol=s[0], pair=(r, s), real=' '.join(r), token=t)
                if not res.ob('rule-outcome', ro == so, detail='%s on %r: expected %s, the table gives %s' % (s[0][1], t, so, ro), **where):
                    continue
                if so in (ll.REJECT, ll.ACCEPT):
                    continue
                res.ob('no-advance-past-end', not (t == ll.END and ro == 'adv'), detail='%s advances at the end' % s[0][1], **where)
                if rp or sp:
                    res.runs.setdefault((tuple(rp), tuple(sp), None), where)
                rruns, rsyms = split(rr, lambda x: tb.isact[x])
                sruns, ssyms = split(squeeze(sr), lambda x: x[0] == 'A')
                if len(rsyms) != len(ssyms):
                    # actions in front are compared, the rest stays one word
                    ra, sa = rruns[0], sruns[0]
                    p = (tuple(rr[len(ra):]), tuple(squeeze(sr)[len(sa):]))
                    ok = rsyms and ssyms and (p in seen or words < 150) and len(p[0]) < 9 and len(p[1]) < 9
                    if not res.ob('rule-structure', ok, detail='%s on %r: continues with %s, the table with %s' % (s[0][1], t, sr, rr), **where):
                        continue
                    if ra or sa:
                        res.runs.setdefault((tuple(ra), tuple(sa), t), where)
                    if p not in seen:
                        words += 1
                        seen.add(p)
                        res.pairs[p] = ((r, s), t, [])
                        nxt.append(p)
                    continue
                res.ob('rule-structure', True)
                for i, (a, b) in enumerate(zip(rruns, sruns)):
                    if a or b:
                        res.runs.setdefault((tuple(a), tuple(b), t if i == 0 and so == 'adv' else None), where)
                for i, p in enumerate(zip(rsyms, ssyms)):
                    p = ((p[0],), (p[1],))
                    if p not in seen and explored(p[1][0]):
                        seen.add(p)
                        res.pairs[p] = ((r, s), t, ssyms[:i])
                        nxt.append(p)
        todo = nxt
    res.nreal = len({x for r, _ in seen for x in r})
    return seen


# ---- actions

def nt(x):
    """canonical tree -> C++ type of a tree with that meaning"""
    k = x[0]
    if k == 'sk':
        return 'sk<%d>' % x[1] if x[1] < 1000 else 'tk<%d>' % (x[1] - 1000)
    if k == 'lit':
        return 'ast::literal<%s>' % tmeta.cch(x[1])
    if k == 'seq':
        return 'ast::sequence<%s>' % ', '.join(map(nt, x[1]))
    if k == 'alt':
        return 'ast::alternation<%s>' % ', '.join(map(nt, x[1]))
    if k == 'not':
        return 'ast::negated<%s>' % nt(x[1])
    if k == 'rep':
        return 'ast::basic_repetition<match_mode::%s, symbol::quantifier_value<%d>, %s, %s>' % ({'g': 'greedy', 'l': 'lazy', 'p': 'possessive'}[x[1]], x[2], 'symbol::infinity' if x[3] is None else 'symbol::quantifier_value<%d>' % x[3], nt(x[4]))
    if k == 'cap':
        return 'ast::capture<%d, %s, %s>' % (x[1], 'symbol::name<%s>' % tmeta.cstr(x[2]) if x[2] else 'symbol::unnamed', nt(x[3]))
    if k == 'look':
        return 'ast::lookaround<lookaround_direction::%s, %s>' % (x[1], nt(x[2]))
    if k == 'bref':
        return 'ast::backref<%d>' % x[1]
    if k == 'nbref':
        return 'ast::named_backref<%s>' % tmeta.cstr(x[1])
    if k == 'bytes':
        for nm, al in (('digit', 'digit'), ('lower', 'lower'), ('upper', 'upper'), ('word', 'word'), ('space', 'whitespace'), ('lbrk', 'linebreak')):
            if x[1] == tmeta.RANGE[nm] and not x[2]:
                return 'ast::' + al
        m = ['ast::literal<%s>' % tmeta.cch(c) for c in sorted(x[1])] + [nt(y) for y in sorted(x[2])]
        return 'ast::set<%s>' % ', '.join(m)
    if k == 'open':
        # front: the literal a range may begin with comes first; a non-literal (here a skolem) when there is none
        f = x[3]
        m = []
        if f is not None:
            m.append('ast::literal<%s>' % tmeta.cch(f))
        rest = sorted(x[1] - {f})
        others = [nt(y) for y in sorted(x[2])]
        return 'ast::set<%s>' % ', '.join(m + others + ['ast::literal<%s>' % tmeta.cch(c) for c in rest] if f is not None else others + ['ast::literal<%s>' % tmeta.cch(c) for c in rest])
    return 'ast::' + k


sk = [('sk', i) for i in range(90, 99)]
SHAPES = [sk[0], ('seq', (sk[0], sk[1])), ('seq', (sk[0], sk[1], sk[2])), ('alt', (sk[0], sk[1])), ('alt', (sk[0], sk[1], sk[2])), ('lit', 97), ('lit', 45), tmeta.bts(()), tmeta.bts({97}), tmeta.bts({98, 99}), tmeta.bts((), (sk[3],)), ('not', sk[0]), ('not', tmeta.bts({97, 98})),
          ('rep', 'g', 0, None, sk[0]), ('rep', 'l', 1, 2, sk[0]), ('rep', 'p', 1, 1, sk[0]), ('rep', 'g', 2, 2, ('seq', (sk[0], sk[1]))), ('cap', 3, '', sk[0]), ('cap', 1, 'n', ('alt', (sk[0], sk[1]))), ('look', 'ahead', sk[0]), ('look', 'behind', ('seq', (sk[0], sk[1]))), ('not', ('look', 'ahead', sk[0])),
          ('bref', 2), ('nbref', 'n'), ('empty',), ('wildcard',), ('beginning_of_line',), ('end_of_line',), ('beginning_of_input',), ('end_of_input',), ('word_boundary',), ('not', ('word_boundary',)), tmeta.bts(tmeta.RANGE['digit']), tmeta.bts(tmeta.RANGE['word']), tmeta.bts(tmeta.RANGE['space']), tmeta.bts(tmeta.RANGE['lbrk'])]


def bump(x, d):
    """the same shape over other skolems"""
    if x[0] == 'sk':
        return ('sk', x[1] + d)
    if x[0] == 'bytes':
        return ('bytes', x[1], frozenset(bump(y, d) for y in x[2]))
    return tuple(bump(y, d) if isinstance(y, tuple) and y and isinstance(y[0], str) else tuple(bump(z, d) for z in y) if isinstance(y, tuple) else y for y in x)


OPEN = [('open', frozenset(), frozenset(), None), ('open', frozenset({97}), frozenset(), 97), ('open', frozenset({45}), frozenset(), 45), ('open', frozenset({97, 99}), frozenset({sk[0]}), 97), ('open', frozenset(), frozenset({sk[0]}), None), ('open', frozenset({98, 100}), frozenset({sk[0], sk[1]}), None), ('open', frozenset({97, 98}), frozenset(), 98)]
ELEM = [('lit', 98), ('lit', 45), ('lit', 10), ('lit', 255)] + [tmeta.bts(tmeta.RANGE[x]) for x in ('digit', 'word', 'space', 'lbrk')] + [('not', tmeta.bts(tmeta.RANGE[x])) for x in ('digit', 'word', 'space', 'lbrk')]


def stacks(a, cur):
    """stacks a run of actions that begins with a is examined on"""
    k = a[1]
    rests = [[], [sk[7]], [('seq', (sk[7], sk[8]))], [('alt', (sk[7], sk[8])), sk[6]], [('lit', 99), ('open', frozenset({97}), frozenset(), 97)]]
    if k in ('node', 'lit', 'push', 'class', 'bref', 'nbref', 'openset'):
        return rests + [[o] for o in OPEN]
    if k in ('neg', 'cap', 'look', 'rep'):
        return [[x] + r for x in SHAPES + (OPEN if k == 'neg' else []) for r in rests[:3]]
    if k in ('seq', 'alt'):
        return [[x, bump(y, -30)] + r for x in SHAPES for y in SHAPES for r in rests[:2]]
    if k in ('addchar', 'range'):
        return [[o] + r for o in OPEN for r in rests[:3]]
    if k == 'add':
        return [[e, o] + r for e in ELEM for o in OPEN for r in rests[:2]]
    raise ValueError(k)


def stack_text(st):
    return 'ts<%s>' % ', '.join(map(nt, st))


def same(x, y):
    """canonical real tree x against the contract's y"""
    if y[0] == 'open':
        if x[0] == 'bytes' and x[1:] == y[1:3]:
            return True
        return False
    return x == y


def front_ok(t, y):
    """the front of an open set, which decides whether a range may begin with it"""
    if y[0] != 'open' or y[3] == ll.ANY:
        return True
    a = args(t)
    if short(head(t)) != 'set':
        return False
    f = args(a[0])[0] if a and short(head(a[0])) == 'literal' else None
    return f == y[3]


def check_actions(ev, res, thorough):
    qs, todo = [], []
    byrun = collections.defaultdict(list)
    for (rr, sr, cur), where in res.runs.items():
        byrun[(rr, sr)].append((cur, where))
    for (rr, sr), occ in byrun.items():
        if not sr:
            res.ob('action', not rr, detail='actions %s where there should be none' % (rr,), acts=sr, **occ[0][1])
            continue
        reads = any(a[1] in ('lit', 'addchar', 'range') for a in sr)
        base = stacks(sr[0], None)
        jobs = []
        if reads:
            for cur, where in occ:
                if cur is None:
                    res.ob('action', False, detail='the current character is not known here', acts=sr, **where)
                    continue
                sel = base if cur in 'a-]z0' else base[:4] + base[7:9] if sr[0][1] == 'lit' else base
                jobs += [(cur, st, where) for st in sel]
            if sr[0][1] == 'range':
                r = random.Random(7)
                for _ in range(3000 if not thorough else 30000):
                    f, c = r.randrange(256), r.randrange(256)
                    w = [x for x in occ if x[0] == chr(c)]
                    if w and f <= c:
                        jobs.append((chr(c), [('open', frozenset({f}), frozenset(), f), sk[7]], w[0][1]))
        else:
            where = occ[0][1]
            jobs += [('skolem', st, where) for st in base]
            for c in (ll.TOKENS if thorough else SOME):
                n = 0
                for st in base:
                    try:
                        ll.acts(sr, list(st), c)
                    except ll.Pre:
                        continue
                    jobs.append((c, st, where))
                    n += 1
                    if n == 2:
                        break
        k = 0
        for cur, st, where in jobs:
            try:
                want = ll.acts(list(sr), list(st), cur if cur != 'skolem' else 'a')
            except ll.Pre:
                continue
            k += 1
            qs.append('bs_t<%s, %s, %s>' % ('sk<1>' if cur == 'skolem' else tok(cur), stack_text(st), ', '.join(rr)) if rr else stack_text(st))
            todo.append((rr, sr, cur, st, want, where))
        if not k:
            res.ob('action', False, detail='no stack to examine', acts=sr, **occ[0][1])
    got = ev(qs)
    for g, (rr, sr, cur, st, want, where) in zip(got, todo):
        ok, txt = False, ''
        if isinstance(g, tmeta.Fail):
            txt = str(g)
        else:
            try:
                t = read(g)
                el = args(t)
                if head(t) == 'meta::type_sequence' and len(el) == len(want):
                    cs = [tmeta.canon(x) for x in el]
                    ws = [('cap', 0) + x[2:] if x[0] == 'cap' else x for x in want]
                    cs = [('cap', 0) + x[2:] if x[0] == 'cap' else x for x in cs]
                    ok = all(same(drop(c), drop(w)) for c, w in zip(cs, ws)) and all(front_ok(x, w) for x, w in zip(el, want))
                txt = g
            except (ValueError, KeyError, IndexError) as e:
                txt = '%s: %s' % (e, g)
        res.ob('action', ok, detail='%s with %r on %s: expected %s, got %s' % ('+'.join(a[1] for a in sr), cur, stack_text(st), [tmeta.show(x) if x[0] != 'open' else str(x) for x in want], txt[:300]), acts=sr, stack=st, cur=cur, **where)


def drop(t):
    """numbers of capturing groups do not matter while the tree is built: they are assigned at the end"""
    k = t[0]
    if k == 'cap':
        return ('cap', 0, t[2], drop(t[3]))
    if k in ('seq', 'alt'):
        return (k, tuple(drop(x) for x in t[1]))
    if k == 'rep':
        return t[:4] + (drop(t[4]),)
    if k == 'look':
        return t[:2] + (drop(t[2]),)
    if k == 'not':
        return ('not', drop(t[1]))
    return t


# ---- machine

def check_machine(ev, res):
    """parse_t, the transitions, the lexer, the fold and the initial state, on harness symbols"""
    pats = ['', 'a', 'ab', 'a\xff[']
    qs, want = [], []

    def q(expr, w, **k):
        qs.append(expr)
        want.append((w, k))

    def P(p):
        return 'meta::parser<%s>' % tmeta.cstr(p)

    def T(p, i):
        return 'meta::symbol::character<%s>' % tmeta.cch(p[i]) if 0 <= i < len(p) else 'meta::symbol::empty'

    def state(p, i, nodes, syms):
        return 'typename %s::template state<%d, ts<%s>, ts<%s>>' % (P(p), i, ', '.join(nodes), ', '.join(syms))
    for p in pats:
        for i in range(len(p) + 3):
            q('typename lexer<%s>::template token_t<%d>' % (tmeta.cstr(p), i), T(p, i), what='token %d of %r' % (i, p))
    long = ''.join(chr(97 + k % 26) for k in range(700))
    for n in (40, 64, 65, 128, 200, 256, 300, 700):
        for i in {0, 1, 31, 32, 62, 63, 64, 99, 127, 128, 254, 255, 256, 299, n - 1, n, n + 1}:
            q('typename lexer<%s>::template token_t<%d>' % (tmeta.cstr(long[:n]), i), T(long[:n], i), what='token %d of a pattern of %d' % (i, n))
            if i <= n:
                p = long[:n]
                q('typename %s::template parse_t<%d, ts<>, ts<hact<6>, hact<5>, hs<7>>>' % (P(p), i), state(p, i + 1, ['did<sk<5>, %s>' % T(p, i - 1), 'did<sk<6>, %s>' % T(p, i - 1)], ['hs<7>']), what='actions at %d of %d' % (i, n))
                q('typename %s::template parse_t<%d, ts<>, ts<does<0, grammar::reject>>>' % (P(p), i), 'meta::parser_result<ast::nothing, meta::parsing::syntax_error<%d>>' % i, what='rejection at %d of %d' % (i, n))
                q('typename %s::template parse_t<%d, ts<>, ts<does<1, grammar::advance, hs<1>, hs<2>>, hs<7>>>' % (P(p), i), state(p, i + 1, [], ['hs<1>', 'hs<2>', 'hs<7>']), what='advance at %d of %d' % (i, n))
        # the driver over a pattern of n characters: one eater per character
        p = long[:n]
        q('meta::final_parser_state<%s, %d>' % (state(p, 0, ['sk<1>'], ['does<1, grammar::advance>'] * n), n), 'meta::parser_result<sk<1>, meta::parsing::success>', what='driver over %d characters' % n)
        q('meta::final_parser_state<%s, %d>' % (state(p, 0, ['sk<1>'], ['does<1, grammar::advance>'] * (n - 1) + ['does<0, grammar::reject>']), n), 'meta::parser_result<ast::nothing, meta::parsing::syntax_error<%d>>' % (n - 1), what='driver over %d characters, rejected at the last' % n)
    for c in range(256):
        q('typename lexer<%s>::template token_t<1>' % tmeta.cstr('a' + chr(c) + 'b'), T('a' + chr(c), 1), what='token %r' % chr(c))
    sy = ['hs<1>', 'hs<2>', 'hs<3>']
    for p in pats:
        for i in range(len(p) + 1):
            for below in ([], ['hs<7>'], ['hs<7>', 'hs<8>'], ['hact<9>', 'hs<7>']):
                for nodes in ([], ['sk<1>'], ['sk<1>', 'sk<2>']):
                    prev = T(p, i - 1)

                    def sim(stack, nodes):
                        """abstract machine"""
                        stack, nodes = list(stack), list(nodes)
                        while True:
                            if not stack:
                                # rule<empty, token>
                                if i == len(p):
                                    return ('accept', nodes)
                                return ('reject',)
                            s = stack.pop(0)
                            if s.startswith('hact'):
                                nodes.insert(0, 'did<sk<%s>, %s>' % (s[5:-1], prev))
                            elif s.startswith('hs'):
                                return ('state', nodes, [s] + stack)
                            else:
                                k, items = RULES[s]
                                if k == 'reject':
                                    return ('reject',)
                                if k == 'accept':
                                    return ('accept', nodes)
                                if k == 'adv':
                                    return ('state', nodes, items + stack)
                                stack = items + stack
                    RULES = {'does<0, grammar::reject>': ('reject', []), 'does<0, grammar::accept>': ('accept', []), 'does<0, grammar::ignore>': ('push', []), 'does<0, grammar::advance>': ('adv', []), 'does<0, hs<1>>': ('push', ['hs<1>']), 'does<0, hact<4>>': ('push', ['hact<4>']),
                             'does<1, grammar::advance>': ('adv', []), 'does<1>': ('push', [])}
                    for n in (1, 2, 3):
                        for extra in ([], ['hact<4>'], ['hact<4>', 'hact<5>']):
                            RULES['does<1, %s>' % ', '.join(['grammar::advance'] + extra + sy[:n])] = ('adv', extra + sy[:n])
                            RULES['does<1, %s>' % ', '.join(extra + sy[:n] + extra)] = ('push', extra + sy[:n] + extra)
                    for first in list(RULES) + ['hact<6>']:
                        if nodes and below and below[0] != 'hact<9>' and len(nodes) > 1 and first not in ('does<0, grammar::accept>', 'hact<6>'):
                            continue
                        r = sim([first] + below, nodes)
                        if r[0] == 'state':
                            w = state(p, i + 1, r[1], r[2])
                        elif r[0] == 'reject':
                            w = 'meta::parser_result<ast::nothing, meta::parsing::syntax_error<%d>>' % i
                        else:
                            w = 'meta::parser_result<%s, meta::parsing::success>' % (r[1][0] if r[1] else 'meta::symbol::empty')
                        q('typename %s::template parse_t<%d, ts<%s>, ts<%s>>' % (P(p), i, ', '.join(nodes), ', '.join([first] + below)), w, what='step of %s over %s, trees %s at %d of %r' % (first, below, nodes, i, p))
    for n in range(7):
        p = 'abcdef'[:n]
        # an eater per character, then acceptance: the driver must make exactly one step per character and one more
        chain = ['does<1, grammar::advance, hact<%d>>' % (j + 1) for j in range(n)]
        acc = 'symbol::empty'
        for j in range(n):
            acc = T(p, j)
        w = 'meta::parser_result<%s, meta::parsing::success>' % ('did<sk<%d>, %s>' % (n, acc) if n else 'meta::symbol::empty')
        q('meta::final_parser_state<%s, %d>' % (state(p, 0, [], chain), n), w, what='driver over %r' % p)
        for j in range(n):
            q('meta::final_parser_state<%s, %d>' % (state(p, 0, ['sk<1>'], chain[:j] + ['does<0, grammar::reject>'] + chain[j:]), n), 'meta::parser_result<ast::nothing, meta::parsing::syntax_error<%d>>' % j, what='driver over %r, rejected at %d' % (p, j))
    got = ev(qs + [w for w, _ in want])
    m = len(qs)
    for j, (w, k) in enumerate(want):
        a, b = got[j], got[m + j]
        if isinstance(a, tmeta.Fail) and isinstance(b, tmeta.Fail):
            # the harness does not fit this tree
            b = 'a value'
        res.ob('machine', a == b, detail='%s: expected %s, got %s' % (k['what'], b, a), symbol=None, token=None)
    # results: an accepted tree becomes the type of the pattern, a rejected one never does
    rs = ev(['typename meta::parser_result<sk<1>, meta::parsing::success>::ast_type', 'typename meta::parser_result<meta::symbol::empty, meta::parsing::success>::ast_type', 'typename meta::parser_result<sk<1>, meta::parsing::syntax_error<3>>::verdict', 'typename meta::parser_result<sk<1>, meta::parsing::success>::verdict'])
    for a, b in zip(rs, ['hx::sk<1>', 'meta::ast::empty', 'meta::parsing::syntax_error<3>', 'meta::parsing::success']):
        res.ob('machine', a == b, detail='parser_result: expected %s, got %s' % (b, a), symbol=None, token=None)


def start_symbol(ev, res):
    rs = ev(['typename meta::parser<%s>::initial_state' % tmeta.cstr(p) for p in ('', 'a', 'ab')])
    out = set()
    for p, r in zip(('', 'a', 'ab'), rs):
        if isinstance(r, tmeta.Fail):
            raise r
        t = read(r)
        a = args(t)
        ok = len(a) == 4 and a[1] == 0 and args(a[2]) == [] and len(args(a[3])) == 1
        res.ob('machine', ok, detail='initial state %s' % r, symbol=None, token=None)
        if not ok:
            raise tmeta.Fail('initial state %s' % r)
        out.add(write(args(a[3])[0]))
    if len(out) != 1:
        raise tmeta.Fail('initial states differ')
    return out.pop()


# ---- patterns: generation along the contract, comparison of the real parser with the reference parser

REPS = list('abAz019_-^$.,:=!<>{}[]()|*+?\\dDwWsSRNbBAZkxnrtfvae0 #') + ['\n', '\x7f', '\x80', '\xff']
CLOSE = list(')]>}a019=<:')


def finish(stack, r):
    """a short string that completes a stack of the contract's machine, None if none was found"""
    cur, out = [tuple(stack)], {tuple(stack): ''}
    for _ in range(9):
        nxt = []
        for st in cur:
            if ll.step(list(st), ll.END)[0] == ll.ACCEPT:
                return out[st]
            for c in CLOSE:
                o, _, rest = ll.step(list(st), c)
                rest = tuple(rest)
                if o == 'adv' and rest not in out and len(rest) <= len(st) + 2:
                    out[rest] = out[st] + c
                    nxt.append(rest)
        cur = sorted(nxt, key=len)[:40]
    return None


_choices = {}


def choices(stack):
    """characters the contract's machine goes on with, grouped by what it does"""
    k = tuple(stack)
    if k not in _choices:
        if len(_choices) > 200000:
            _choices.clear()
        g = collections.defaultdict(list)
        for c in REPS:
            o, pre, rest = ll.step(stack, c)
            if o == 'adv':
                g[(tuple(pre), tuple(rest))].append(c)
        _choices[k] = list(g.values())
    return _choices[k]


def walk(r, length, boost=None):
    """a random valid pattern along the contract's machine; boost: characters to prefer"""
    stack, s = [S('begin')], ''
    while len(s) < length:
        g = choices(stack)
        if not g:
            break
        c = r.choice(r.choice(g))
        if boost and r.random() < .3:
            b = r.choice(boost)
            c = b if ll.step(stack, b)[0] == 'adv' else c
        stack, s = ll.step(stack, c)[2], s + c
    e = finish(stack, r)
    return None if e is None else s + e


def reaching(pred, seed, n, seconds, boost=None):
    """patterns on whose way the contract's machine meets pred(symbol at the front, token, actions)"""
    r = random.Random(seed)
    out, t0 = [], time.time()
    while len(out) < n and time.time() - t0 < seconds:
        s = walk(r, r.choice((2, 4, 6, 9, 13)), boost)
        if s is None:
            continue
        stack = [S('begin')]
        for i, c in enumerate(list(s) + [ll.END]):
            word = list(stack)
            hit = False
            while True:
                run = []
                while word and word[0][0] == 'A':
                    run.append(word.pop(0))
                if run and pred(None, None, run):
                    hit = True
                sym = word.pop(0) if word else S('bottom')
                for t in (c,):
                    if pred(sym, t, None):
                        hit = True
                x = ll.rule(sym, c)
                if x in (ll.REJECT, ll.ACCEPT, ll.UNREACHED) or x and x[0] == ll.ADV:
                    break
                word = x + word
            if hit:
                out.append(s)
                break
            o, _, stack = ll.step(stack, c)
            if o != 'adv':
                break
    return out


def prefixes(pairs, p, t, r):
    """strings after which the real parser is at the word p[0] where the contract is at p[1], about to see t"""
    x = pairs.get(p)
    if x is None:
        return ['']
    pp, c, before = x
    ends = ['']
    if before:
        ends, cur = [], [('', list(before))]
        for _ in range(7):
            nxt = []
            for e, w in cur:
                if spec_step(w, t)[0] == 'pop':
                    ends.append(e)
                for d in r.sample(REPS, 12) + CLOSE:
                    o, _, rest = spec_step(w, d)
                    if o == 'adv':
                        nxt.append((e + d, rest))
            r.shuffle(nxt)
            cur = sorted(nxt, key=lambda y: len(y[1]))[:60]
            if len(ends) > 12:
                break
        ends = ends[:2] + r.sample(ends, min(len(ends), 4))
    return [a + c + e for a in prefixes(pairs, pp, c, r)[:6] for e in ends]


def after(s):
    """the contract's machine after the string s"""
    stack = [S('begin')]
    for c in s:
        o, _, stack = ll.step(stack, c)
        if o != 'adv':
            return None
    return stack


def onward(stack, s, r, n):
    """random completions of s"""
    out = []
    e = finish(stack, r)
    if e is not None:
        out.append(s + e)
    for _ in range(n):
        st, q = stack, s
        for _ in range(r.randrange(1, 10)):
            g = choices(st)
            if not g:
                break
            c2 = r.choice(r.choice(g))
            st, q = ll.step(st, c2)[2], q + c2
        e = finish(st, r)
        if e is not None:
            out.append(q + e)
    return out


def guided(pairs, p, t, seed, n):
    """patterns that bring the real parser to p[0], the contract to p[1], and then show them t"""
    r = random.Random(seed)
    out = []
    for s in dict.fromkeys(x for _ in range(4) for x in prefixes(pairs, p, t, r)):
        st = after(s)
        if st is None:
            continue
        if t == ll.END:
            out.append(s)
            continue
        o, _, rest = ll.step(st, t)
        if o == 'adv':
            out += onward(rest, s + t, r, 60)
        else:
            out += [s + t + e for e in ('', 'a', 'a)', 'a]', ')', ']', '*', '}', '>a)', '1}', '-z]', 'b|c', 'a})', '0])')] + [s + t + x[len(s):] for x in onward(st, s, r, 20)]
        out += onward(st, s, r, 4)
    out = [x for x in dict.fromkeys(out) if len(x) < 60 and '\0' not in x]
    r.shuffle(out)
    return out[:n]


def variants(sym, t, seed, n, seconds):
    """patterns that bring the contract's machine to sym and then show it the token t (accepted or not)"""
    r = random.Random(seed)
    out, t0 = set(), time.time()

    def fam(x):
        return x is not None and x[1] == sym[1]
    while len(out) < n and time.time() - t0 < seconds:
        s = walk(r, r.choice((1, 3, 5, 8, 11)))
        if s is None:
            continue
        stack = [S('begin')]
        for i, c in enumerate(list(s) + [ll.END]):
            # symbols at the front of the stack while the token t would be looked at
            word, here = list(stack), False
            for _ in range(30):
                while word and word[0][0] == 'A':
                    word.pop(0)
                top = word.pop(0) if word else S('bottom')
                if fam(top):
                    here = True
                    break
                x = ll.rule(top, t)
                if x in (ll.REJECT, ll.ACCEPT, ll.UNREACHED) or x and x[0] == ll.ADV:
                    break
                word = x + word
            if here:
                p = s[:i] + t
                out.add(p)
                out.add(p + s[i:])
                o, _, rest = ll.step(stack, t)
                if o == 'adv':
                    out.update(onward(rest, p, r, 6))
                else:
                    for e in ('a', 'a)', 'a]', ')', ']', '*', '}', '>a)', '1}', '-z]', 'b|c'):
                        out.add(p + e)
            o, _, stack = ll.step(stack, c)
            if o != 'adv':
                break
    out = [x for x in out if len(x) < 60 and '\0' not in x]
    r.shuffle(out)
    return out[:n]


def repair(s):
    """adds the groups a pattern refers to without having them"""
    p = refparse.Parser(s)
    try:
        p.parse()
    except refparse.Bad:
        return s
    except refparse.Unsupported:
        miss = [b for b in p.brefs if isinstance(b, str) and b not in p.names]
        top = max([b for b in p.brefs if isinstance(b, int)] + [0])
        if top <= 14 and len(miss) < 4 and not any(len(x) > 40 for x in miss):
            s = ''.join('(?<%s>%s)' % (x, 'uvwxyz'[i]) for i, x in enumerate(dict.fromkeys(miss))) + s
            for i in range(max(0, top - p.groups - len(set(miss)))):
                s = '(%s)' % 'abcdefghijklmn'[i] + s
    return s


def expected(s):
    """reference parser -> (accepted, canonical tree with numbers); None if another compile-time rule decides"""
    try:
        t = refparse.Parser(s).parse()
    except refparse.Bad:
        return (False, None)
    except refparse.Unsupported:
        return None
    return (True, tmeta.of_ref(t, ids=True))


def compare(ev, patterns, trees=True):
    """-> (compared, [disagreements]); the real parser against the reference parser"""
    items = []
    seen = set()
    for s in patterns:
        s = repair(s)
        if s in seen or '\0' in s:
            continue
        seen.add(s)
        w = expected(s)
        if w is not None:
            items.append((s, w))
    got = ev(['pres_t<%s>' % tmeta.cstr(s) for s, _ in items], per=250)
    bad, n = [], 0
    for (s, w), g in zip(items, got):
        if isinstance(g, tmeta.Fail):
            bad.append(dict(pattern=s, expected='accepted' if w[0] else 'syntax error', got='the parser does not compile', output=str(g), verdict=True))
            continue
        n += 1
        acc = g != 'hx::err'
        if acc != w[0]:
            bad.append(dict(pattern=s, expected='accepted' if w[0] else 'syntax error', got='accepted' if acc else 'syntax error', verdict=True))
        elif acc and trees:
            try:
                c = tmeta.canon(read(g), ids=True)
            except (ValueError, KeyError, IndexError) as e:
                c = ('unreadable', str(e)[:80])
                continue
            if tmeta.loose(c) != tmeta.loose(w[1]):
                bad.append(dict(pattern=s, expected=tmeta.show(w[1]), got=tmeta.show(c), want_tree=w[1], got_tree=c, verdict=False, numbers=tmeta.loose(drop(c)) == tmeta.loose(drop(w[1]))))
    return n, bad


def sample(seed, n):
    """patterns along the contract and mutations of them"""
    r = random.Random(seed)
    out = []
    while len(out) < n:
        s = walk(r, r.choice((1, 2, 3, 5, 7, 10, 14)))
        if s is None or len(s) > 50:
            continue
        out.append(s)
        if r.random() < .5 and s:
            i = r.randrange(len(s))
            out.append(r.choice((s[:i] + s[i + 1:], s[:i] + r.choice(REPS) + s[i:], s[:i] + r.choice(REPS) + s[i + 1:], s[:i])))
    return out


def longer(seed, n):
    """valid patterns of 30 to 300 characters, some of them with a character taken out, and a few very plain ones"""
    r = random.Random(seed)
    out = [''.join(chr(97 + k % 26) for k in range(m)) for m in (33, 65, 129, 257)]
    while len(out) < n:
        s, m = '', r.choice((30, 45, 70, 100, 130, 200, 300))
        while len(s) < m:
            w = walk(r, r.choice((2, 5, 9, 14)))
            if w and len(w) < 50 and '\\k' not in w and '<' not in w and not re.search(r'\\\d', w):
                w = w if '|' not in w else '(?:%s)' % w
                s += w if not (s and w[0] in '{*+?0123456789') and len(s) + len(w) < 330 else ''
        out.append(s)
        if r.random() < .3:
            i = r.randrange(len(s))
            out.append(s[:i] + s[i + 1:])
    return out


# ---- the check

REAL = ['parser<Pattern>::parse', 'parser<Pattern>::transition', 'parser<Pattern>::initial_state', 'parser_result', 'final_parser_state', 'detail::advance_parser_state', 'lexer<Pattern>::token', 'grammar::rule', 'grammar::begin_name', 'grammar::continue_name', 'grammar::begin_quantifier_value', 'grammar::continue_quantifier_value',
        'grammar::abort_quantifier_parsing', 'grammar::continue_backref_id', 'grammar::begin_backref_id', 'grammar::continue_hex_escape_sequence', 'grammar::handle_escape_sequence', 'grammar::handle_set_escape_sequence', 'grammar::handle_set_range_escape_sequence', 'ast::build']


def prove(prop, tier, seed, jobs):
    thorough = tier == 'thorough'
    t0 = time.time()
    out = []
    base = dict(queries=0, solver_s=0.0, lemmas=0, invariants=(), real=REAL)
    try:
        with tmeta.Eval(PRELUDE, jobs) as ev:
            res = Result()
            tb = Table(ev)
            check_machine(ev, res)
            align(tb, start_symbol(ev, res), res, thorough)
            if prop == 'C13' or thorough:
                check_actions(ev, res, thorough)
            n, bad = ll.check_effects(contract_symbols())
            for s, t, e in bad:
                raise AssertionError('contract of %s on %r: %s' % (s, t, e))
            res.n += n
            res.kinds['stack-contract'] += n
            groups = collections.defaultdict(list)
            for b in res.bad:
                groups[(b['kind'], b.get('symbol') and b['symbol'][1], b.get('token') if b['kind'] != 'action' else None, tuple(a[1] for a in b.get('acts', ())))].append(b)
            relevant = list(groups.items())
            wit = witnesses(ev, relevant, res.pairs, seed, prop, jobs) if relevant else {}
            und = sum(len(v) for v in groups.values())
            r = dict(base, name='parser', group='parser', n=res.n - und, kinds=dict(res.kinds), queries=ev.n, status='proved', time=time.time() - t0, lemmas=1, detail='%d symbols of the table against %d of the contract' % (res.nreal, len(res.pairs)))
            out.append(r)
            for (kind, sym, t, acts), bs in relevant:
                b = bs[0]
                nm = 'parser: %s%s%s' % (kind, ' of %s' % sym if sym else '', ' on %r' % t if t is not None else '') + (' (%s)' % '+'.join(acts) if acts else '')
                ws = wit.get((kind, sym, t, acts), [])
                x = dict(base, name=nm, group='parser', kind=kind, where=b.get('real', ''), detail=b['detail'], n=0, time=0, found=ws)
                x['status'] = 'failed' if ws else 'undecided'
                if not ws:
                    x['reason'] = 'differs from the contract, but no pattern was found that is parsed differently: ' + b['detail'][:300]
                out.append(x)
    except tmeta.Fail as e:
        out.append(dict(base, name='parser', group='parser', n=0, kinds={}, status='undecided', reason='the parser cannot be evaluated on this tree: %s' % str(e)[:300], time=time.time() - t0))
    return out


def bounded(prop, tier, seed, jobs):
    """the real parser against the reference parser on patterns generated along the grammar"""
    with tmeta.Eval(PRELUDE, jobs) as ev:
        n, bad = compare(ev, sample(seed, 2500 if tier == 'quick' else 20000) + longer(seed, 50 if tier == 'quick' else 400))
        return n, findings(bad, prop, jobs)


def findings(bad, prop, jobs):
    """disagreements about patterns -> findings: a wrong verdict is one, a wrong tree needs an input it shows on"""
    out = [dict(kind='verdict', pattern=b['pattern'], expected=b['expected'], got=b['got'], output=b.get('output', '')) for b in bad if b['verdict']]
    if prop == 'C14':
        return out[:20]
    out = [f for f in out if f['expected'] == 'accepted']
    trees = [b for b in bad if not b['verdict']]
    trees = [b for b in trees if b['numbers'] == (prop == 'C15')]
    if prop == 'C15':
        out = []
    if trees:
        import confirm
        trees.sort(key=lambda b: len(b['pattern']))
        out = confirm.confirm([(b['pattern'], b['want_tree'], b['got_tree'], None) for b in trees[:40]], jobs) + out
    return out[:20]


def witnesses(ev, relevant, pairs, seed, prop, jobs):
    """findings for the failed obligations: {key: [findings]}"""
    out = {}
    budget = 200
    t0 = time.time()
    for key, bs in relevant[:12]:
        kind, sym, t, acts = key
        left = max(4, min(15, (budget - (time.time() - t0)) / 3))
        pats = []
        if kind == 'action':
            runs = {tuple(b['acts']) for b in bs}
            boost = [b['cur'] for b in bs if b.get('cur') not in (None, 'skolem', '')]
            pats = reaching(lambda s, c, run: run is not None and any(tuple(run[:len(x)]) == x for x in runs), seed, 500, left, boost[:8] or None)
            for b in bs[:6]:
                pats += guided(pairs, b['pair'], b['token'], seed, 100)
        elif kind == 'machine':
            pats = longer(seed, 60)
        elif sym:
            for b in bs[:4]:
                pats += guided(pairs, b['pair'], t, seed, 300)
            pats += variants(bs[0]['symbol'], t, seed, 200, left)
        pats += sample(seed + 17, 400)
        n, bad = compare(ev, pats)
        out[key] = findings(bad, prop, jobs)
        if time.time() - t0 > budget or len(out) >= 3 and sum(map(bool, out.values())) >= 2:
            break
    return out


if __name__ == '__main__':
    import sys
    for r in prove(sys.argv[1] if len(sys.argv) > 1 else 'C13', sys.argv[2] if len(sys.argv) > 2 else 'quick', 1, 8):
        print({k: v for k, v in r.items() if k not in ('real',)})
