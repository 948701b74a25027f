"""Reader for the subset of textual LLVM IR (LLVM 18) that clang emits for the harness."""
import re

TOK = re.compile(r'''\s+|;[^\n]*|(?P<str>c?"(?:[^"\\]|\\.)*")(?P<colon1>:)?|(?P<name>[%@\#$!](?:"[^"]*"|[-a-zA-Z$._0-9]+)?)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w.$-]))|(?P<word>[-a-zA-Z$._0-9]+)(?P<colon>:)?|(?P<p>[][(){}<>,=*:|])|(?P<dots>\.\.\.)''')


class IRError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise IRError('token: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        if m.group('str') is not None:
            out.append(m.group('str'))
        elif m.group('name') is not None:
            out.append(m.group('name'))
        elif m.group('num') is not None:
            out.append(m.group('num'))
        elif m.group('word') is not None:
            out.append(m.group('word'))
            if m.group('colon'):
                out.append(':')
        elif m.group('dots') is not None:
            out.append('...')
        else:
            out.append(m.group('p'))
    return out


# ---- types: ('i',n) ('ptr',) ('void',) ('s',[types],packed) ('a',n,t) ('n',name) ('other',..)
class Module:
    def __init__(self):
        self.types, self.funcs, self.globals, self.decls = {}, {}, {}, set()

    def resolve(self, t):
        while t[0] == 'n':
            if t[1] not in self.types:
                raise IRError('opaque type ' + t[1])
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return (a, min(a, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return (t[1], t[1])
        if k == 'a':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 's':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError('size of %r' % (t,))

    def offsets(self, t):
        t = self.resolve(t)
        off, res = 0, []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            res.append(off)
            off += s
        return res


class Func:
    __slots__ = ('name', 'params', 'blocks', 'order', 'ret', 'preds', 'loops', 'entry')


class Ins:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text


class P:
    """Recursive descent over one token list."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %s at %r' % (x, self.t[self.i:self.i + 8]))

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                raise IRError('addrspace')
        elif x == 'void':
            t = ('void',)
        elif x in ('float', 'double', 'x86_fp80', 'fp128', 'half'):
            t = ('f', {'float': 4, 'double': 8, 'half': 2}.get(x, 16))
        elif x == '{':
            t = ('s', self.types_until('}'), False)
        elif x == '<' and self.peek() == '{':
            self.next()
            t = ('s', self.types_until('}'), True)
            self.expect('>')
        elif x == '[' or x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']' if x == '[' else '>')
            t = ('a', n, e)
        elif x[0] == '%':
            t = ('n', x)
        elif x in ('label', 'metadata', 'token', 'opaque'):
            t = ('other', x)
        else:
            raise IRError('type ' + x)
        # function type
        while self.peek() == '(':
            depth = 0
            while True:
                y = self.next()
                depth += (y == '(') - (y == ')')
                if depth == 0:
                    break
            t = ('fn', t)
        return t

    def types_until(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            r.append(self.type())
            if self.accept(end):
                return r
            self.expect(',')

    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'allocptr', 'noext', 'inrange'}
    PATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range', 'initializes', 'allocalign', 'nofpclass', 'memory'}

    def param_attrs(self):
        extra = []
        while True:
            x = self.peek()
            if x in self.PATTR:
                self.next()
            elif x in self.PATTRP:
                self.next()
                extra.append(x)
                if self.peek() == '(':
                    depth = 0
                    while True:
                        y = self.next()
                        depth += (y == '(') - (y == ')')
                        if depth == 0:
                            break
                else:
                    self.next()
            else:
                return extra

    def value(self, ty):
        """Operand of a known type -> ('r',name) ('c',int) ('null',) ('undef',) ('g',name) ('zero',) ('agg',[..]) ('gep',..)"""
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x)
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x in ('{', '['):
            end = '}' if x == '{' else ']'
            r = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    r.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            return ('agg', r)
        if x.startswith('c"'):
            raw = x[2:-1]
            bs, i = [], 0
            while i < len(raw):
                if raw[i] == '\\':
                    bs.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(raw[i]))
                    i += 1
            return ('bytes', bs)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            t = self.type()
            self.expect(',')
            ops = [self.tv()]
            while self.accept(','):
                ops.append(self.tv())
            self.expect(')')
            return ('gep', t, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            self.expect('(')
            o = self.tv()
            self.expect('to')
            t = self.type()
            self.expect(')')
            return ('cexpr', x, o, t)
        if x in ('add', 'sub'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.tv()
            self.expect(',')
            b = self.tv()
            self.expect(')')
            return ('cbin', x, a, b)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?|0x[0-9A-Fa-f]+', x):
            return ('undef',)
        raise IRError('value %s' % x)

    def tv(self):
        self.param_attrs()
        t = self.type()
        self.param_attrs()
        return (t, self.value(t))


BINOPS = {'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_ins(line, mod):
    toks = tokenize(line)
    if not toks:
        return None
    p = P(toks, mod)
    dst = None
    if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
        dst = toks[0]
        p.i = 2
    op = p.next()
    text = line.strip()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        t = p.type()
        n = 1
        if p.peek() == ',' and p.peek(1) not in ('align', '!'):
            save = p.i
            p.next()
            try:
                tv = p.tv()
                n = tv[1][1] if tv[1][0] == 'c' else None
            except IRError:
                p.i = save
        return Ins('alloca', dst, (t, n), text)
    if op == 'store':
        p.accept('volatile')
        v = p.tv()
        p.expect(',')
        q = p.tv()
        return Ins('store', None, (v, q), text)
    if op == 'load':
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        q = p.tv()
        return Ins('load', dst, (t, q), text)
    if op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            inb = True
            p.next()
        t = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            ops.append(p.tv())
        return Ins('gep', dst, (t, ops, inb), text)
    if op in ('call', 'invoke'):
        if op == 'invoke':
            raise IRError('invoke')
        while True:
            p.param_attrs()
            x = p.peek()
            if x in ('fast', 'fastcc', 'ccc', 'coldcc', 'cc', 'nnan'):
                p.next()
            else:
                break
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    # skip metadata operand
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        depth += (y in '([{') - (y in ')]}')
                    args.append((('other', 'metadata'), ('undef',)))
                else:
                    args.append(p.tv())
                if p.accept(')'):
                    break
                p.expect(',')
        return Ins('call', dst, (rt, callee, args), text)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Ins('br', None, (p.next(),), text)
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Ins('cbr', None, (c, a, b), text)
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()))
        return Ins('switch', None, (v, d, cases), text)
    if op == 'ret':
        t = p.type()
        return Ins('ret', None, None if t[0] == 'void' else (t, p.value(t)), text)
    if op == 'unreachable':
        return Ins('unreachable', None, None, text)
    if op == 'icmp':
        p.accept('samesign')
        pred = p.next()
        a = p.tv()
        p.expect(',')
        b = p.value(a[0])
        return Ins('icmp', dst, (pred, a, (a[0], b)), text)
    if op == 'select':
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return Ins('select', dst, (c, a, b), text)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek() and p.peek()[0] == '!':
                break
        return Ins('phi', dst, (t, inc), text)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        a = p.tv()
        p.expect('to')
        return Ins('cast', dst, (op, a, p.type()), text)
    if op in BINOPS:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next())
        a = p.tv()
        p.expect(',')
        b = p.value(a[0])
        return Ins('bin', dst, (op, fl, a, (a[0], b)), text)
    if op == 'extractvalue':
        a = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Ins('extractvalue', dst, (a, idx), text)
    if op == 'insertvalue':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Ins('insertvalue', dst, (a, b, idx), text)
    if op == 'freeze':
        return Ins('freeze', dst, (p.tv(),), text)
    return Ins('unsupported', dst, (op,), text)


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    pending = []
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            toks = tokenize(ln)
            p = P(toks, mod)
            name = p.next()
            p.expect('=')
            p.expect('type')
            mod.types[name] = p.type()
        elif ln.startswith('@'):
            toks = tokenize(ln)
            mod.globals[toks[0]] = toks
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            mod.decls.add('@' + m.group(1))
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            pending.append(lines[i:j])
            i = j
        i += 1
    for body in pending:
        f = parse_func(body, mod)
        mod.funcs[f.name] = f
    return mod


def parse_func(lines, mod):
    toks = tokenize(lines[0])
    k = next(i for i, t in enumerate(toks) if t[0] == '@' and len(t) > 1)
    f = Func()
    f.name = toks[k]
    p = P(toks, mod)
    p.i = k + 1
    p.expect('(')
    f.params = []
    n = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            p.param_attrs()
            t = p.type()
            ex = p.param_attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%%%d' % n
            n += 1
            f.params.append((t, nm, ex))
            if p.accept(')'):
                break
            p.expect(',')
    f.blocks, f.order = {}, []
    cur = None
    i = 1
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
        if m:
            cur = '%' + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            i += 1
            continue
        if cur is None:
            cur = '%' + str(len(f.params))
            f.blocks[cur] = []
            f.order.append(cur)
        if s.endswith('['):
            while not lines[i].strip().endswith(']'):
                i += 1
                s += ' ' + lines[i].strip()
        # strip metadata
        s = re.sub(r',? !\w[\w.]* ![\w]+', '', s)
        ins = parse_ins(s, mod)
        if ins:
            f.blocks[cur].append(ins)
        i += 1
    f.entry = f.order[0]
    succ = {}
    f.preds = {b: [] for b in f.order}
    for b in f.order:
        t = f.blocks[b][-1]
        s = []
        if t.op == 'br':
            s = [t.a[0]]
        elif t.op == 'cbr':
            s = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            s = [t.a[1]] + [c[1] for c in t.a[2]]
        succ[b] = s
        for x in s:
            f.preds[x].append(b)
    # natural loops: header -> set of blocks (back edges by dominance via DFS on reducible CFG)
    f.loops = {}
    dom = dominators(f.order, succ, f.preds, f.entry)
    for b in f.order:
        for s in succ[b]:
            if b in dom and s in dom[b]:
                body = f.loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(f.preds[x])
    return f


def dominators(order, succ, preds, entry):
    reach = set()
    work = [entry]
    while work:
        x = work.pop()
        if x not in reach:
            reach.add(x)
            work.extend(succ[x])
    dom = {b: set(reach) for b in reach}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in reach or b == entry:
                continue
            ps = [dom[p] for p in preds[b] if p in reach]
            new = set.intersection(*ps) | {b} if ps else {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    return dom
