"""Path-based symbolic executor over the harness IR.

Positions and 64-bit integers are mathematical integers (every arithmetic result gets an explicit
no-wrap obligation), characters are 8-bit vectors, the input is an uninterpreted map from addresses to
characters, and every load from / pointer step within the input gets an in-range obligation.
Calls to functions that have a body are executed in place unless a contract applies; the opaque harness
functions are given by their contracts (engine.py)."""
import itertools
import z3

LIM = 2 ** 63


class Undecided(Exception):
    """The code is outside what the executor can interpret (tool limit, not a verdict)."""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name[:30]


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def simp(x):
    return z3.simplify(x) if is_z3(x) else x


def as_int(x):
    """64-bit value -> python int if concrete else z3 Int"""
    if isinstance(x, int):
        return x
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise Undecided('integer expected, got %r' % (x,))


def Z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    return x


class State:
    __slots__ = ('mem', 'pc', 'obls', 'events', 'written')

    def __init__(self, mem, pc, obls, events, written):
        self.mem, self.pc, self.obls, self.events, self.written = mem, pc, obls, events, written

    def clone(self):
        return State(self.mem, self.pc, self.obls, self.events, self.written)

    def add_pc(self, c):
        s = self.clone()
        s.pc = s.pc + (c,)
        return s

    def set_cell(self, obj, off, size, val):
        cells = dict(self.mem[obj])
        # kill overlapping cells
        for o in [o for o, (sz, _) in cells.items() if o < off + size and off < o + sz]:
            sz, v = cells[o]
            if (o, sz) != (off, size):
                del cells[o]
                # keep the uncovered parts readable only as undefined
        cells[off] = (size, val)
        m = dict(self.mem)
        m[obj] = cells
        self.mem = m
        self.written = self.written | {(obj, off)}

    def oblige(self, kind, where, f):
        self.obls = self.obls + ((kind, where, self.pc, f),)

    def event(self, e):
        self.events = self.events + (e,)


_fresh = itertools.count()


def fresh(prefix, sort):
    return z3.Const('%s!%d' % (prefix, next(_fresh)), sort)


I = z3.IntSort()
B8 = z3.BitVecSort(8)


class Executor:
    """Runs one function; `env` (engine.Env) supplies the input, contracts and solver queries."""
    MAX_CONCRETE = 400
    MAX_SYMBOLIC = 9

    def __init__(self, mod, env):
        self.mod, self.env = mod, env
        self.depth = 0
        self.steps = 0

    # ---------------------------------------------------------------- values
    def const(self, ty, v):
        k = v[0]
        t = self.mod.resolve(ty) if ty[0] == 'n' else ty
        if k == 'c':
            if t[0] == 'i':
                if t[1] == 1:
                    return z3.BoolVal(bool(v[1]))
                if t[1] >= 64:
                    x = v[1]
                    if x >= LIM:
                        x -= 2 * LIM
                    return x
                return z3.BitVecVal(v[1], t[1])
            raise Undecided('const')
        if k == 'null':
            return 0
        if k == 'undef':
            if t[0] in ('s', 'a'):
                return Agg([UNDEF] * (len(t[1]) if t[0] == 's' else t[1]))
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'g':
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return FnPtr(v[1])
            return Ptr(v[1], 0)
        if k == 'agg':
            return Agg([self.const(tt, vv) for tt, vv in v[1]])
        if k == 'gep':
            base = self.const(v[2][0][0], v[2][0][1])
            idx = [self.const(a, b) for a, b in v[2][1:]]
            return self.gep_value(None, v[1], base, idx, None)
        raise Undecided('constant %r' % (v,))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return self.const(t, ('c', 0))
        if t[0] == 'ptr':
            return 0
        if t[0] == 's':
            return Agg([self.zero(e) for e in t[1]])
        if t[0] == 'a':
            return Agg([self.zero(t[2]) for _ in range(t[1])])
        raise Undecided('zero')

    def val(self, regs, tv):
        ty, v = tv
        if v[0] == 'r':
            return regs[v[1]]
        return self.const(ty, v)

    # ---------------------------------------------------------------- memory
    def store(self, st, ty, v, p, where):
        ty = self.mod.resolve(ty)
        if isinstance(v, Agg):
            if ty[0] == 's':
                offs = self.mod.offsets(ty)
                for e, o, x in zip(ty[1], offs, v.v):
                    self.store(st, e, x, self.padd(p, o), where)
            else:
                sz = self.mod.size_align(ty[2])[0]
                for n, x in enumerate(v.v):
                    self.store(st, ty[2], x, self.padd(p, n * sz), where)
            return
        if not isinstance(p, Ptr):
            if self.env.is_input(p):
                st.oblige('frame', where, z3.BoolVal(False))
                return
            raise Undecided('store through %r' % (p,))
        if p.obj not in st.mem:
            raise Undecided('store to dead object')
        sz = self.mod.size_align(ty)[0]
        if ty[0] == 'i' and ty[1] == 1:
            v = self.to_bv8(v)
        if not self.env.may_write(p.obj):
            st.oblige('frame', where, z3.BoolVal(False))
        st.set_cell(p.obj, p.off, sz, v)

    def to_bv8(self, v):
        if isinstance(v, Undef):
            return v
        return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))

    def padd(self, p, o):
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off + o)
        return as_int(Z(p) + o)

    def load(self, st, ty, p, where):
        ty = self.mod.resolve(ty)
        if ty[0] == 's':
            return Agg([self.load(st, e, self.padd(p, o), where) for e, o in zip(ty[1], self.mod.offsets(ty))])
        if ty[0] == 'a':
            sz = self.mod.size_align(ty[2])[0]
            return Agg([self.load(st, ty[2], self.padd(p, n * sz), where) for n in range(ty[1])])
        if isinstance(p, Ptr):
            if p.obj.startswith('@'):
                return self.load_global(ty, p)
            if p.obj not in st.mem:
                raise Undecided('load from dead object')
            sz = self.mod.size_align(ty)[0]
            cells = st.mem[p.obj]
            if p.off in cells and cells[p.off][0] == sz:
                v = cells[p.off][1]
                if ty[0] == 'i' and ty[1] == 1:
                    if isinstance(v, Undef):
                        return v
                    return simp(v != 0)
                return v
            if any(o < p.off + sz and p.off < o + s for o, (s, _) in cells.items()):
                # word-wise copy of a multi-cell object (e.g. i64 covering a pointer) is not supported
                raise Undecided('partial load at %s' % where)
            return UNDEF
        # input
        if ty == ('i', 8):
            a = Z(as_int(p))
            st.oblige('read-in-range', where, self.env.readable(a))
            self.env.touch_char(a)
            return self.env.char(a)
        raise Undecided('load of %r through input pointer' % (ty,))

    def load_global(self, ty, p):
        toks = self.mod.globals.get(p.obj)
        if toks is None or 'constant' not in toks:
            raise Undecided('global ' + p.obj[:60])
        from ir import P
        pp = P(toks, self.mod)
        pp.i = toks.index('constant') + 1
        t = pp.type()
        v = pp.value(t)
        return self.gload(t, v, p.off, ty)

    def global_cells(self, obj):
        """the scalars of a constant object: offset -> (size, value)"""
        toks = self.mod.globals.get(obj) if obj.startswith('@') else None
        if toks is None or 'constant' not in toks:
            raise Undecided('memcpy object')
        from ir import P
        pp = P(toks, self.mod)
        pp.i = toks.index('constant') + 1
        t = pp.type()
        if pp.i < len(toks) and toks[pp.i] in ('undef', 'poison'):
            return {}
        v = pp.value(t)
        out = {}

        def walk(t, off):
            t = self.mod.resolve(t)
            if t[0] == 's':
                for e, o in zip(t[1], self.mod.offsets(t)):
                    walk(e, off + o)
            elif t[0] == 'a':
                for n in range(t[1]):
                    walk(t[2], off + n * self.mod.size_align(t[2])[0])
            else:
                out[off] = (self.mod.size_align(t)[0], self.gload(t0, v, off, t))
        t0 = t
        walk(t, 0)
        return out

    def gload(self, t, v, off, ty):
        t = self.mod.resolve(t)
        if t[0] in ('i', 'ptr'):
            if off == 0 and self.mod.size_align(t) == self.mod.size_align(ty):
                return self.const(t, v)
            raise Undecided('global load')
        if v[0] == 'zero':
            return self.zero(ty)
        if t[0] == 's':
            for e, o, (_, x) in zip(t[1], self.mod.offsets(t), v[1]):
                s = self.mod.size_align(e)[0]
                if o <= off < o + s:
                    return self.gload(e, x, off - o, ty)
        if t[0] == 'a':
            s = self.mod.size_align(t[2])[0]
            n = off // s
            if v[0] == 'bytes':
                return z3.BitVecVal(v[1][n], 8)
            return self.gload(t[2], v[1][n][1], off - n * s, ty)
        raise Undecided('global load')

    def gep_value(self, st, ty, base, idx, where, inb=False):
        off = 0
        t = ty
        sym = []
        i0 = idx[0]
        sz = self.mod.size_align(t)[0]
        i0 = self.idx(i0)
        total = self.mulc(i0, sz)
        for ix in idx[1:]:
            t = self.mod.resolve(t)
            ix = self.idx(ix)
            if t[0] == 's':
                if not isinstance(ix, int):
                    raise Undecided('symbolic field')
                total = self.addv(total, self.mod.offsets(t)[ix])
                t = t[1][ix]
            elif t[0] == 'a':
                s = self.mod.size_align(t[2])[0]
                total = self.addv(total, self.mulc(ix, s))
                t = t[2]
            else:
                raise Undecided('gep')
        if isinstance(base, Ptr):
            if not isinstance(total, int):
                raise Undecided('symbolic offset into local object')
            return Ptr(base.obj, base.off + total)
        if isinstance(base, (FnPtr, Undef)):
            raise Undecided('gep base')
        r = as_int(Z(base) + Z(total))
        if st is not None and not (isinstance(total, int) and total == 0):
            ok = self.env.steppable(Z(r))
            if not isinstance(total, int):
                ok = z3.Or(ok, Z(total) == 0)  # a step of zero is allowed from anywhere
            st.oblige('step-in-range', where, ok)
        return r

    def idx(self, v):
        if isinstance(v, int):
            return v
        if z3.is_bv(v):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                return v.as_signed_long()
            return z3.BV2Int(v, True)
        return as_int(v)

    def mulc(self, v, c):
        return v * c if isinstance(v, int) else as_int(v * c)

    def addv(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return as_int(Z(a) + Z(b))

    # ---------------------------------------------------------------- running
    def run(self, fname, args, st):
        """-> list of (state, return value)"""
        f = self.mod.funcs[fname]
        self.depth += 1
        if self.depth > 60:
            raise Undecided('call depth')
        regs = {}
        for (t, nm, ex), a in zip(f.params, args):
            regs[nm] = a
        out = []
        for r in self.region(f, f.entry, None, regs, st, None, None):
            if r[0] == 'ret':
                out.append((r[1], r[2]))
            elif r[0] == 'stop':
                pass
            else:
                raise Undecided('control flow')
        self.depth -= 1
        return out

    def region(self, f, start, prev, regs, st, region, back):
        """Executes from `start`; yields ('ret',st,v) / ('exit',blk,prev,regs,st) / ('back',prev,regs,st)"""
        res = []
        work = [(start, prev, regs, st)]
        first = True
        while work:
            blk, prev, regs, st = work.pop()
            if back is not None and blk == back and not first:
                res.append(('back', prev, regs, st))
                continue
            if region is not None and blk not in region:
                res.append(('exit', blk, prev, regs, st))
                continue
            if blk in f.loops and not (first and blk == back):
                first = False
                for r in self.loop(f, blk, prev, regs, st):
                    if r[0] == 'exit':
                        work.append(r[1:])
                    else:
                        res.append(r)
                continue
            first = False
            for r in self.block(f, blk, prev, regs, st):
                if r[0] == 'goto':
                    work.append(r[1:])
                else:
                    res.append(r)
            if len(work) > 4000:
                raise Undecided('too many paths')
        return res

    # ---- loops
    def loop(self, f, h, prev, regs, st):
        body = f.loops[h]
        outs, cur, symb, iters = [], [(prev, regs, st)], 0, 0
        ok = True
        mark = self.env.mark()
        most = self.most_rounds(f, body)
        while cur:
            iters += 1
            nxt = []
            for (pv, rg, s) in cur:
                for r in self.region(f, h, pv, rg, s, body, h):
                    if r[0] == 'back':
                        nxt.append(r[1:])
                    else:
                        outs.append(r)
            cur = nxt
            if cur and any(len(s.pc) > len(st.pc) + symb for _, _, s in cur):
                symb += 1
            if iters > self.MAX_CONCRETE or symb > most or len(cur) > 64:
                ok = False
                break
        if ok:
            return outs
        self.env.rollback(mark)
        return self.env.invariant_loop(self, f, h, prev, regs, st)

    def most_rounds(self, f, body):
        """loops over sub-patterns that count to a small constant are executed in full"""
        n = self.MAX_SYMBOLIC
        if not any(ins.op == 'call' and 'vx_match' in ins.text for b in body for ins in f.blocks[b]):
            return n
        for b in body:
            for ins in f.blocks[b]:
                if ins.op == 'icmp':
                    for t, v in ins.a[1:]:
                        if t == ('i', 64) and v[0] == 'c' and isinstance(v[1], int) and n < v[1] + 2 <= 26:
                            n = v[1] + 2
        return n

    def phis(self, f, blk, prev, regs):
        new = {}
        n = 0
        for ins in f.blocks[blk]:
            if ins.op != 'phi':
                break
            n += 1
            for v, b in ins.a[1]:
                if b == prev:
                    new[ins.dst] = self.val(regs, (ins.a[0], v))
                    break
            else:
                raise Undecided('phi')
        if new:
            regs = dict(regs)
            regs.update(new)
        return regs, n

    def block(self, f, blk, prev, regs, st, skip_phis=False):
        if skip_phis:
            n = sum(1 for i in f.blocks[blk] if i.op == 'phi')
            regs = dict(regs)
        else:
            regs, n = self.phis(f, blk, prev, regs)
            regs = dict(regs)
        # one block may fork inside calls: keep a list of (regs, st)
        cur = [(regs, st.clone())]
        ins_list = f.blocks[blk][n:]
        for ins in ins_list[:-1]:
            self.steps += 1
            if self.steps > 400000:
                raise Undecided('step limit')
            if ins.op == 'call':
                nxt = []
                for rg, s in cur:
                    for s2, v in self.call(ins, rg, s, f):
                        rg2 = rg
                        if ins.dst:
                            rg2 = dict(rg)
                            rg2[ins.dst] = v
                        nxt.append((rg2, s2))
                cur = nxt
            else:
                for rg, s in cur:
                    self.simple(ins, rg, s, f)
        t = ins_list[-1]
        res = []
        for rg, s in cur:
            if t.op == 'br':
                res.append(('goto', t.a[0], blk, rg, s))
            elif t.op == 'cbr':
                c = self.val(rg, t.a[0])
                for cond, tgt in self.fork(s, c, t.text):
                    res.append(('goto', t.a[1] if tgt else t.a[2], blk, rg, cond))
            elif t.op == 'switch':
                v = self.val(rg, t.a[0])
                rest = s
                alive = True
                for c, tgt in t.a[2]:
                    eq = self.eqv(v, self.const(t.a[0][0], ('c', c)))
                    nrest = None
                    for s2, b in self.fork(rest, eq, t.text):
                        if b:
                            res.append(('goto', tgt, blk, rg, s2))
                        else:
                            nrest = s2
                    if nrest is None:
                        alive = False
                        break
                    rest = nrest
                if alive:
                    res.append(('goto', t.a[1], blk, rg, rest))
            elif t.op == 'ret':
                res.append(('ret', s, self.val(rg, t.a) if t.a else None))
            elif t.op == 'unreachable':
                s.oblige('unreachable', t.text, z3.BoolVal(False))
                self.env.finished(s)
            else:
                raise Undecided('terminator ' + t.op + ' ' + t.text[:80])
        return res

    def fork(self, st, c, where):
        if isinstance(c, Undef):
            st.oblige('defined', where, z3.BoolVal(False))
            self.env.finished(st)
            return []
        c = simp(zbool(c))
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        nc = simp(z3.Not(c))
        res = []
        t = self.env.feasible(st.pc, c)
        e = self.env.feasible(st.pc, nc)
        if t:
            res.append((st.add_pc(c) if e else st, True))
        if e:
            res.append((st.add_pc(nc) if t else st, False))
        return res

    def eqv(self, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, (Ptr, FnPtr)) and isinstance(b, (Ptr, FnPtr)):
                return z3.BoolVal(a == b)
            other = b if isinstance(a, (Ptr, FnPtr)) else a
            if isinstance(other, int) and other == 0:
                return z3.BoolVal(False)
            raise Undecided('comparison of unrelated pointers')
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, int) or isinstance(b, int) or z3.is_int(a):
            return simp(Z(a) == Z(b))
        return simp(a == b)

    def simple(self, ins, regs, st, f):
        op, a = ins.op, ins.a
        where = (f.name, ins.text)
        if op == 'alloca':
            obj = 'o%d' % next(_fresh)
            m = dict(st.mem)
            m[obj] = {}
            st.mem = m
            regs[ins.dst] = Ptr(obj, 0)
        elif op == 'store':
            self.store(st, a[0][0], self.val(regs, a[0]), self.val(regs, a[1]), where)
        elif op == 'load':
            regs[ins.dst] = self.load(st, a[0], self.val(regs, a[1]), where)
        elif op == 'gep':
            ops = [self.val(regs, o) for o in a[1]]
            regs[ins.dst] = self.gep_value(st, a[0], ops[0], ops[1:], where, a[2])
        elif op == 'icmp':
            regs[ins.dst] = self.icmp(st, a[0], self.val(regs, a[1]), self.val(regs, a[2]), where)
        elif op == 'select':
            c = self.val(regs, a[0])
            x, y = self.val(regs, a[1]), self.val(regs, a[2])
            regs[ins.dst] = self.select(c, x, y)
        elif op == 'cast':
            regs[ins.dst] = self.cast(st, a[0], self.val(regs, a[1]), a[1][0], a[2], where)
        elif op == 'bin':
            regs[ins.dst] = self.binop(st, a[0], a[1], self.val(regs, a[2]), self.val(regs, a[3]), a[2][0], where)
        elif op == 'extractvalue':
            v = self.val(regs, a[0])
            for i in a[1]:
                if isinstance(v, Undef):
                    break
                v = v.v[i]
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(regs, a[0])
            regs[ins.dst] = self.insertv(v, self.val(regs, a[1]), a[2])
        elif op == 'freeze':
            regs[ins.dst] = self.val(regs, a[0])
        else:
            raise Undecided('instruction %s' % ins.text[:100])

    def insertv(self, v, x, idx):
        n = Agg(v.v)
        if len(idx) == 1:
            n.v[idx[0]] = x
        else:
            n.v[idx[0]] = self.insertv(v.v[idx[0]], x, idx[1:])
        return n

    def select(self, c, x, y):
        if isinstance(c, Undef):
            return UNDEF
        c = simp(zbool(c))
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        if isinstance(x, (Ptr, FnPtr, Undef, Agg)) or isinstance(y, (Ptr, FnPtr, Undef, Agg)):
            if isinstance(x, (Ptr, FnPtr)) and x == y:
                return x
            raise Undecided('select of pointers')
        if isinstance(x, int) or isinstance(y, int):
            x, y = Z(x), Z(y)
        return simp(z3.If(c, x, y))

    def icmp(self, st, pred, a, b, where):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if pred in ('eq', 'ne'):
            e = self.eqv(a, b)
            return e if pred == 'eq' else simp(z3.Not(e))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Undecided('pointer order')
        if not isinstance(a, int) and z3.is_bv(a):
            fn = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred]
            return simp(fn(a, b))
        if not isinstance(a, int) and z3.is_bool(a):
            raise Undecided('bool order')
        x, y = Z(a), Z(b)
        if pred[0] == 'u':
            # unsigned comparison of two's complement values
            x = x if (isinstance(a, int) and a >= 0) else z3.If(x < 0, x + 2 * LIM, x)
            y = y if (isinstance(b, int) and b >= 0) else z3.If(y < 0, y + 2 * LIM, y)
        fn = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        return simp(fn)

    def cast(self, st, op, v, t1, t2, where):
        if isinstance(v, Undef):
            return v
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'ptrtoint' and t2 != ('i', 64):
                raise Undecided('ptrtoint')
            return v
        n1, n2 = t1[1], t2[1]
        if op in ('zext', 'sext'):
            if n1 == 1:
                if n2 >= 64:
                    return as_int(z3.If(v, z3.IntVal(1 if op == 'zext' else -1), z3.IntVal(0)))
                return simp(z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, n2), z3.BitVecVal(0, n2)))
            if n2 >= 64:
                return as_int(z3.BV2Int(v, op == 'sext'))
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(n2 - n1, v))
        if op == 'trunc':
            if n1 >= 64:
                v = as_int(v)
                if isinstance(v, int):
                    if n2 == 1:
                        return z3.BoolVal(bool(v & 1))
                    return z3.BitVecVal(v, n2)
                if n2 == 1:
                    return simp(v % 2 == 1)
                return z3.Int2BV(v, n2)
            if n2 == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(n2 - 1, 0, v))
        raise Undecided('cast')

    def binop(self, st, op, fl, a, b, ty, where):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        ty = self.mod.resolve(ty)
        n = ty[1]
        if n == 1:
            a, b = zbool(a), zbool(b)
            r = {'xor': z3.Xor, 'and': z3.And, 'or': z3.Or}.get(op)
            if not r:
                raise Undecided('i1 ' + op)
            return simp(r(a, b))
        if n < 64:
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'xor': lambda: a ^ b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]
            return simp(f())
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
            return a.off - b.off
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Undecided('pointer arithmetic')
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and not (isinstance(a, int) or isinstance(b, int)):
                raise Undecided('nonlinear')
            r = as_int({'add': lambda: Z(a) + Z(b), 'sub': lambda: Z(a) - Z(b), 'mul': lambda: Z(a) * Z(b)}[op]())
            if isinstance(r, int):
                if not -LIM <= r < LIM:
                    r = (r + LIM) % (2 * LIM) - LIM
                return r
            st.oblige('no-overflow', where, z3.And(r >= -LIM, r < LIM))
            return r
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a % (2 * LIM), b % (2 * LIM)
            r = {'xor': lambda: ua ^ ub, 'and': lambda: ua & ub, 'or': lambda: ua | ub, 'shl': lambda: ua << ub, 'lshr': lambda: ua >> ub,
                 'ashr': lambda: a >> ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'sdiv': lambda: int(a / b)}.get(op)
            if r is None:
                raise Undecided(op)
            r = r() % (2 * LIM)
            return r - 2 * LIM if r >= LIM else r
        if op == 'ashr' and isinstance(b, int):
            return as_int(Z(a) / (2 ** b))
        if op == 'shl' and isinstance(b, int):
            r = as_int(Z(a) * (2 ** b))
            st.oblige('no-overflow', where, z3.And(Z(r) >= -LIM, Z(r) < LIM))
            return r
        raise Undecided('i64 ' + op)

    # ---------------------------------------------------------------- calls
    def call(self, ins, regs, st, f):
        rt, callee, args = ins.a
        where = (f.name, ins.text)
        c = self.const(('ptr',), callee) if callee[0] != 'r' else regs[callee[1]]
        if not isinstance(c, FnPtr):
            raise Undecided('indirect call')
        name = c.name
        if name.startswith('@llvm.'):
            return [(st, self.intrinsic(name, ins, regs, st, where))]
        av = [self.val(regs, a) for a in args]
        r = self.env.contract(self, name, av, st, where)
        if r is not None:
            return r
        if name in self.mod.funcs:
            return self.run(name, av, st)
        raise Undecided('external function %s' % name)

    def intrinsic(self, name, ins, regs, st, where):
        args = ins.a[2]
        if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.invariant')):
            return None
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
            d, s, n = (self.val(regs, a) for a in args[:3])
            if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, int)):
                raise Undecided('memcpy')
            if d.obj not in st.mem:
                raise Undecided('memcpy object')
            src = st.mem[s.obj] if s.obj in st.mem else self.global_cells(s.obj)
            items = [(o - s.off, sz, v) for o, (sz, v) in src.items() if s.off <= o and o + sz <= s.off + n]
            if any(o < s.off + n and s.off < o + sz and not (s.off <= o and o + sz <= s.off + n) for o, (sz, _) in src.items()):
                raise Undecided('partial memcpy')
            # clear destination range
            cells = dict(st.mem[d.obj])
            for o in [o for o, (sz, _) in cells.items() if o < d.off + n and d.off < o + sz]:
                del cells[o]
            m = dict(st.mem)
            m[d.obj] = cells
            st.mem = m
            if not self.env.may_write(d.obj):
                st.oblige('frame', where, z3.BoolVal(False))
            for o, sz, v in items:
                st.set_cell(d.obj, d.off + o, sz, v)
            return None
        if name.startswith('@llvm.memset'):
            d, v, n = (self.val(regs, a) for a in args[:3])
            if not (isinstance(d, Ptr) and isinstance(n, int) and z3.is_bv_value(simp(v)) and simp(v).as_long() == 0):
                raise Undecided('memset')
            self.env.zero_fill(st, d, n)
            return None
        if name.startswith('@llvm.is.constant'):
            return z3.BoolVal(False)
        if name.startswith('@llvm.expect'):
            return self.val(regs, args[0])
        if name.startswith(('@llvm.umin', '@llvm.umax', '@llvm.smin', '@llvm.smax')):
            a, b = self.val(regs, args[0]), self.val(regs, args[1])
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name[6:10]]
            return self.select(self.icmp(st, p, a, b, where), a, b)
        raise Undecided(name)
