"""Inductive loop invariants by the Houdini method: start from many candidate facts, keep the largest
inductive subset, then discharge the loop's own obligations under it and show a ranking function."""
import z3
from symex import State, Ptr, FnPtr, Undef, Agg, Undecided, fresh, simp, Z, zbool, is_z3, I, UNDEF
from engine import All, LO, HI, P0, W, NS, okf, Cf, SUCC, EQEND, KK, Failure


def prove_loop(eng, ex, f, h, prev, regs, st):
    regs0, nphi = ex.phis(f, h, prev, regs)
    phis = [i.dst for i in f.blocks[h] if i.op == 'phi']
    body = f.loops[h]
    n0 = len(eng.univ)
    # --- which phis and memory cells change in the loop
    changed = set()
    cells = set()
    for _ in range(8):
        hreg, hst, var = havoc(ex, regs0, phis, st, cells, set(phis))
        hst.written = frozenset()
        backs = [r for r in one_iteration(ex, f, h, hreg, hst, body) if r[0] == 'back']
        new = set(cells)
        for r in backs:
            for (o, off) in r[3].written:
                if o in st.mem and o != 'cout':
                    new.add((o, off))
        if new == cells:
            break
        cells = new
    else:
        raise Undecided('loop footprint')
    # scratch cells that do not hold integers at entry and are always written before being read are left undefined
    hreg, hst, var = havoc(ex, regs0, phis, st, cells, set(phis))
    nums = literals(f, body)
    cands = candidates(eng, var, st, hst, [v for k, v in regs0.items() if k not in phis], nums)
    linear = [c for c in cands if not c.quant]
    others = [c for c in cands if c.quant]
    init_pc = list(st.pc)
    cands, res = houdini(eng, ex, f, h, hreg, hst, st, body, var, [], filter_valid(eng, init_pc, linear, [c(True) for c in linear]))
    # quantified candidates over ranges that are not empty anyway
    lin_pc = init_pc + [c(False) for c in cands]
    useful = []
    for c in others:
        fact = c(False)
        if isinstance(fact, All) and eng.valid(lin_pc, fact.lo >= fact.hi) is True:
            continue
        useful.append(c)
    useful = filter_valid(eng, init_pc, useful, [c(True) for c in useful])
    if useful:
        kept, res = houdini(eng, ex, f, h, hreg, hst, st, body, var, cands, useful)
        cands = cands + kept
    # --- ranking
    ranks = []
    for v in var:
        if v.sort == 'int' and v.kind == 'phi':
            ranks += [('HI-%s' % v.name, lambda x: HI - x, v), ('%s-LO' % v.name, lambda x: x - LO, v)]
            ranks.append((v.name, lambda x: x, v))
            ranks += [('%d-%s' % (n, v.name), lambda x, n=n: n - x, v) for n in nums]
    ints = [v for v in var if v.sort == 'int']
    backs = [r for r in res if r[0] == 'back']
    good = None
    for nm, fn, v in ranks:
        good_here = True
        for _, pv, rg, s2 in backs:
            nregs, _ = ex.phis(f, h, pv, rg)
            env = new_values(var, nregs, s2)
            g = z3.And(fn(Z(env[v.idx])) < fn(v.cur), fn(v.cur) >= 0)
            if eng.valid(list(s2.pc), g) is not True:
                good_here = False
                break
        if good_here:
            good = nm
            break
    if good is None and backs:
        # a flag that tells whether to go on is lowered when nothing else decreases
        for b in [v for v in var if v.sort == 'bool' or v.sort == 'bv' and v.cur.size() in (1, 8)]:
            raised = lambda x, b=b: z3.If(x if b.sort == 'bool' else x != 0, 1, 0)
            for nm, fn, v in ranks:
                if good:
                    break
                for sg in (1, -1):
                    okk = True
                    for _, pv, rg, s2 in backs:
                        nregs, _ = ex.phis(f, h, pv, rg)
                        env = new_values(var, nregs, s2)
                        g = z3.And(2 * fn(Z(env[v.idx])) + sg * raised(env[b.idx]) < 2 * fn(v.cur) + sg * raised(b.cur), fn(v.cur) >= 0)
                        if eng.valid(list(s2.pc), g) is not True:
                            okk = False
                            break
                    if okk:
                        good = '%s and %s' % (nm, b.name)
                        break
    if good is None and backs:
        # differences of two loop values or a fixed bound
        for a in ints:
            for b in ints:
                if a is b or good:
                    continue
                okk = True
                for _, pv, rg, s2 in backs:
                    nregs, _ = ex.phis(f, h, pv, rg)
                    env = new_values(var, nregs, s2)
                    g = z3.And(Z(env[a.idx]) - Z(env[b.idx]) < a.cur - b.cur, a.cur - b.cur >= 0)
                    if eng.valid(list(s2.pc), g) is not True:
                        okk = False
                        break
                if okk:
                    good = '%s-%s' % (a.name, b.name)
    where = (f.name, h)
    if good is None and backs:
        raise Failure('termination', where, 'no ranking function for the loop at ' + h)
    eng.stats.ok('termination')
    for c in cands:
        eng.stats.ok('loop-invariant')
    eng.stats.invariants.append('%s %s: %s; decreases %s' % (f.name[:60], h, '; '.join(c.text for c in cands)[:400], good))
    outs = []
    for r in res:
        if r[0] == 'back':
            eng.flush(r[3])
            continue
        s2 = r[4] if r[0] == 'exit' else r[1]
        s2.obls = st.obls + s2.obls
        outs.append(r)
    return outs


def filter_valid(eng, pc, cands, goals):
    return [c for c, ok in zip(cands, eng.valid_many(pc, goals)) if ok]


def houdini(eng, ex, f, h, hreg, hst, st, body, var, fixed, cands):
    """largest inductive subset of cands, given the already inductive facts `fixed`"""
    for _ in range(40):
        hs = hst.clone()
        hs.pc = tuple(st.pc) + tuple(c(False) for c in fixed + cands)
        hs.obls = ()
        n0 = len(hst.events)
        res = one_iteration(ex, f, h, hreg, hs, body)
        linked(eng, res, n0)
        keep = list(cands)
        for r in res:
            if r[0] != 'back':
                continue
            _, pv, rg, s2 = r
            nregs, _ = ex.phis(f, h, pv, rg)
            env = new_values(var, nregs, s2)
            if env is None:
                raise Undecided('loop-carried value of unexpected kind')
            keep = filter_valid(eng, list(s2.pc), keep, [c.with_values(env) for c in keep])
        if len(keep) == len(cands):
            return cands, res
        cands = keep
    raise Undecided('invariant did not stabilise')


def linked(eng, res, n0):
    """identify the closures used in the loop body with those of the recursive specifications"""
    if not eng.fun_events:
        return
    done = {}
    for r in res:
        s2 = r[3] if r[0] == 'back' else r[4] if r[0] == 'exit' else r[1]
        new = [e for e in s2.events[n0:] if e[0] == 'M']
        if not new or not s2.events[n0:]:
            continue
        tmp = s2.clone()
        tmp.events = tuple(new)
        eqs = eng.link(tmp, eng.fun_events[-12:], False)
        if eqs:
            s2.pc = tuple(s2.pc) + tuple(eqs)


class Var:
    __slots__ = ('name', 'idx', 'cur', 'init', 'kind', 'sort', 'ref')


def havoc(ex, regs0, phis, st, cells, changing):
    regs = dict(regs0)
    var = []
    hst = st.clone()
    for p in phis:
        v0 = regs0[p]
        add_var(var, p, v0, 'phi', p, regs, None)
    mem = dict(hst.mem)
    for (o, off) in sorted(cells):
        cell = st.mem[o].get(off)
        cur = dict(mem[o])
        if cell is None or isinstance(cell[1], (Undef, Agg)):
            cur.pop(off, None)
            mem[o] = cur
            continue
        if isinstance(cell[1], (Ptr, FnPtr)):
            raise Undecided('pointer cell changes in loop')
        v = add_var(var, '%s+%d' % (o, off), cell[1], 'cell', (o, off), None, None)
        cur[off] = (cell[0], v.cur)
        mem[o] = cur
    hst.mem = mem
    return regs, hst, var


def add_var(var, name, v0, kind, ref, regs, _):
    v = Var()
    v.name, v.idx, v.kind, v.ref = name, len(var), kind, ref
    if isinstance(v0, (Ptr, FnPtr, Agg)):
        raise Undecided('pointer-valued loop variable')
    if isinstance(v0, Undef):
        v.sort, v.cur, v.init = 'undef', UNDEF, UNDEF
    elif isinstance(v0, int) or z3.is_int(v0):
        v.sort, v.cur, v.init = 'int', fresh('l', I), Z(v0)
    else:
        v.sort, v.cur, v.init = ('bool' if z3.is_bool(v0) else 'bv'), fresh('l', v0.sort()), v0
    if regs is not None:
        regs[ref] = v.cur
    var.append(v)
    return v


def one_iteration(ex, f, h, hreg, hst, body):
    res = []
    work = []
    for r in ex.block(f, h, None, hreg, hst.clone(), skip_phis=True):
        if r[0] == 'goto':
            work.append(r[1:])
        else:
            res.append(r)
    while work:
        blk, pv, rg, s = work.pop()
        if blk == h:
            res.append(('back', pv, rg, s))
        elif blk not in body:
            res.append(('exit', blk, pv, rg, s))
        elif blk in f.loops:
            for r in ex.loop(f, blk, pv, rg, s):
                if r[0] == 'exit':
                    work.append(r[1:])
                else:
                    res.append(r)
        else:
            for r in ex.block(f, blk, pv, rg, s):
                if r[0] == 'goto':
                    work.append(r[1:])
                else:
                    res.append(r)
        if len(work) > 500:
            raise Undecided('loop body paths')
    return res


def new_values(var, regs, st):
    out = []
    for v in var:
        x = regs[v.ref] if v.kind == 'phi' else st.mem[v.ref[0]].get(v.ref[1], (8, UNDEF))[1]
        if v.sort == 'undef':
            out.append(x)
            continue
        if isinstance(x, (Ptr, FnPtr, Agg)):
            return None
        if isinstance(x, Undef):
            x = fresh('undef', I if v.sort == 'int' else v.cur.sort())
        out.append(x)
    return out


class Cand:
    def __init__(self, var, text, fn, quant=False):
        self.var, self.text, self.fn, self.quant = var, text, fn, quant

    def __call__(self, initial):
        return self.fn([(v.init if initial else v.cur) for v in self.var])

    def with_values(self, env):
        return self.fn(env)


def literals(f, body):
    """numbers the loop compares with"""
    out = set()
    for b in body:
        for ins in f.blocks[b]:
            if ins.op == 'icmp':
                out |= {v[1] for t, v in ins.a[1:] if t == ('i', 64) and v[0] == 'c' and isinstance(v[1], int) and 0 < abs(v[1]) < 1 << 40}
    return sorted(out)[:4]


def candidates(eng, var, st, hst, live=(), nums=()):
    out = []

    def add(text, fn, quant=False):
        out.append(Cand(var, text, fn, quant))
    ints = [v for v in var if v.sort == 'int']
    lay = {(eng.ctxobj, o + eng.ctxoff): j for j, o in enumerate(eng.mod.layout)}
    pos = [v for v in ints if not (v.kind == 'cell' and v.ref in lay)]
    slotv = {lay[v.ref]: v for v in ints if v.kind == 'cell' and v.ref in lay}
    for v in var:
        if v.sort == 'undef':
            continue
        i = v.idx
        add('%s unchanged' % v.name, lambda e, i=i, v=v: (Z(e[i]) if v.sort == 'int' else e[i]) == v.init)
    # terms the loop may be bounded by
    consts = {'LO': LO, 'HI': HI, 'P0': P0, '0': z3.IntVal(0)}
    for t in live:
        if is_z3(t) and z3.is_int(t):
            t = simp(t)
            if not z3.is_int_value(t) and str(t).find('\n') < 0:
                consts.setdefault(str(t), t)
    for t in frame_terms(st):
        consts.setdefault(str(t), t)
    for v in pos:
        for n in nums:
            add('%s<=%d' % (v.name, n), lambda e, i=v.idx, n=n: Z(e[i]) <= n)
            add('%s>=%d' % (v.name, n), lambda e, i=v.idx, n=n: Z(e[i]) >= n)
    for v in pos:
        i = v.idx
        add('%s>=init' % v.name, lambda e, i=i, v=v: Z(e[i]) >= v.init)
        add('%s<=init' % v.name, lambda e, i=i, v=v: Z(e[i]) <= v.init)
        for cn, c in list(consts.items())[:16]:
            add('%s>=%s' % (v.name, cn), lambda e, i=i, c=c: Z(e[i]) >= c)
            add('%s<=%s' % (v.name, cn), lambda e, i=i, c=c: Z(e[i]) <= c)
            add('%s<%s' % (v.name, cn), lambda e, i=i, c=c: Z(e[i]) < c)
            add('%s>%s' % (v.name, cn), lambda e, i=i, c=c: Z(e[i]) > c)
    for a in pos:
        for b in pos:
            if a.idx >= b.idx:
                continue
            for sg in (1, -1, 2, -2, 4, -4, 8, -8):
                add('%s-init == %d(%s-init)' % (a.name, sg, b.name),
                    lambda e, a=a, b=b, sg=sg: Z(e[a.idx]) - a.init == sg * (Z(e[b.idx]) - b.init))
                if abs(sg) > 1:
                    add('%s-init == %d(%s-init)' % (b.name, sg, a.name),
                        lambda e, a=a, b=b, sg=sg: Z(e[b.idx]) - b.init == sg * (Z(e[a.idx]) - a.init))
            add('%s<=%s' % (a.name, b.name), lambda e, a=a, b=b: Z(e[a.idx]) <= Z(e[b.idx]))
            add('%s>=%s' % (a.name, b.name), lambda e, a=a, b=b: Z(e[a.idx]) >= Z(e[b.idx]))
            add('%s+%s<=init' % (a.name, b.name), lambda e, a=a, b=b: Z(e[a.idx]) + Z(e[b.idx]) <= a.init + b.init)
    # captures
    s0 = eng.slots(st)
    if slotv:
        add('captures well formed', lambda e: eng.wf([Z(e[slotv[j].idx]) if j in slotv else s0[j] for j in range(NS)]))
    # facts about every position already visited
    preds = []
    for i in sorted(eng.charids):
        preds.append(('C%d' % i, 'char', lambda c, i=i: Cf(i)(c)))
    for nm, fn in getattr(eng, 'charpreds', []):
        preds.append((nm, 'char', fn))
    rest = []
    for rev in (eng.rev,):
        rest.append(('rest fails', lambda j, rev=rev: z3.Not(okf(eng.K(j, s0, rev)))))
    for (i, rev, k) in eng.konts:
        rest.append(('M%d fails' % i, lambda j, i=i, rev=rev, k=k: z3.Not(okf(eng.M(i, rev, j, s0, k)))))
    rest += getattr(eng, 'extra_rest', [])
    for v in pos:
        i = v.idx
        for nm, kind, fn in preds:
            add('%s on [init,%s)' % (nm, v.name), lambda e, i=i, v=v, fn=fn: All(v.init, Z(e[i]), lambda j: fn(W(j))), True)
            add('%s on [%s,init)' % (nm, v.name), lambda e, i=i, v=v, fn=fn: All(Z(e[i]), v.init, lambda j: fn(W(j))), True)
            if z3.is_int_value(v.init):
                # a counter: offsets from a fixed position
                for cn, c in [(n, c) for n, c in consts.items() if n not in ('LO', 'HI', '0')][:8]:
                    add('%s on [%s,+%s)' % (nm, cn, v.name), lambda e, i=i, v=v, fn=fn, c=c: All(c, c + Z(e[i]) - v.init, lambda j: fn(W(j))), True)
                    add('%s on [-%s,%s)' % (nm, v.name, cn), lambda e, i=i, v=v, fn=fn, c=c: All(c - Z(e[i]) + v.init, c, lambda j: fn(W(j))), True)
        for nm, fn in rest:
            add('%s on [init,%s)' % (nm, v.name), lambda e, i=i, v=v, fn=fn: All(v.init, Z(e[i]), fn), True)
            add('%s on (%s,init]' % (nm, v.name), lambda e, i=i, v=v, fn=fn: All(Z(e[i]) + 1, v.init + 1, fn), True)
    flags = [v for v in var if v.sort == 'bool' or v.sort == 'bv' and v.cur.size() in (1, 8)]
    for b in flags:
        if b.sort == 'bv':
            add('%s is a flag' % b.name, lambda e, b=b: z3.Or(e[b.idx] == 0, e[b.idx] == 1))
    # the outcome of an attempt carried from one iteration to the next, always or while a flag is up or down
    truth = lambda e, b: e[b.idx] if b.sort == 'bool' else e[b.idx] != 0
    guards = [('', lambda e: z3.BoolVal(True))]
    for b in flags:
        guards.append(('if %s: ' % b.name, lambda e, b=b: truth(e, b)))
        guards.append(('unless %s: ' % b.name, lambda e, b=b: z3.Not(truth(e, b))))
    inv = {v.idx: j for j, v in slotv.items()}
    for nm, fn in getattr(eng, 'attempts', ()):
        for gn, g in guards:
            def when(text, what, g=g, gn=gn):
                add(gn + text, lambda e: z3.Implies(g(e), what(e)))
            if gn:
                for q in ints:
                    when('%s unchanged' % q.name, lambda e, q=q: Z(e[q.idx]) == q.init)
            for p in pos:
                at = lambda e, p=p, fn=fn: fn(Z(e[p.idx]))
                for b in flags:
                    if b.name in gn:
                        continue
                    when('%s is the verdict of %s at %s' % (b.name, nm, p.name), lambda e, at=at, b=b: truth(e, b) == at(e).ok)
                    when('%s denies the verdict of %s at %s' % (b.name, nm, p.name), lambda e, at=at, b=b: truth(e, b) != at(e).ok)
                when('%s fails at %s' % (nm, p.name), lambda e, at=at: z3.Not(at(e).ok))
                if not flags:
                    continue
                for cn in ('LO', 'HI'):
                    when('%s fails at %s only at %s' % (nm, p.name, cn), lambda e, at=at, p=p, c=consts[cn]: z3.Or(at(e).ok, Z(e[p.idx]) == c))
                for q in ints:
                    if q is p:
                        continue
                    if q.idx not in inv:
                        when('%s is where %s at %s ends' % (q.name, nm, p.name), lambda e, at=at, q=q: (lambda r: z3.Implies(r.ok, Z(e[q.idx]) == r.end))(at(e)))
                        if gn:
                            when('%s is %s if %s succeeds' % (q.name, p.name, nm), lambda e, at=at, q=q, p=p: z3.Implies(at(e).ok, Z(e[q.idx]) == Z(e[p.idx])))
                    for j in ([inv[q.idx]] if q.idx in inv else range(NS)):
                        if j < 2:
                            for w, tn in ((lambda r, x: x, 'start'), (lambda r, x: r.end, 'end')):
                                when('%s is the %s of %s at %s' % (q.name, tn, nm, p.name), lambda e, at=at, q=q, p=p, w=w: (lambda r: z3.Implies(r.ok, Z(e[q.idx]) == w(r, Z(e[p.idx]))))(at(e)))
                        when('%s is group end %d of %s at %s' % (q.name, j, nm, p.name), lambda e, at=at, q=q, j=j: (lambda r: z3.Implies(r.ok, Z(e[q.idx]) == r.s[j]))(at(e)))
                    when('%s unchanged unless %s succeeds at %s' % (q.name, nm, p.name), lambda e, at=at, q=q: z3.Or(at(e).ok, Z(e[q.idx]) == q.init))
    # two texts compared side by side
    import spec as SP
    for a in pos if eng.texts else ():
        for b in pos:
            if a.idx == b.idx:
                continue
            for ic in ((False, True) if eng.icases else (False,)):
                eq = SP.ceq(ic)
                add('text equal fwd', lambda e, a=a, b=b, eq=eq: All(z3.IntVal(0), Z(e[a.idx]) - a.init, lambda j: eq(W(a.init + j), W(b.init + j)), bases=(a.init, b.init)), True)
                add('text equal bwd', lambda e, a=a, b=b, eq=eq: All(z3.IntVal(0), a.init - Z(e[a.idx]), lambda j: eq(W(a.init - 1 - j), W(b.init - 1 - j)), bases=(a.init, b.init)), True)
    # the outcome of the remaining work does not change
    for name in list(eng.funs):
        for v in pos:
            def same(e, v=v, name=name):
                cur = [Z(e[slotv[j].idx]) if j in slotv else Z(s0[j]) for j in range(NS)]
                r0 = eng.res_val(eng.fun(name, v.init, s0), s0)
                r1 = eng.res_val(eng.fun(name, Z(e[v.idx]), cur), cur)
                return z3.And(r0.ok == r1.ok, z3.Implies(r0.ok, z3.And(r0.end == r1.end, *[x == y for x, y in zip(r0.s, r1.s)])))
            add('outcome of %s kept' % name, same, True)
            for b in flags:
                for up in (True, False):
                    def flagged(e, v=v, name=name, b=b, up=up):
                        """while the flag says so there is more to come; otherwise only the rest of the pattern remains"""
                        cur = [Z(e[slotv[j].idx]) if j in slotv else Z(s0[j]) for j in range(NS)]
                        r0 = eng.res_val(eng.fun(name, v.init, s0), s0)
                        r1 = eng.res_val(eng.fun(name, Z(e[v.idx]), cur), cur)
                        r2 = eng.res_val(eng.K(Z(e[v.idx]), cur, eng.funs[name][1]), cur)
                        t = e[b.idx] if b.sort == 'bool' else e[b.idx] != 0
                        eq = lambda x: z3.And(r0.ok == x.ok, z3.Implies(r0.ok, z3.And(r0.end == x.end, *[p == q for p, q in zip(r0.s, x.s)])))
                        return z3.If(t if up else z3.Not(t), eq(r1), eq(r2))
                    add('outcome of %s kept as %s tells' % (name, b.name), flagged, True)
    return out


def frame_terms(st):
    """integer terms in the current frame that a bound may refer to"""
    out = {}
    for f in st.pc:
        if isinstance(f, All):
            continue
        todo = [f]
        while todo:
            t = todo.pop()
            if z3.is_int(t) and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[str(t)] = t
            elif z3.is_app(t) and not z3.is_int(t):
                todo.extend(t.children())
            elif z3.is_app(t) and z3.is_int(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
                todo.extend(t.children())
    return list(out.values())
