"""Loops: the state at the head of an arbitrary iteration `it` is described by functions of `it`;
what holds of them is found by Houdini over candidate relations (each kept relation is proved:
it holds on entry and is preserved by the body)."""
import z3, itertools, os, sys, time
from logic import *
from values import *

DEBUG = os.environ.get('VC_DEBUG_LOOP')

def diff(a, b, path=()):
    """Differences of two values as (path, kind)."""
    if a is b or same(a, b):
        return
    if isinstance(a, VecV) and isinstance(b, VecV):
        if not same(a.len, b.len): yield (path + ('len',), 'leaf')
        if not same(a.cap, b.cap): yield (path + ('cap',), 'leaf')
        if a.c is not b.c: yield (path + ('c',), 'content')
        return
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        yield (path, 'leaf')
        return
    ca, cb = children(a), children(b)
    if ca and cb and compatible(a, b):
        for i, (x, y) in enumerate(zip(ca[1], cb[1])):
            yield from diff(x, y, path + (i,))
        return
    yield (path, 'dead')

def at(v, path):
    for p in path:
        if p == 'len': v = v.len
        elif p == 'cap': v = v.cap
        elif p == 'c': v = v.c
        else: v = children(v)[1][p]
    return v

def put(v, path, new):
    if not path:
        return new
    p, rest = path[0], path[1:]
    if isinstance(v, VecV):
        if p == 'len': return VecV(put(v.len, rest, new), v.cap, v.c, v.tag)
        if p == 'cap': return VecV(v.len, put(v.cap, rest, new), v.c, v.tag)
        if p == 'c': return VecV(v.len, v.cap, new, v.tag)
    rb, ch = children(v)
    ch = list(ch)
    ch[p] = put(ch[p], rest, new)
    return rb(ch)

class LoopContent(Content):
    """Contents at the head of iteration n: index a + s*i was rewritten in iteration i < n."""
    def __init__(self, base, a, s, n, gval):
        self.kind, self.base, self.a, self.s, self.n, self.gval = 'loop', base, a, s, n, gval
        self.get0 = self.prev = self.idx = self.val = None
    def get(self, k):
        i = simp((k - self.a) * self.s)
        c = simp(z3.And(i >= 0, i < self.n))
        if z3.is_true(c):
            return self.gval(i, k)
        b = self.base.get(k)
        if z3.is_false(c):
            return b
        return merge(c, self.gval(i, k), b)

class Havoc:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.closed = False
        self.__dict__.update(kw)

def run_loop(ex, st0, run, label):
    it = z3.Int(fresh_name('it$'))
    born = int(it.decl().name().rsplit('!', 1)[1])
    havoc = {}       # (cell, path) -> Havoc
    gone = set()
    mems = {}        # block -> function of (iteration, offset)
    evs = None       # events appended by one iteration
    npc = None

    def head():
        s = st0.clone()
        s.loops = st0.loops + (it,)
        s.assume(it >= 0)
        for c in gone:
            s.store.pop(c, None)
        # shallow paths first; a dead parent swallows its children
        for (cell, path), h in sorted(havoc.items(), key=lambda x: (str(x[0][0]), len(x[0][1]))):
            if cell not in s.store:
                continue
            if h.kind == 'dead':
                new = DEAD
            else:
                new = h.at(it)
            try:
                s.store[cell] = put(s.store[cell], path, new)
            except (TypeError, AttributeError, IndexError):
                pass
        for b, M in mems.items():
            s.mem[b] = (lambda M: lambda off: M(it, off))(M)
        if evs:
            s.events.append(('loop', it, it, list(evs)))
        return s

    # --- what does the body change? ---
    ex.quiet += 1
    try:
        for rnd in range(9):
            h0 = head()
            base_events = len(h0.events)
            npc = len(h0.pc)
            res = run(h0.clone())
            backs = [e[-1] for e in res if e[0] == 'back']
            changed = False
            for s in backs:
                for cell, v in h0.store.items():
                    if cell not in s.store:
                        if cell not in gone:
                            gone.add(cell); changed = True
                        continue
                    for path, kind in diff(v, s.store[cell]):
                        if (cell, path) in havoc and havoc[(cell, path)].kind != 'lin' and kind not in ('dead', 'content'):
                            continue
                        if any((cell, path[:k]) in havoc and havoc[(cell, path[:k])].kind == 'dead' for k in range(len(path) + 1)):
                            continue
                        old = at(v, path)
                        new = at(s.store[cell], path)
                        v0 = st0.store.get(cell)
                        if kind == 'dead':
                            havoc[(cell, path)] = Havoc('dead'); changed = True
                            continue
                        if kind == 'content':
                            hv = content_havoc(st0, it, at(v0, path), old, new, havoc.get((cell, path)), h0)
                            if hv is not None:
                                havoc[(cell, path)] = hv; changed = True
                            continue
                        init = at(v0, path)
                        d = simp(new - old) if old.sort() == I else None
                        cur = havoc.get((cell, path))
                        if cur is None and d is not None and is_const_int(d):
                            havoc[(cell, path)] = Havoc('lin', init=init, c=d.as_long(), at=(lambda init, c: lambda i: simp(init + c * i))(init, d.as_long()))
                            changed = True
                        elif cur is not None and cur.kind == 'lin' and d is not None and is_const_int(d) and d.as_long() == cur.c:
                            pass
                        else:
                            S = st0.fresh_fn('S', I, old.sort(), kind='i')
                            havoc[(cell, path)] = Havoc('fn', init=init, S=S, at=S, sort=old.sort())
                            changed = True
                for b in set(s.mem) & set(h0.mem):
                    if s.mem[b] is not h0.mem[b] and b not in mems:
                        mems[b] = st0.fresh_fn('M', I, I, I, kind='io')
                        changed = True
                for b in s.blocks:
                    if b in h0.blocks and s.blocks[b] is not h0.blocks[b]:
                        raise Unsupported('loop changes an allocation')
                suffix = s.events[base_events:]
                if suffix:
                    if evs is None:
                        evs = suffix; changed = True
                    elif len(suffix) != len(evs) or any(x[0] != y[0] for x, y in zip(suffix, evs)):
                        raise Unsupported('loop iterations with different effects')
                    else:
                        evs = suffix
            # a lin leaf must change by the same amount on every path
            for s in backs:
                for (cell, path), h in list(havoc.items()):
                    if h.kind == 'lin' and cell in s.store and cell in h0.store:
                        try:
                            d = simp(at(s.store[cell], path) - at(h0.store[cell], path))
                        except Exception:
                            continue
                        if not (is_const_int(d) and d.as_long() == h.c):
                            S = st0.fresh_fn('S', I, I, kind='i')
                            havoc[(cell, path)] = Havoc('fn', init=h.init, S=S, at=S, sort=I)
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop effects do not stabilise')
        if DEBUG:
            print(f'[{ex.fname}] {label}: {len(backs)} back paths;', {(c, p): (h.kind, getattr(h, 'init', None)) for (c, p), h in havoc.items() if h.kind != 'dead'}, 'mem', list(mems), 'events', evs, file=sys.stderr)

        # an array element rewritten to a term over what was there before the loop needs no names
        if len(backs) == 1:
            for k, hv in havoc.items():
                if hv.kind == 'content' and k[0] in backs[0].store:
                    close_content(hv, at(st0.store[k[0]], k[1]), at(backs[0].store[k[0]], k[1]), it, born)
        # --- candidate relations ---
        cands = candidates(ex, st0, havoc, mems, it)
        def vals_init():
            return {k: h.init for k, h in havoc.items() if h.kind in ('fn', 'lin')}
        def vals_at(i):
            return {k: h.at(i) for k, h in havoc.items() if h.kind in ('fn', 'lin')}
        def vals_back(s):
            return {k: at(s.store[k[0]], k[1]) for k, h in havoc.items() if h.kind in ('fn', 'lin') and k[0] in s.store}
        scal = [c for c in cands if not c.mem]
        memc = [c for c in cands if c.mem]
        # equalities first; a variable that is determined by one needs no inequalities
        strong = [c for c in scal if c.op in ('==', '')]
        strong = pool_base(st0, strong, vals_init())
        if DEBUG:
            print('  strong base', [c.text for c in strong], file=sys.stderr)
        strong = pool_step(strong, backs, vals_at(it), [vals_back(s) for s in backs], it)
        done = {c.var for c in strong if c.op == '=='}
        weak = [c for c in scal if c.op not in ('==', '') and c.var not in done]
        if weak:
            weak = pool_base(st0, weak + [c for c in scal if c.op == '=='], vals_init())
            scal = pool_step(prune(strong + [c for c in weak if c not in strong]), backs, vals_at(it), [vals_back(s) for s in backs], it)
        else:
            scal = strong
        kept = list(scal)
        if any(h.kind == 'lin' and h.c == -1 for h in havoc.values()):
            memc.sort(key=lambda c: 0 if '>=n-it' in c.text else 1)
        for c in memc:
            g, ext = c.goal(vals_init(), z3.IntVal(0), {b: st0.mem[b] for b in mems})
            if prove(st0.pc, st0.schemas, g, rounds=3, extra=ext, want_model=False, timeout=2000)[0] == 'valid':
                kept.append(c)
        memc = [c for c in kept if c.mem]
        if DEBUG:
            print(f'  base: {len(kept)} of {len(cands)}', [c.text for c in kept], file=sys.stderr)
        # what is relocated: the first relation per block that is preserved
        base_facts = [f for c in scal for f in c.assume(vals_at(it), it, {})]
        live, have = list(scal), set()
        for c in memc:
            if c.block is not None and c.block in have:
                continue
            facts, schemas = list(base_facts), []
            for f in c.assume(vals_at(it), it, {b: (lambda M: lambda off: M(it, off))(M) for b, M in mems.items()}):
                (schemas if isinstance(f, Schema) else facts).append(f)
            for s in backs:
                g, ext = c.goal(vals_back(s), it + 1, {b: s.mem[b] for b in mems})
                r = prove(s.pc + facts, s.schemas + schemas, g, rounds=3, extra=ext, want_model=False, timeout=3000)[0]
                if r != 'valid':
                    if DEBUG:
                        print('   lost', c.text, r, file=sys.stderr)
                    break
            else:
                live.append(c)
                have.add(c.block)
        if DEBUG:
            print('  invariants:', [c.text for c in live], file=sys.stderr)
    finally:
        ex.quiet -= 1

    # --- history: what earlier iterations did ---
    trans, mtrans = [], []
    for s in backs:
        cond = s.pc[npc:]
        upd = []
        vb = vals_back(s)
        for k, h in havoc.items():
            if h.kind == 'fn' and k in vb:
                upd.append(h.S(it + 1) == vb[k])
            if h.kind == 'content':
                upd += h.defs(s, k)
        mtrans.append((cond, {b: s.mem[b] for b in mems}))
        trans.append(And(*(cond + upd)) if cond + upd else z3.BoolVal(True))
    tr = z3.Or(*trans) if len(trans) > 1 else (trans[0] if trans else z3.BoolVal(False))

    h = head()
    for k, hv in havoc.items():
        if hv.kind == 'fn':
            h.assume(hv.S(z3.IntVal(0)) == hv.init)
    for c in live:
        for f in c.assume(vals_at(it), it, {b: (lambda M: lambda off: M(it, off))(M) for b, M in mems.items()}):
            h.assume(f)
    n_before = len(h.schemas)
    hist = [c for c in live if not c.mem]
    if hist:
        h.assume(Schema('i', lambda i: z3.Implies(z3.And(i >= 0, i <= it), And(*[f for c in hist for f in c.assume(vals_at(i), i, {})])), 'inv'))
    if trans:
        h.assume(Schema('i', lambda i: z3.Implies(z3.And(i >= 0, i < it), z3.substitute(tr, (it, i))), 'transition'))
    for b, M in mems.items():
        # what an iteration does to a block, offset by offset (used in the search of counterexamples)
        def body(i, o, b=b, M=M):
            step = z3.Or(*[And(*cond, M(it + 1, o) == m[b](o)) for cond, m in mtrans]) if mtrans else z3.BoolVal(False)
            return And(M(z3.IntVal(0), o) == st0.mem[b](o), z3.Implies(z3.And(i >= 0, i < it), z3.substitute(step, (it, i))))
        h.assume(Schema('io', body, 'memory'))
    mine = h.schemas[n_before:]
    out = []
    for e in run(h):
        if e[0] == 'back':
            continue
        s = e[-1] if e[0] != 'exit' else e[2]
        out.append(e)
    for e in out:
        s = e[-1] if e[0] != 'exit' else e[2]
        s.loops = st0.loops
        ks = [k for k, hv in havoc.items() if hv.kind == 'content']
        if ks and not mems and (canonical(ex, s, ks) or all(havoc[k].closed for k in ks) and not any(hv.kind == 'fn' for hv in havoc.values())):
            # the history of this loop says nothing more
            s.schemas = [x for x in s.schemas if x not in mine]
    return out

def canonical(ex, s, keys):
    """Replaces what a finished loop left in an array by a closed description of it, when they are proved equal in range."""
    n = 0
    for cell, path in keys:
        if cell not in s.store:
            continue
        try:
            v = at(s.store[cell], path[:-1])
        except Exception:
            continue
        if not isinstance(v, VecV) or v.c.kind != 'loop':
            continue
        for f in ex.hints.get('canon', []):
            k = z3.Int(fresh_name('k$'))
            new = f(s, k)
            if new is None:
                continue
            d = list(diff(v.c.get(k), new))
            if any(kind != 'leaf' for _, kind in d):
                continue
            g = And(*[at(v.c.get(k), p) == at(new, p) for p, _ in d]) if d else z3.BoolVal(True)
            r = prove(s.pc, s.schemas, z3.Implies(z3.And(k >= 0, k < v.len), g), rounds=3, want_model=False, extra={'k': [k]})[0]
            if DEBUG:
                print('  canonical contents', r, file=sys.stderr)
            if r == 'valid':
                c = Content(get0=(lambda f: lambda j: f(s, j))(f))
                s.store[cell] = put(s.store[cell], path, c)
                n += 1
                break
    return n == len(keys)

def content_havoc(st0, it, base, old, new, cur, h0):
    """Writes of one iteration to an array's contents."""
    ws = []
    c = new
    while c is not old:
        if c.kind != 'set':
            raise Unsupported('array contents replaced in a loop')
        ws.append(c)
        c = c.prev
    ws.reverse()
    idx = ws[0].idx
    for w in ws[1:]:
        if not z3.is_true(simp(w.idx == idx)):
            raise Unsupported('a loop iteration writes several array elements')
    val = ws[-1].val
    lf = linear(simp(idx))
    co = lf[0].get(it.get_id(), (None, 0))[1]
    if abs(co) != 1:
        # first discovery: the index is not yet a function of the iteration
        if cur is not None and cur.kind == 'content':
            return None
        return Havoc('content-pending', at=lambda i: old)
    a = simp(z3.substitute(idx, (it, z3.IntVal(0))))
    before = old.get(idx)
    if cur is not None and cur.kind == 'content' and same(cur.a, a) and cur.s == co and shape_eq(cur.vars, val, before):
        return None
    vars_ = []
    def build(v, b, path):
        if same(v, b):
            return lambda i, k: at(base.get(k), path)
        if is_z(v):
            G = st0.fresh_fn('G', I, v.sort(), kind='i')
            vars_.append((path, G))
            return lambda i, k: G(i)
        ch, cb = children(v), children(b)
        if not ch or not cb or not compatible(v, b):
            raise Unsupported('array element of changing shape')
        subs = [build(x, y, path + (j,)) for j, (x, y) in enumerate(zip(ch[1], cb[1]))]
        return lambda i, k: ch[0]([f(i, k) for f in subs])
    g = build(val, before, ())
    def defs(s, key):
        cc = at(s.store[key[0]], key[1])
        v = cc.get(a + co * it)
        return [G(it) == at(v, p) for p, G in vars_]
    hv = Havoc('content', a=a, s=co, vars=vars_, at=lambda i: LoopContent(base, a, co, i, g), defs=defs)
    return hv

def close_content(hv, base, new, it, born):
    if new.kind != 'set':
        return
    val = new.val
    ok = [True]
    def scan(v):
        if is_z(v):
            todo, seen = [v], set()
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    d = t.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(it):
                        nm = d.name().rsplit('!', 1)
                        if len(nm) == 2 and nm[1].isdigit() and int(nm[1]) >= born:
                            ok[0] = False
                    todo += t.children()
            return
        ch = children(v)
        if ch is None:
            return
        for x in ch[1]:
            scan(x)
    scan(val)
    if not ok[0]:
        return
    def sub(v, i):
        if is_z(v):
            return simp(z3.substitute(v, (it, i))) if v.sort() == I else z3.substitute(v, (it, i))
        ch = children(v)
        return v if ch is None else ch[0]([sub(x, i) for x in ch[1]])
    g = lambda i, k: sub(val, i)
    a, c = hv.a, hv.s
    hv.at = lambda i: LoopContent(base, a, c, i, g)
    hv.defs = lambda s, key: []
    hv.closed = True

def shape_eq(vars_, val, before):
    ps = set()
    def go(v, b, path):
        if same(v, b):
            return
        if is_z(v):
            ps.add(path); return
        for j, (x, y) in enumerate(zip(children(v)[1], children(b)[1])):
            go(x, y, path + (j,))
    go(val, before, ())
    return ps <= {p for p, _ in vars_}

def prune(cs):
    """Relations implied by a kept equality say nothing more."""
    eq = {c.grp for c in cs if c.op == '=='}
    return [c for c in cs if c.op in ('==', '') or c.grp not in eq]

def pool_solver(pc, schemas, terms, rounds=3):
    s = z3.Solver()
    s.set('timeout', 4000)
    s.set('random_seed', 0)
    add = adder(s)
    for f in pc:
        add(f)
    inst = Instantiator([x for x in schemas if x.kinds != 'kk' and 'o' not in x.kinds], add)
    for f in list(pc) + list(terms):
        inst.feed(f)
    for r in range(rounds):
        if not inst.round(4000):
            break
    return s

def _drop(s, goals, assume=()):
    """Indices of goals that a model falsifies; None if all hold."""
    STAT['checks'] += 1
    s.push()
    s.add(z3.Or(*[z3.Not(g) for g in goals]))
    r = s.check(*assume)
    bad = None
    if r == z3.sat:
        m = s.model()
        bad = [i for i, g in enumerate(goals) if not z3.is_true(m.eval(g, model_completion=True))]
        if not bad:
            bad = list(range(len(goals)))
    elif r == z3.unknown:
        bad = 'unknown'
    s.pop()
    return bad

def _drop1(s, goals, assume=()):
    """One by one (used when the joint query is too hard)."""
    out = []
    s.set('timeout', 500)
    for i, g in enumerate(goals):
        STAT['checks'] += 1
        s.push()
        s.add(z3.Not(g))
        if s.check(*assume) != z3.unsat:
            out.append(i)
        s.pop()
    s.set('timeout', 4000)
    return out

def pool_base(st, cands, vals):
    t0 = time.time()
    gs = [z3.simplify(c.goal(vals, z3.IntVal(0), {})[0]) for c in cands]
    cur = [(c, g) for c, g in zip(cands, gs) if not z3.is_false(g)]
    triv = [c for c, g in cur if z3.is_true(g)]
    cur = [(c, g) for c, g in cur if not z3.is_true(g)]
    if cur:
        s = pool_solver(st.pc, st.schemas, [g for _, g in cur])
        while cur:
            bad = _drop(s, [g for _, g in cur])
            if bad is None:
                break
            if bad == 'unknown':
                bad = _drop1(s, [g for _, g in cur])
                cur = [x for i, x in enumerate(cur) if i not in bad]
                break
            cur = [x for i, x in enumerate(cur) if i not in bad]
    STAT['time'] += time.time() - t0
    return triv + [c for c, _ in cur]

def pool_step(cands, backs, at, vbacks, it):
    """The largest set of relations preserved by the body on every path."""
    t0 = time.time()
    solvers = []
    lits = [z3.Bool(fresh_name('hou')) for _ in cands]
    facts = [And(*c.assume(at, it, {})) for c in cands]
    for s, vb in zip(backs, vbacks):
        goals = [c.goal(vb, it + 1, {})[0] for c in cands]
        sv = pool_solver(s.pc, s.schemas, facts + goals)
        for l, f in zip(lits, facts):
            sv.add(z3.Implies(l, f))
        solvers.append((sv, goals))
    live = list(range(len(cands)))
    again = True
    while again and live:
        again = False
        for sv, goals in solvers:
            while live:
                bad = _drop(sv, [goals[i] for i in live], [lits[i] for i in live])
                if bad is None:
                    break
                if bad == 'unknown':
                    bad = _drop1(sv, [goals[i] for i in live], [lits[i] for i in live])
                    if not bad:
                        break
                b = set(bad)
                live = [x for j, x in enumerate(live) if j not in b]
                again = True
    STAT['time'] += time.time() - t0
    return prune([cands[i] for i in live])

class Cand:
    """Relation over the carried values."""
    mem = False
    important = False
    def __init__(self, text, f, op='', grp=None):
        self.text, self.f, self.op, self.grp = text, f, op, grp
        self.var = grp[0] if grp else None
    def goal(self, vals, i, mems):
        try:
            return self.f(vals, i), None
        except KeyError:
            return z3.BoolVal(False), None
    def assume(self, vals, i, mems):
        return [self.f(vals, i)]

class Reloc:
    """Elements already handled lie at their new place, the others still at the old one, all with their bytes."""
    mem = True
    important = True
    def __init__(self, text, block, moved, h, mem0):
        self.text, self.block, self.moved, self.h, self.mem0 = text, block, moved, h, mem0
    def f(self, m, i, k, b):
        h = self.h
        loc = z3.If(self.moved(k, i), h['to'](k), h['from'](k))
        return z3.Implies(z3.And(k >= 0, k < h['n'], b >= 0, b < h['size'](k)), m(loc + b) == self.mem0(h['from'](k) + b))
    def goal(self, vals, i, mems):
        k, b = z3.Int(fresh_name('k$')), z3.Int(fresh_name('b$'))
        return self.f(mems[self.block], i, k, b), {'k': [k], 'b': [b]}
    def assume(self, vals, i, mems):
        m = mems[self.block]
        return [Schema('kb', lambda k, b: self.f(m, i, k, b), 'reloc')]

class QCand:
    """forall k. f(values, iteration, k)"""
    mem = True
    important = True
    block = None
    op, grp, var = '', None, None
    def __init__(self, text, f):
        self.text, self.f = text, f
    def goal(self, vals, i, mems):
        k = z3.Int(fresh_name('k$'))
        try:
            return self.f(vals, i, k), {'k': [k]}
        except KeyError:
            return z3.BoolVal(False), None
    def assume(self, vals, i, mems):
        return [Schema('k', lambda k: self.f(vals, i, k), 'quant')]

def candidates(ex, st0, havoc, mems, it):
    H = ex.hints
    out = []
    lin = [(k, h) for k, h in havoc.items() if h.kind == 'lin']
    fnl = [(k, h) for k, h in havoc.items() if h.kind == 'fn' and h.sort == I]
    # bounds of counters by their siblings (iterator front/back, ranges)
    for (cell, path), h in lin:
        v0 = st0.store.get(cell)
        par = at(v0, path[:-1]) if path else None
        ch = children(par)[1] if par is not None and children(par) else []
        sibs = []
        for j, x in enumerate(ch):
            if j != (path[-1] if path else None) and is_z(x) and x.sort() == I:
                sibs.append(((cell, path[:-1] + (j,)), x))
        for sk, x in sibs:
            key = (cell, path)
            def mk(key, sk, x, up):
                def f(v, i):
                    b = v[sk] if sk in v else x
                    return v[key] <= b if up else v[key] >= b
                return f
            out.append(Cand(f'{path}{"<=" if h.c > 0 else ">="}{sk[1]}', mk(key, sk, x, h.c > 0)))
            if H.get('strict'):
                pass
        for c in H.get('consts', []):
            key = (cell, path)
            out.append(Cand(f'{path} vs {c}', (lambda key, c, up: lambda v, i: (v[key] <= c if up else v[key] >= c))(key, c, h.c > 0)))
    idx = [('it', lambda v, i: i)]
    for key, h in lin:
        if abs(h.c) == 1 and not any(same(simp(h.at(it)), simp(f({key: h.at(it)}, it))) for _, f in idx if _ == 'it'):
            idx.append((f'{key[1]}', (lambda key: lambda v, i: v[key])(key)))
    for key, h in fnl:
        x = lambda v, key=key: v[key]
        cs = [('init', h.init), ('0', z3.IntVal(0)), ('IMAX', z3.IntVal(IMAX))] + [(str(c), c) for c in H.get('consts', [])]
        for t, c in cs:
            for op, rel in (('==', lambda a, b: a == b), ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
                out.append(Cand(f'{key[1]}{op}{t}', (lambda x, c, rel: lambda v, i: rel(x(v), c))(x, c, rel), '' if (t, op) in (('0', '>='), ('IMAX', '<=')) else op, (key, t)))
        for a in H.get('aligns', []):
            out.append(Cand(f'dv({a},{key[1]})', (lambda x, a: lambda v, i: dv(a, x(v)))(x, a)))
        for hn, hf in H.get('fns', []):
            for xn, xf in idx:
                for d in (-1, 0, 1):
                    for op, rel in (('==', lambda a, b: a == b), ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
                        c = Cand(f'{key[1]}{op}{hn}({xn}{d:+d})', (lambda x, hf, xf, d, rel: lambda v, i: rel(x(v), hf(simp(xf(v, i) + d))))(x, hf, xf, d, rel), op, (key, hn, xn, d))
                        out.append(c)
    for (k1, h1), (k2, h2) in itertools.combinations(fnl, 2):
        for op, rel in (('==', lambda a, b: a == b), ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
            out.append(Cand(f'{k1[1]}{op}{k2[1]}', (lambda k1, k2, rel: lambda v, i: rel(v[k1], v[k2]))(k1, k2, rel), op, (k1, k2)))
    for mk in H.get('cands', []):
        out += mk(st0, havoc, it)
    for r in H.get('reloc', []):
        for b in mems:
            n = r['n']
            for t, mv in (('k<it', lambda k, i: k < i), ('k>=n-it', lambda k, i: k >= n - i), ('k<it+1', lambda k, i: k < i + 1)):
                out.append(Reloc(f'reloc {t}', b, mv, r, st0.mem[b]))
    return out
