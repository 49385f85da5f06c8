"""Contracts of the provider for sized elements (src/inner/sized.rs): std Vec<T> handled through its raw parts.
Memory of a Vec<T> is counted in slots of one T each; a pointer operation that is not on *T is not accepted on it."""
import re, z3
from logic import *
from values import *
from program import head
from spec import Spec, unwrapv
import std
from std import R, model, rx, ret, unwind

class SVec:
    """Vec<T> of user values by its parts: length, capacity, block of `cap` slots."""
    __slots__ = ('len', 'cap', 'block', 'addr')
    def __init__(self, len, cap, block, addr=None):
        self.len, self.cap, self.block, self.addr = len, cap, block, addr
    def on_drop(self, ex, st):
        """Destroys the elements and frees the buffer."""
        st.events.append(('drop_vec', self.block))
        if self.block is not None:
            b = st.blocks[self.block]
            ex.oblige(st, z3.BoolVal(b.live), 'dropped Vec owns a live buffer', 'alloc')
            st.blocks[self.block] = Block(b.size, b.align, False, b.unit)
        return std.fork_unwind(ex, st)
    def __repr__(self):
        return f'SVec({self.len}, {self.block})'

def svec(ex, st, r):
    v = ex.read(st, ex.deref(r))
    return v if isinstance(v, SVec) else None

def over(*keys):
    """Model of a Vec method on a Vec<T> of user values; other Vecs go to the model they had."""
    def deco(f):
        for k in keys:
            old = R.get(k)
            def g(ex, st, fr, c, a, old=old, k=k):
                sv = svec(ex, st, a[0]) if a and isinstance(a[0], Ref) else None
                if sv is None:
                    if old is None:
                        raise Unsupported(f'call of {k}')
                    return old(ex, st, fr, c, a)
                return f(ex, st, fr, c, a, sv)
            g.label = k
            R[k] = g
        return f
    return deco

@over('Vec::len')
def _(ex, st, fr, c, a, v): return ret(st, v.len)
@over('Vec::capacity')
def _(ex, st, fr, c, a, v): return ret(st, v.cap)
@over('Vec::is_empty')
def _(ex, st, fr, c, a, v): return ret(st, v.len == 0)
@over('Vec::as_mut_ptr', 'Vec::as_ptr')
def _(ex, st, fr, c, a, v): return ret(st, Raw(None, v.addr) if v.block is None else Raw(v.block, z3.IntVal(0)))
@over('Vec::set_len')
def _(ex, st, fr, c, a, v):
    ex.oblige(st, z3.And(a[1] >= 0, a[1] <= v.cap), 'set_len: new length within the capacity', 'mem')
    ex.write(st, ex.deref(a[0]), SVec(a[1], v.cap, v.block))
    return ret(st)

def move_block(st, v, cap):
    """The elements in a block of `cap` slots; the old one is gone."""
    ob = st.blocks[v.block]
    om, n = st.mem[v.block], v.len
    b = std.new_block(st, cap, ob.align, 'vecbuf')
    st.blocks[b] = Block(cap, ob.align, True, 'T')
    junk = st.mem[b]
    st.mem[b] = lambda o: z3.If(z3.And(o >= 0, o < n), om(o), junk(o))
    st.blocks[v.block] = Block(ob.size, ob.align, False, 'T')
    return b

def cap_facts(ex, cap):
    a, s = ex.talign['T']
    return [cap >= 0, cap <= UMAX, mul(cap, s) <= IMAX, mul(cap, s) >= 0, z3.Implies(s == 0, cap == UMAX)]

def reserve(ex, st, r, v, n, exact):
    out = []
    for s, t in ex.split(st, v.cap - v.len >= n):
        if t:
            out.append((s, 'ret', ok(UNIT)))
            continue
        e = s.clone()
        out.append((e, 'ret', err(Opaque('TryReserveError'))))
        nc = s.fresh('veccap')
        s.assume(nc >= v.len + n, *cap_facts(ex, nc))
        if exact:
            s.assume(nc == v.len + n)
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        ex.write(s, ex.deref(r), SVec(v.len, nc, move_block(s, v, nc)))
        out.append((s, 'ret', ok(UNIT)))
    return out
@over('Vec::try_reserve')
def _(ex, st, fr, c, a, v): return reserve(ex, st, a[0], v, a[1], False)
@over('Vec::try_reserve_exact')
def _(ex, st, fr, c, a, v): return reserve(ex, st, a[0], v, a[1], True)
@over('Vec::reserve', 'Vec::reserve_exact')
def _(ex, st, fr, c, a, v):
    out = []
    for s, k, x in reserve(ex, st, a[0], v, a[1], c.method.endswith('exact')):
        if x.var == 'Ok':
            out.append((s, 'ret', UNIT))
        else:
            s.cause = 'reserve'
            out.append((s, 'unwind', None))
    return out
@over('Vec::shrink_to', 'Vec::shrink_to_fit')
def _(ex, st, fr, c, a, v):
    m = a[1] if len(a) > 1 else z3.IntVal(0)
    s0 = ex.talign['T'][1]
    out = []
    tgt = z3.If(m >= v.len, m, v.len)
    for s, t in ex.split(st, z3.And(s0 > 0, v.cap > tgt)):
        if t:
            nc = s.fresh('veccap')
            s.assume(nc == tgt, *cap_facts(ex, nc))
            ex.write(s, ex.deref(a[0]), SVec(v.len, nc, move_block(s, v, nc)))
        out.append((s, 'ret', UNIT))
    return out

_old_slice = std.slice_of
def slice_of(ex, st, r):
    if isinstance(r, Ref):
        v = svec(ex, st, r)
        if v is not None:
            return Agg('Slice', (r, z3.IntVal(0), v.len))
    return _old_slice(ex, st, r)
std.slice_of = slice_of

# ------------------------------------------------------------------ pointers counted in slots
def unit_of(st, p):
    p = p.thin if isinstance(p, Fat) else p
    if isinstance(p, Raw) and p.block in st.blocks:
        return st.blocks[p.block].unit
    return None

def pointee(c):
    m = re.search(r'<impl \*(?:mut|const) ([^<>]*)>::\w+', c.text)
    if m:
        return m.group(1).strip()
    return c.targs[0].strip() if c.targs else None

def guard(keys):
    for k in keys:
        old = R.get(k)
        if old is None:
            continue
        def g(ex, st, fr, c, a, old=old, k=k):
            us = {unit_of(st, x) for x in a if isinstance(x, (Raw, Fat))} - {None}
            if us == {1} and pointee(c) == 'S':
                raise Unsupported(f'{k} on *S')
            if 'T' in us:
                t = pointee(c)
                if t != 'T' or us != {'T'} or 'byte' in k:
                    raise Unsupported(f'{k} on elements through {t}')
            return old(ex, st, fr, c, a)
        g.label = getattr(old, 'label', k)
        R[k] = g
guard(['*mut::add', '*const::add', 'NonNull::add', '*mut::byte_add', '*const::byte_add', '*mut::sub', '*const::sub', 'ptr::copy', 'ptr::copy_nonoverlapping',
       '*mut::copy_from', '*mut::copy_from_nonoverlapping', '*mut::copy_to', '*mut::copy_to_nonoverlapping', '*const::copy_to', '*const::copy_to_nonoverlapping'])

@model('*mut::write', 'ptr::write')
def _(ex, st, fr, c, a):
    p, x = a
    if unit_of(st, p) != 'T' or not isinstance(x, Own) or st.blocks[x.block].unit != 'T':
        raise Unsupported('write of a value')
    std.mem_copy(ex, st, Raw(x.block, z3.IntVal(0)), p, z3.IntVal(1), False)
    return ret(st)
@model('*mut::read', '*const::read', 'ptr::read')
def _(ex, st, fr, c, a):
    p = a[0]
    if unit_of(st, p) != 'T':
        raise Unsupported('read of a value')
    b = std.new_block(st, z3.IntVal(1), z3.IntVal(1), 'value')
    st.blocks[b] = Block(z3.IntVal(1), z3.IntVal(1), True, 'T')
    std.mem_copy(ex, st, p, Raw(b, z3.IntVal(0)), z3.IntVal(1), False)
    return ret(st, Own(b, None))
@model('usize::div_ceil')
def _(ex, st, fr, c, a):
    x, y = a
    out = []
    for s, t in ex.split(st, y > 0):
        if not t:
            out += unwind(s, 'panic: division by zero')
            continue
        q = s.fresh('quot')
        p = ex.raw('Mul', q, y)
        s.assume(q >= 0, q <= x, p >= x, p - y < x, z3.Implies(x == 0, q == 0))
        out.append((s, 'ret', q))
    return out

# ------------------------------------------------------------------ contracts
class SView:
    def __init__(self, st, ref):
        v = st.store[ref.cell]
        if not isinstance(v, SVec):
            raise Unsupported(f'not a Vec: {v!r}')
        self.n, self.cap, self.block, self.mem, self.live = v.len, v.cap, v.block, st.mem[v.block], st.blocks[v.block].live
        self.size = st.blocks[v.block].size

def setup(v):
    st = v.state()
    aT, sT, n, cap = z3.Ints('alignT sizeT n cap')
    v.ex.talign['T'] = (aT, sT)
    st.assume(pw(aT), sT >= 0, sT <= IMAX, dv(aT, sT), n >= 0, n <= cap, *cap_facts(v.ex, cap))
    b = std.new_block(st, cap, aT, 'vecbuf')
    st.blocks[b] = Block(cap, aT, True, 'T')
    st.store[('vec', 0)] = SVec(n, cap, b)
    ref = Ref(('vec', 0))
    v.ex.small = [n]
    return st, ref, SView(st, ref)

K = lambda m: f'<Vec as UnsizedVecProvider>::{m}'

def same_slots(v, s, w, w1, lo, hi, shift, props, what):
    k = z3.Int(fresh_name('k$'))
    v.check(s, z3.Implies(z3.And(k >= lo, k < hi), w1.mem(k) == w.mem(simp(k - shift))), what, props, extra={'k': [k]})

def ok_vec(v, s, w1, what=''):
    v.check(s, z3.And(z3.BoolVal(w1.live), w1.n >= 0, w1.n <= w1.cap, w1.size == w1.cap), what + 'length within the capacity of a live buffer', ['C03', 'C07'])

def getters():
    def mk(m, f, props):
        def verify(v):
            st, ref, w = setup(v)
            for s, k, r in v.run(st, [ref]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v.check(s, unwrapv(r) == f(v, w), 'result')
        Spec(K(m), props, verify)
    mk('capacity', lambda v, w: w.cap, ['C01', 'C05', 'C06'])
    mk('len', lambda v, w: w.n, ['C01'])
    mk('byte_capacity', lambda v, w: mul(w.cap, v.ex.talign['T'][1]), ['C01', 'C05', 'C06', 'C14'])
    mk('byte_len', lambda v, w: mul(w.n, v.ex.talign['T'][1]), ['C01', 'C14'])
    mk('align', lambda v, w: v.ex.talign['T'][0], ['C03'])
getters()

def get_raw():
    def verify(v):
        st, ref, w = setup(v)
        i = z3.Int('index')
        st.assume(i >= 0, i < w.n)
        for s, k, r in v.run(st, [ref, i]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, And(z3.BoolVal(isinstance(r, Raw) and r.block == w.block), r.off == i), 'address of the element', ['C01', 'C03'])
    Spec(K('get_unchecked_raw'), ['C01', 'C03', 'C10'], verify)
get_raw()

def iters(m):
    def verify(v):
        st, ref, w = setup(v)
        for s, k, r in v.run(st, [ref]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            good = isinstance(r, Agg) and r.name == 'Iter' and r.var == ('mut' if m == 'iter_mut' else 'ref') and isinstance(r.fs[0], Ref) and r.fs[0].cell == ref.cell
            v.check(s, And(z3.BoolVal(good), r.fs[1] == 0, r.fs[2] == w.n) if good else z3.BoolVal(False), 'the iterator of all elements', ['C09'])
    Spec(K(m), ['C09'], verify)
iters('iter')
iters('iter_mut')

def try_reserve(m, exact):
    P = ['C05', 'C02', 'C07']
    def verify(v):
        st, ref, w = setup(v)
        add = z3.Int('additional')
        st.assume(add >= 0, add <= UMAX)
        for s, k, r in v.run(st, [ref, add]):
            if k != 'ret':
                v.fail(s, 'no panic', ['C05', 'C07']); continue
            w1 = SView(s, ref)
            ok_vec(v, s, w1)
            v.check(s, w1.n == w.n, 'length stays', P)
            same_slots(v, s, w, w1, 0, w.n, 0, P, 'the elements stay')
            if r.var == 'Ok':
                v.check(s, z3.And(w1.cap >= w.n + add, w1.cap >= w.cap), 'Ok: room for the requested elements', ['C05', 'C07'])
                v.check(s, z3.Implies(w.cap - w.n >= add, z3.And(w1.cap == w.cap, z3.BoolVal(w1.block == w.block))), 'Ok: nothing to do means nothing changes', ['C05'])
                if exact:
                    v.check(s, z3.Or(w1.cap == w.cap, w1.cap == w.n + add), 'Ok: no more than asked for', ['C05', 'C06'])
            else:
                v.check(s, z3.And(w1.cap == w.cap, z3.BoolVal(w1.block == w.block)), 'Err: nothing changes', ['C05', 'C07'])
    Spec(K(m), ['C05', 'C07'], verify)
try_reserve('try_reserve', False)
try_reserve('try_reserve_exact', True)

def reserve_bytes():
    P = ['C05', 'C02', 'C07']
    def verify(v):
        st, ref, w = setup(v)
        add = z3.Int('additional')
        st.assume(add >= 0, add <= UMAX)
        sT = v.ex.talign['T'][1]
        for s, k, r in v.run(st, [ref, add, UNIT]):
            if k != 'ret':
                v.fail(s, 'no panic', ['C05', 'C07']); continue
            w1 = SView(s, ref)
            ok_vec(v, s, w1)
            v.check(s, z3.And(w1.n == w.n, w1.cap >= w.cap), 'length stays, capacity does not shrink', P)
            same_slots(v, s, w, w1, 0, w.n, 0, P, 'the elements stay')
            if r.var == 'Ok':
                s.assume(mul(w1.cap - w.cap, sT) + mul(w.cap, sT) == mul(w1.cap, sT))
                v.check(s, z3.Or(sT == 0, mul(w1.cap, sT) >= mul(w.cap, sT) + add), 'Ok: that many more bytes are free', ['C05', 'C07'])
                v.check(s, z3.Implies(add == 0, w1.cap == w.cap), 'Ok: nothing to do means nothing changes', ['C05'])
                s.assume(z3.Implies(w1.cap >= 1, mul(w1.cap - 1, sT) + sT == mul(w1.cap, sT)))
                v.check(s, z3.Or(w1.cap == w.cap, sT == 0, mul(w1.cap - 1, sT) < mul(w.cap, sT) + add), 'Ok: no more bytes than asked for, rounded up to whole elements', ['C06'])
            else:
                v.check(s, z3.And(w1.cap == w.cap, z3.BoolVal(w1.block == w.block)), 'Err: nothing changes', ['C05', 'C07'])
    Spec(K('try_reserve_additional_bytes_align'), ['C05', 'C07'], verify)
reserve_bytes()

def imin(a, b): return z3.If(a <= b, a, b)
def imax(a, b): return z3.If(a <= b, b, a)

def shrink(m, bytes_):
    P = ['C06', 'C02']
    def verify(v):
        st, ref, w = setup(v)
        mc, mb = z3.Ints('min_capacity min_byte_capacity')
        st.assume(mc >= 0, mc <= UMAX, mb >= 0, mb <= UMAX)
        sT = v.ex.talign['T'][1]
        for s, k, r in v.run(st, [ref, mc] + ([mb, UNIT] if bytes_ else [])):
            if k != 'ret':
                v.fail(s, 'no panic', ['C06']); continue
            w1 = SView(s, ref)
            ok_vec(v, s, w1)
            v.check(s, z3.And(w1.n == w.n, w1.cap <= w.cap, w1.cap >= imin(w.cap, mc)), 'length stays, capacity does not grow and does not drop below the bound', P)
            same_slots(v, s, w, w1, 0, w.n, 0, P, 'the elements stay')
            if bytes_:
                v.check(s, mul(w1.cap, sT) >= imin(mb, mul(w.cap, sT)), 'byte capacity does not drop below the bound', ['C06'])
                s.assume(z3.Implies(w1.cap >= 1, mul(w1.cap - 1, sT) + sT == mul(w1.cap, sT)))
                v.check(s, z3.Implies(sT > 0, z3.Or(w1.cap == w.cap, w1.cap == w.n, w1.cap == mc, mul(w1.cap - 1, sT) < mb)), 'capacity drops to what is needed', ['C06'])
            else:
                v.check(s, z3.Implies(sT > 0, w1.cap == imin(w.cap, imax(w.n, mc))), 'capacity drops to the larger of the length and the bound', ['C06'])
    Spec(K(m), ['C06'], verify)
shrink('shrink_capacity_to', False)
shrink('shrink_capacity_bytes_align_to', True)

def own(st):
    b = std.new_block(st, z3.IntVal(1), z3.IntVal(1), 'value')
    st.blocks[b] = Block(z3.IntVal(1), z3.IntVal(1), True, 'T')
    return Own(b, None), st.mem[b](z3.IntVal(0))

def inserted(v, s, w, w1, i, val, props, what=''):
    v.check(s, w1.n == w.n + 1, what + 'one element more', props)
    same_slots(v, s, w, w1, 0, i, 0, props, what + 'elements before it stay')
    same_slots(v, s, w, w1, i + 1, w.n + 1, 1, props, what + 'elements behind it move up by one')
    v.check(s, w1.mem(i) == val, what + 'the new element is in its place', props)

def no_drops(v, s, props):
    v.check(s, z3.BoolVal(not any(e[0].startswith('drop') for e in s.events)), 'no element is dropped', props)

def insert_unchecked(m, push):
    def verify(v):
        st, ref, w = setup(v)
        x, val = own(st)
        i = w.n if push else z3.Int('index')
        st.assume(i >= 0, i <= w.n, w.n < w.cap)
        for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [x, UNIT]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            w1 = SView(s, ref)
            inserted(v, s, w, w1, i, val, ['C01', 'C02'])
            ok_vec(v, s, w1)
            v.check(s, z3.And(w1.cap == w.cap, z3.BoolVal(w1.block == w.block)), 'capacity and buffer stay', ['C01', 'C05'])
            no_drops(v, s, ['C04'])
    Spec(K(m), ['C01', 'C02', 'C03', 'C04'], verify)
insert_unchecked('insert_unchecked', False)
insert_unchecked('push_unchecked', True)

def user_panic(st):
    s = st.clone()
    s.cause = 'user'
    return (s, 'unwind', None)

def put(ex, st, p, val, what):
    if not (isinstance(p, Raw) and unit_of(st, p) == 'T'):
        raise Unsupported(f'place {p!r}')
    b = st.blocks[p.block]
    ex.oblige(st, z3.And(z3.BoolVal(b.live), p.off >= 0, p.off < b.size), what + ': inside a live allocation', 'mem')
    old, off = st.mem[p.block], p.off
    st.mem[p.block] = lambda o: z3.If(o == off, val, old(o))

def emplacable(st):
    """Every behaviour of an emplacable of a sized value."""
    def run(ex, s0, args):
        out = [user_panic(s0)]
        a, sz = ex.talign['T']
        val = s0.fresh('newval')
        s0.ghost['new'], s0.ghost['stage'] = val, 'before'
        out[0][0].ghost.update(new=val, stage='before')
        lay = Agg('Layout', (sz, a))
        def inner(ex, s, a):
            ex.oblige(s, z3.BoolVal(s.ghost['stage'] == 'before'), 'the place is written once', 'mem')
            g = s.clone()
            g.ghost['stage'] = 'garbage'
            put(ex, g, a[0], g.fresh('garbage'), 'place handed to the emplacable')
            g.cause = 'user'
            put(ex, s, a[0], val, 'place handed to the emplacable')
            s.ghost['stage'] = 'written'
            return [(g, 'unwind', None), (s, 'ret', UNIT)]
        for s, k, r in ex.call_value(s0, args[0], [lay, UNIT, UserFn('inner', inner)]):
            if k == 'ret':
                ex.oblige(s, z3.BoolVal(s.ghost['stage'] == 'written'), 'the emplacer runs the closure exactly once', 'mem')
                s.ghost['stage'] = 'placed'
                out.append(user_panic(s))
            out.append((s, k, r))
        return out
    return Agg('Emplacable', (UserFn('emp', run),))

def insert_with(m, push):
    def verify(v):
        st, ref, w = setup(v)
        i = w.n if push else z3.Int('index')
        st.assume(i >= 0, i <= w.n)
        for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [emplacable(st)]):
            w1 = SView(s, ref)
            stage = s.ghost.get('stage')
            what = '' if k == 'ret' else f'panic ({s.cause}, {stage}): '
            if stage == 'placed':
                v.check(s, z3.BoolVal(k == 'ret' or s.cause == 'user'), 'no panic of its own', ['C08', 'C01'])
                inserted(v, s, w, w1, i, s.ghost['new'], ['C01', 'C02'] + (['C08'] if k != 'ret' else []), what)
            else:
                v.check(s, z3.BoolVal(k == 'unwind'), 'returns only with the element in place', ['C01'])
                v.check(s, z3.BoolVal((s.cause == 'user' and stage in ('before', 'garbage')) or (s.cause == 'reserve' and stage == 'before')), 'panics only when user code or the reservation does', ['C05', 'C08'])
                P = ['C02', 'C08'] if s.cause == 'user' else ['C02', 'C05']
                v.check(s, w1.n == w.n, what + 'length stays', P)
                same_slots(v, s, w, w1, 0, w.n, 0, P, what + 'the elements stay')
            ok_vec(v, s, w1, what)
            v.check(s, w1.cap >= w.cap, 'capacity does not shrink', ['C05'])
            no_drops(v, s, ['C04', 'C08'])
    Spec(K(m), ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08'], verify)
insert_with('insert_with_unchecked', False)
insert_with('push_with', True)

def consumer(st):
    def run(ex, s0, args):
        lay, m, inner = args
        s0.ghost['taken'] = lay
        out = []
        g = s0.clone()
        g.ghost['stage'] = 'ignored'
        out += [user_panic(g), (g, 'ret', UNIT)]
        d = s0.clone()
        d.ghost['stage'] = 'dropping'
        for s, k, r in ex.call_value(d, inner, [Raw('null', z3.IntVal(0))]):
            if k == 'ret':
                s.ghost['stage'] = 'dropped'
                out.append(user_panic(s))
            out.append((s, k, r))
        b = std.new_block(s0, z3.IntVal(1), z3.IntVal(1), 'dest')
        s0.blocks[b] = Block(z3.IntVal(1), z3.IntVal(1), True, 'T')
        s0.ghost['stage'], s0.ghost['dest'] = 'taking', b
        for s, k, r in ex.call_value(s0, inner, [Raw(b, z3.IntVal(0))]):
            if k == 'ret':
                s.ghost['stage'] = 'taken'
                out.append(user_panic(s))
            out.append((s, k, r))
        return out
    return UserFn('consumer', run)

def remove_into(m, pop):
    def verify(v):
        st, ref, w = setup(v)
        i = simp(w.n - 1) if pop else z3.Int('index')
        st.assume(i >= 0, i < w.n)
        for s, k, r in v.run(st, [ref] + ([] if pop else [i]) + [consumer(st)]):
            w1 = SView(s, ref)
            stage = s.ghost.get('stage')
            if stage is None:
                v.fail(s, 'the emplacer is called'); continue
            what = 'panic: ' if k == 'unwind' else ''
            P = ['C01', 'C02', 'C08'] if k == 'unwind' else ['C01', 'C02']
            if k == 'unwind':
                v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C08', 'C01'])
            v.check(s, w1.n == w.n - 1, what + 'one element less', P + ['C04'])
            same_slots(v, s, w, w1, 0, i, 0, P, what + 'elements before it stay')
            same_slots(v, s, w, w1, i, w.n - 1, -1, P, what + 'elements behind it move down by one')
            v.check(s, z3.And(w1.cap == w.cap, z3.BoolVal(w1.block == w.block)), what + 'capacity and buffer stay', ['C01', 'C06'])
            ok_vec(v, s, w1, what)
            lay = s.ghost['taken']
            a, sz = v.ex.talign['T']
            v.check(s, z3.And(lay.fs[0] == sz, lay.fs[1] == a), 'layout of the removed value', ['C01', 'C03'])
            drops = [e for e in s.events if e[0].startswith('drop')]
            if stage in ('dropped', 'dropping'):
                v.check(s, z3.BoolVal(len(drops) == 1), 'the removed value is dropped once', ['C04'])
                if len(drops) == 1:
                    v.check(s, z3.And(z3.BoolVal(drops[0][1] == w.block), drops[0][2] == i), 'it is the removed value that is dropped', ['C04'])
            else:
                v.check(s, z3.BoolVal(not drops), 'nothing is dropped', ['C04'])
            if stage == 'taken':
                v.check(s, s.mem[s.ghost['dest']](z3.IntVal(0)) == w.mem(i), 'the value is moved out', ['C01', 'C02'])
    Spec(K(m), ['C01', 'C02', 'C03', 'C04', 'C08'], verify)
remove_into('remove_into_unchecked', False)
remove_into('pop_into_unchecked', True)
