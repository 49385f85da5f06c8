"""Contracts of the public type (src/lib.rs) over an abstract provider: the three providers are used through the
contracts proved for them (vecs.py, ops.py, sized.py), the bodies of the wrappers are checked against their own.
Elements are identities; what an element's bytes and metadata do is the provider's contract."""
import re, z3
from logic import *
from values import *
from program import head, parse_callee
from spec import Spec, unwrapv, match
import std
from std import R, RX, rx, model, ret, unwind

FLAVOURS = ('unal', 'ali', 'sized')
P = lambda m: rf'<<\w+ as UnsizedVecImpl>::Impl as UnsizedVecProvider>::{m}$'

class PV:
    """Parts of a provider value."""
    def __init__(self, val):
        if not (isinstance(val, Agg) and val.name == 'Prov'):
            raise Unsupported(f'not a provider: {val!r}')
        self.val = val
        self.vec, self.bc, self.blen, self.al = val.fs
        self.n, self.cap, self.c = self.vec.len, self.vec.cap, self.vec.c
    def new(self, **kw):
        d = dict(n=self.n, cap=self.cap, c=self.c, bc=self.bc, blen=self.blen, al=self.al)
        d.update(kw)
        return mkprov(**d)

def mkprov(n, cap, c, bc, blen, al):
    return Agg('Prov', (VecV(simp(n), cap, c, 'elems'), bc, blen, al))

def flavour(st, ty='T'):
    return st.ghost['flav'][ty]

def prov(ex, st, r):
    return PV(ex.read(st, ex.deref(r)))

def facts(ex, st, p, fl, ty='T'):
    aT, sT = ex.talign[ty]
    out = [p.n >= 0, p.n <= p.cap, p.cap <= UMAX, p.blen >= 0, p.blen <= p.bc, p.bc <= IMAX, pw(p.al)]
    if fl == 'unal':
        out += [dv(p.al, p.bc), dv(p.al, p.blen), dv(p.al, simp(p.bc - p.blen)), p.cap <= IMAX]
    elif fl == 'ali':
        out += [p.al == aT, p.cap <= IMAX]
    else:
        out += [p.al == aT, p.bc == mul(p.cap, sT), p.blen == mul(p.n, sT), z3.Implies(sT == 0, p.cap == UMAX)]
    return out

def setup(v, name='uv', ty='T', fl=None, st=None):
    fl = fl or v.part
    first = st is None
    st = st or v.state()
    sfx = '' if ty == 'T' else ty
    if ty not in v.ex.talign:
        aT, sT = z3.Ints(f'align{ty} size{ty}')
        v.ex.talign[ty] = (aT, sT)
        st.assume(pw(aT), sT >= 0, sT <= IMAX, dv(aT, sT))
    st.ghost['flav'] = {**st.ghost.get('flav', {}), ty: fl}
    st.ghost['drop_agg'] = drop_hook
    n, cap, bc, blen, al = z3.Ints(' '.join(x + name[2:] for x in ('n', 'cap', 'bytecap', 'bytelen', 'align')))
    f = z3.Function('elem' + name[2:], I, I)
    KIND['elem' + name[2:]] = 'k'
    val = mkprov(n, cap, Content(get0=lambda k: f(k)), bc, blen, al)
    st.assume(*facts(v.ex, st, PV(val), fl, ty))
    st.store[(name, 0)] = Agg('UnsizedVec', (val,))
    v.ex.small = list(v.ex.small) + [n]
    return st, Ref((name, 0)), PV(val)

def drop_hook(ex, st, v, loc):
    if v.name == 'Emplacable':
        st.events.append(('drop_emp', v))
        return std.fork_unwind(ex, st)
    return None

def view(s, ref):
    v = s.store[ref.cell] if isinstance(ref, Ref) else ref
    if not (isinstance(v, Agg) and v.name == 'UnsizedVec'):
        raise Unsupported(f'not an UnsizedVec: {v!r}')
    return PV(v.fs[0])

# ------------------------------------------------------------------ contracts of the provider, as callers see them
def prx(m):
    return rx(P(m))

@prx('(len|capacity|byte_len|byte_capacity|align)')
def _(ex, st, fr, c, a):
    p = prov(ex, st, a[0])
    return ret(st, dict(len=p.n, capacity=p.cap, byte_len=p.blen, byte_capacity=p.bc, align=p.al)[c.method])

def tparam(c):
    m = re.match(r'<(\w+) as', c.self_ty)
    return m.group(1) if m else 'T'

def put(ex, st, r, val):
    ex.write(st, ex.deref(r), val)

def grown(ex, s, r, p, fl, ncap=None, bc=None, blen=None, al=None, ty='T'):
    q = p.new(cap=p.cap if ncap is None else ncap, bc=p.bc if bc is None else bc, blen=p.blen if blen is None else blen, al=p.al if al is None else al)
    put(ex, s, r, q)
    q = PV(q)
    s.assume(*facts(ex, s, q, fl, ty))
    return q

@prx('(try_reserve|try_reserve_exact)')
def _(ex, st, fr, c, a):
    p, add, fl = prov(ex, st, a[0]), a[1], flavour(st, tparam(c))
    out = []
    for s, t in ex.split(st, p.cap - p.n >= add):
        if t:
            out.append((s, 'ret', ok(UNIT))); continue
        e = s.clone()
        out.append((e, 'ret', err(Opaque('TryReserveError'))))
        nc = s.fresh('newcap')
        s.assume(nc == p.n + add if c.method.endswith('exact') else nc >= p.n + add, nc >= p.cap)
        bc = s.fresh('newbytecap') if fl == 'sized' else None
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        q = grown(ex, s, a[0], p, fl, ncap=nc, bc=bc)
        if fl == 'sized':
            s.assume(q.bc >= p.bc)
        out.append((s, 'ret', ok(UNIT)))
    return out

@prx('try_reserve_additional_bytes_align')
def _(ex, st, fr, c, a):
    p, add, fl = prov(ex, st, a[0]), a[1], flavour(st, tparam(c))
    sT = ex.talign[tparam(c)][1]
    al = unwrapv(a[2]) if fl == 'unal' else None
    noop = {'unal': lambda: z3.And(add == 0, al <= p.al), 'ali': lambda: add == 0, 'sized': lambda: z3.Or(add == 0, sT == 0)}[fl]()
    out = []
    for s, t in ex.split(st, noop):
        if t:
            out.append((s, 'ret', ok(UNIT))); continue
        e = s.clone()
        out.append((e, 'ret', err(Opaque('TryReserveError'))))
        bc = s.fresh('newbytecap')
        if fl == 'unal':
            na, bl = s.fresh('newalign'), s.fresh('newbytelen')
            s.assume(na == z3.If(al > p.al, al, p.al), pw(na), bl >= p.blen, z3.Implies(na == p.al, bl == p.blen))
            most = bl + (p.bc - p.blen) + add
            s.assume(bc >= p.bc, bc >= most, z3.If(na > p.al, bc <= most + 2 * (na - 1), bc <= pad(most, na)))
            grown(ex, s, a[0], p, fl, bc=bc, blen=bl, al=na)
        elif fl == 'ali':
            s.assume(bc == p.bc + add)
            grown(ex, s, a[0], p, fl, bc=bc)
        else:
            nc = s.fresh('newcap')
            s.assume(nc >= p.cap, bc >= p.bc + add, mul(nc - 1, sT) + sT == mul(nc, sT), mul(nc - 1, sT) < p.bc + add)
            grown(ex, s, a[0], p, fl, ncap=nc, bc=bc)
        out.append((s, 'ret', ok(UNIT)))
    return out

def imin(a, b): return z3.If(a <= b, a, b)
def imax(a, b): return z3.If(a <= b, b, a)

@prx('shrink_capacity_to')
def _(ex, st, fr, c, a):
    p, m, fl = prov(ex, st, a[0]), a[1], flavour(st, tparam(c))
    sT = ex.talign[tparam(c)][1]
    nc = st.fresh('newcap')
    want = imin(p.cap, imax(p.n, m))
    st.assume(z3.If(sT == 0, nc == p.cap, nc == want) if fl == 'sized' else nc == want)
    bc = st.fresh('newbytecap') if fl == 'sized' else None
    q = grown(ex, st, a[0], p, fl, ncap=nc, bc=bc)
    return ret(st)

@prx('shrink_capacity_bytes_align_to')
def _(ex, st, fr, c, a):
    p, m, mb, fl = prov(ex, st, a[0]), a[1], a[2], flavour(st, tparam(c))
    sT = ex.talign[tparam(c)][1]
    out = []
    nc, bc = st.fresh('newcap'), st.fresh('newbytecap')
    st.assume(bc <= p.bc, bc >= imin(mb, p.bc))
    if fl == 'sized':
        st.assume(nc <= p.cap, nc >= imin(p.cap, m))
        st.ghost['shrunk'] = z3.BoolVal(True)
        st.assume(z3.Implies(sT > 0, z3.Or(nc == p.cap, nc == p.n, nc == m, mul(nc - 1, sT) < mb)))
        grown(ex, st, a[0], p, fl, ncap=nc, bc=bc)
        return ret(st)
    st.assume(nc == imin(p.cap, imax(p.n, m)))
    if fl == 'ali':
        # refused by the allocator, or at the bound
        st.assume(z3.Or(bc == p.bc, bc == imin(p.bc, imax(p.blen, mb))))
        grown(ex, st, a[0], p, fl, ncap=nc, bc=bc)
    else:
        ma = unwrapv(a[3])
        na, bl = st.fresh('newalign'), st.fresh('newbytelen')
        need = st.ghost['need_align']        # largest align of the present elements
        st.assume(na <= p.al, z3.Or(na >= ma, na == p.al), na >= need, pw(na), z3.Implies(na == p.al, bl == p.blen), bl <= p.blen)
        st.assume(z3.Or(z3.And(bc == p.bc, na == p.al), z3.And(na == imin(p.al, imax(need, ma)), bc == imax(pad(imin(mb, p.bc), na), bl))))
        grown(ex, st, a[0], p, fl, ncap=nc, bc=bc, blen=bl, al=na)
    return ret(st)

def inserted_content(oc, i, x):
    return Content(get0=lambda k: z3.If(simp(k) == i, x, z3.If(simp(k) < i, oc.get(k), oc.get(simp(k - 1)))))
def removed_content(oc, i):
    return Content(get0=lambda k: z3.If(simp(k) < i, oc.get(k), oc.get(simp(k + 1))))

def elem_id(st, own):
    if isinstance(own, Own):
        return st.ghost[('id', own.block)]
    raise Unsupported(f'not an element: {own!r}')

@prx('(insert_unchecked|push_unchecked)')
def _(ex, st, fr, c, a):
    p, fl = prov(ex, st, a[0]), flavour(st, tparam(c))
    push = c.method == 'push_unchecked'
    i, x, size = (p.n, a[1], a[2]) if push else (a[1], a[2], a[3])
    m = x.meta
    ex.oblige(st, z3.And(i >= 0, i <= p.n), f'{c.method}: index in range', 'mem')
    ex.oblige(st, p.n < p.cap, f'{c.method}: room for one more element', 'mem')
    bl = st.fresh('newbytelen')
    if fl == 'sized':
        st.assume(bl == p.blen + ex.talign['T'][1])
    else:
        ex.oblige(st, unwrapv(size.fs[0]) == SZ(m), f'{c.method}: size of the value', 'mem')
        need = pad(SZ(m), p.al) if fl == 'unal' else SZ(m)
        ex.oblige(st, p.bc - p.blen >= need, f'{c.method}: room for the bytes', 'mem')
        if fl == 'unal':
            ex.oblige(st, AL(m) <= p.al, f'{c.method}: align of the value', 'mem')
        bl = simp(p.blen + need)
    if fl == 'sized':
        q = p.new(n=p.n + 1, c=p.c.set(p.n, elem_id(st, x)) if push else inserted_content(p.c, i, elem_id(st, x)), blen=bl)
        st.assume(bl == mul(simp(p.n + 1), ex.talign['T'][1]))
    else:
        q = p.new(n=p.n + 1, c=p.c.set(p.n, elem_id(st, x)) if push else inserted_content(p.c, i, elem_id(st, x)), blen=bl)
    put(ex, st, a[0], q)
    st.events.append(('moved', x.block))
    return ret(st)

def adding(ex, s, r, p, fl, i, x, ty='T', push=False):
    """State after an addition that reserves for itself."""
    nc, bc, bl, al = s.fresh('newcap'), s.fresh('newbytecap'), s.fresh('newbytelen'), s.fresh('newalign')
    s.assume(nc >= p.cap, bc >= p.bc, al >= p.al)
    q = p.new(n=p.n + 1 if x is not None else p.n, c=p.c if x is None else p.c.set(p.n, x) if push else inserted_content(p.c, i, x), cap=nc, bc=bc, blen=bl, al=al)
    put(ex, s, r, q)
    s.assume(*facts(ex, s, PV(q), fl, ty))

@prx('(insert_with_unchecked|push_with)')
def _(ex, st, fr, c, a):
    p, fl = prov(ex, st, a[0]), flavour(st, tparam(c))
    push = c.method == 'push_with'
    i, x = (p.n, a[1]) if push else (a[1], a[2])
    ex.oblige(st, z3.And(i >= 0, i <= p.n), f'{c.method}: index in range', 'mem')
    e = st.ghost[('emp', x.fs[0].name)] if isinstance(x.fs[0], UserFn) and ('emp', x.fs[0].name) in st.ghost else None
    if e is None:
        e = emp_id(ex, st, x)
    st.events.append(('used', x.fs[0]))
    out = []
    for stage in ('before', 'reserve', 'placed', 'ret'):
        s = st.clone()
        adding(ex, s, a[0], p, fl, i, e if stage in ('placed', 'ret') else None, push=push)
        s.ghost['stage'] = stage
        if stage == 'ret':
            out.append((s, 'ret', UNIT))
        else:
            s.cause = 'reserve' if stage == 'reserve' else 'user'
            out.append((s, 'unwind', None))
    return out

def emp_id(ex, st, x):
    h = x.fs[0]
    if isinstance(h, UserFn) and h.data and 'id' in h.data:
        return h.data['id']
    raise Unsupported(f'emplacable {x!r}')

@prx('(remove_into_unchecked|pop_into_unchecked)')
def _(ex, st, fr, c, a):
    p, fl = prov(ex, st, a[0]), flavour(st, tparam(c))
    pop = c.method == 'pop_into_unchecked'
    i, em = (simp(p.n - 1), a[1]) if pop else (a[1], a[2])
    ex.oblige(st, z3.And(i >= 0, i < p.n), f'{c.method}: index in range', 'mem')
    bl = st.fresh('newbytelen')
    q = p.new(n=p.n - 1, c=removed_content(p.c, i), blen=bl)
    st.assume(bl <= p.blen)
    put(ex, st, a[0], q)
    st.assume(*facts(ex, st, PV(q), fl))
    st.events.append(('taken', p.c.get(i), em))
    return std.fork_unwind(ex, st)

def elem_ref(p, i):
    return Agg('ElemRef', (p.c.get(i), i))

@prx('get_unchecked_raw')
def _(ex, st, fr, c, a):
    p = prov(ex, st, a[0])
    ex.oblige(st, z3.And(a[1] >= 0, a[1] < p.n), 'get_unchecked_raw: index in range', 'mem')
    return ret(st, elem_ref(p, a[1]))
_o = {k: R[k] for k in ('NonNull::as_ref', 'NonNull::as_mut')}
def _nn(k):
    def g(ex, st, fr, c, a):
        if isinstance(a[0], Ref):
            x = ex.read(st, ex.deref(a[0]))
            if isinstance(x, Agg) and x.name == 'ElemRef':
                return ret(st, x)
        return _o[k](ex, st, fr, c, a)
    g.label = k
    R[k] = g
for k in _o:
    _nn(k)

@prx('iter(_mut)?')
def _(ex, st, fr, c, a):
    p = prov(ex, st, a[0])
    return ret(st, Agg('PIter', (p.vec, z3.IntVal(0), p.n), 'mut' if c.method == 'iter_mut' else 'ref'))

@prx('from_sized')
def _(ex, st, fr, c, a):
    """Err-free conversion; panics only when the element table cannot be allocated."""
    p = PV(a[0])
    ty = tparam(c)
    fl = flavour(st, ty)
    s2 = st.clone()
    s2.cause = 'reserve'
    nc = st.fresh('newcap')
    if fl == 'sized':
        raise Unsupported('from_sized of a sized target')
    q = p.new(cap=nc)
    st.ghost['from_sized'] = p.val
    st.assume(*facts(ex, st, PV(q), fl, ty))
    return [(st, 'ret', q), (s2, 'unwind', None)]

SZP = r'<<<\w+ as UnsizedVecImpl>::Impl as UnsizedVecProvider>::Size as Size>::'
@rx(SZP + 'of_val$')
def _(ex, st, fr, c, a):
    m = std.user_meta(ex, st, a[0])
    if flavour(st) == 'sized':
        return ret(st, UNIT)
    return ret(st, Agg('PSize', (SZ(m),)))
@rx(SZP + 'get$')
def _(ex, st, fr, c, a):
    if flavour(st) == 'sized':
        return ret(st, ex.talign['T'][1])
    return ret(st, a[0].fs[0])
@rx(r'<<<\w+ as UnsizedVecImpl>::Impl as UnsizedVecProvider>::Align as Align>::new$')
def _(ex, st, fr, c, a):
    if flavour(st) != 'unal':
        return ret(st, some(UNIT))
    return [(s, 'ret', some(va(a[0])) if t else NONE) for s, t in ex.split(st, pw(a[0]))]

def start_align(st, ty, name):
    """Align of the empty vector constants."""
    return z3.IntVal(1 if name == 'NEW_ALIGN_1' else 8)

_const = std.Models.const
def const(self, ex, st, fr, t):
    m = re.search(r'UnsizedVecProvider(?:<\w+>)?>?::(NEW_ALIGN_1|NEW_ALIGN_PTR)$', t)
    if m and 'flav' in st.ghost:
        k = re.search(r'<(\w+) as', t)
        ty = k.group(1) if k else 'T'
        fl = flavour(st, ty)
        aT, sT = ex.talign[ty]
        cap = z3.If(sT == 0, z3.IntVal(UMAX), z3.IntVal(0)) if fl == 'sized' else z3.IntVal(0)
        f = z3.Function('noelem', I, I)
        if fl == 'sized':
            cap0 = st.fresh('emptycap')
            st.assume(cap0 == cap, mul(cap0, sT) == 0, mul(z3.IntVal(0), sT) == 0)
            cap = cap0
        p = mkprov(z3.IntVal(0), cap, Content(get0=lambda k: f(k)), z3.IntVal(0), z3.IntVal(0), start_align(st, ty, m.group(1)) if fl == 'unal' else aT)
        return p
    return _const(self, ex, st, fr, t)
std.Models.const = const

# ------------------------------------------------------------------ iterators of the provider
def pit_next(ex, st, loc, back=False):
    it = ex.read(st, loc)
    vec, lo, hi = it.fs
    out = []
    for s, t in ex.split(st, lo < hi):
        if not t:
            out.append((s, 'ret', NONE)); continue
        i = simp(hi - 1) if back else lo
        ex.write(s, loc, it.with_(2, i) if back else it.with_(1, simp(lo + 1)))
        out.append((s, 'ret', some(Agg('ElemRef', (vec.c.get(i), i)))))
    return out

IT = r'<(?:<<\w+ as UnsizedVecImpl>::Impl as UnsizedVecProvider>::Iter(?:Mut)?|PIter) as \w+>::'
@rx(IT + 'next$')
def _(ex, st, fr, c, a): return pit_next(ex, st, ex.deref(a[0]))
@rx(IT + 'next_back$')
def _(ex, st, fr, c, a): return pit_next(ex, st, ex.deref(a[0]), True)
@rx(IT + '(nth|nth_back)$')
def _(ex, st, fr, c, a):
    loc = ex.deref(a[0])
    it = ex.read(st, loc)
    vec, lo, hi = it.fs
    n, out = a[1], []
    back = c.method == 'nth_back'
    for s, t in ex.split(st, n < hi - lo):
        i = simp(hi - 1 - n) if back else simp(lo + n)
        if t:
            ex.write(s, loc, it.with_(2, i) if back else it.with_(1, simp(i + 1)))
            out.append((s, 'ret', some(Agg('ElemRef', (vec.c.get(i), i)))))
        else:
            # nothing is left afterwards
            x = s.fresh('emptied')
            s.assume(x >= lo, x <= hi)
            ex.write(s, loc, it.with_(1, x).with_(2, x))
            out.append((s, 'ret', NONE))
    return out
def itval(ex, st, x):
    return x if isinstance(x, Agg) else std.deref1(ex, st, x)
@rx(IT + 'size_hint$')
def _(ex, st, fr, c, a):
    it = itval(ex, st, a[0])
    n = simp(it.fs[2] - it.fs[1])
    return ret(st, tup(n, some(n)))
@rx(IT + '(count|len)$')
def _(ex, st, fr, c, a):
    it = itval(ex, st, a[0])
    return ret(st, simp(it.fs[2] - it.fs[1]))
@rx(IT + 'last$')
def _(ex, st, fr, c, a):
    vec, lo, hi = itval(ex, st, a[0]).fs
    i = simp(hi - 1)
    return [(s, 'ret', some(Agg('ElemRef', (vec.c.get(i), i))) if t else NONE) for s, t in ex.split(st, lo < hi)]
RX.sort(key=lambda x: 0 if x[1].__module__ == __name__ else 1)

# ------------------------------------------------------------------ checks
def same_elems(v, s, p, q, lo, hi, shift, props, what):
    k = z3.Int(fresh_name('k$'))
    v.check(s, z3.Implies(z3.And(k >= lo, k < hi), q.c.get(k) == p.c.get(simp(k - shift))), what, props, extra={'k': [k]})

def kept(v, s, p, q, props, what):
    v.check(s, q.n == p.n, what + 'length stays', props)
    if q.c is not p.c:
        same_elems(v, s, p, q, 0, p.n, 0, props, what + 'the elements stay')

def frozen(v, s, p, q, props, what):
    kept(v, s, p, q, props, what)
    v.check(s, And(q.cap == p.cap, q.bc == p.bc, q.al == p.al, q.blen == p.blen), what + 'nothing changes', props)

def no_drop(v, s, props):
    v.check(s, z3.BoolVal(not any(e[0].startswith('drop') for e in s.events)), 'nothing is dropped', props)

def UV(m): return f'UnsizedVec::{m}'

def simple(m, f, props, args=(), pre=None):
    """Observers: result as stated, nothing changes."""
    def verify(v):
        st, ref, p = setup(v)
        xs = [z3.Int(a) for a in args]
        st.assume(*[z3.And(x >= 0, x <= UMAX) for x in xs])
        if pre:
            st.assume(pre(p, *xs))
        for s, k, r in v.run(st, [ref] + xs):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            q = view(s, ref)
            v.check(s, z3.BoolVal(same(q.val, p.val)), 'the vector is not changed')
            f(v, s, p, r, *xs)
    Spec(m if '::' in m else UV(m), props, verify, parts=FLAVOURS)

def value(g):
    def f(v, s, p, r, *xs):
        v.check(s, r == g(p, *xs) if is_z(r) else z3.BoolVal(False), 'result')
    return f
simple('len', value(lambda p: p.n), ['C01'])
simple('capacity', value(lambda p: p.cap), ['C05', 'C06'])
simple('byte_len', value(lambda p: p.blen), ['C01', 'C14'])
simple('byte_capacity', value(lambda p: p.bc), ['C05', 'C06', 'C14'])
simple('align', value(lambda p: p.al), ['C03', 'C05', 'C06'])
simple('is_empty', value(lambda p: p.n == 0), ['C01'])
simple('unused_byte_cap', value(lambda p: p.bc - p.blen), ['C05', 'C14'])

def is_elem(v, s, p, r, i, props=None, what='the element at the index'):
    if not (isinstance(r, Agg) and r.name == 'ElemRef'):
        v.fail(s, what, props); return
    v.check(s, And(r.fs[1] == i, r.fs[0] == p.c.get(i)), what, props)

def _get(v, s, p, r, i):
    if r.var == 'None':
        v.check(s, i >= p.n, 'None only out of range')
    else:
        v.check(s, i < p.n, 'Some only in range')
        is_elem(v, s, p, r.fs[0], i)
simple('get', _get, ['C01', 'C03'], args=('index',))
simple('get_mut', _get, ['C01', 'C03'], args=('index',))
simple('get_unchecked', lambda v, s, p, r, i: is_elem(v, s, p, r, i), ['C01', 'C03'], args=('index',), pre=lambda p, i: i < p.n)
simple('get_unchecked_mut', lambda v, s, p, r, i: is_elem(v, s, p, r, i), ['C01', 'C03'], args=('index',), pre=lambda p, i: i < p.n)

def index(key):
    def verify(v):
        st, ref, p = setup(v)
        i = z3.Int('index')
        st.assume(i >= 0, i <= UMAX)
        for s, k, r in v.run(st, [ref, i]):
            v.check(s, z3.BoolVal(same(view(s, ref).val, p.val)), 'the vector is not changed')
            if k == 'ret':
                v.check(s, i < p.n, 'returns only in range')
                is_elem(v, s, p, r, i)
            else:
                v.check(s, i >= p.n, 'panics only out of range')
    Spec(key, ['C01', 'C03'], verify, parts=FLAVOURS)
index('<UnsizedVec as Index>::index')
index('<UnsizedVec as IndexMut>::index_mut')

def mk_iter(key, mut):
    def verify(v):
        st, ref, p = setup(v)
        for s, k, r in v.run(st, [ref]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            good = isinstance(r, Agg) and r.name == ('UnsizedIterMut' if mut else 'UnsizedIter') and isinstance(r.fs[0], Agg) and r.fs[0].name == 'PIter'
            v.check(s, And(r.fs[0].fs[1] == 0, r.fs[0].fs[2] == p.n, z3.BoolVal(r.fs[0].fs[0].c is p.c)) if good else z3.BoolVal(False), 'an iterator of all elements')
    Spec(key, ['C09'], verify, parts=FLAVOURS)
mk_iter(UV('iter'), False)
mk_iter(UV('iter_mut'), True)
mk_iter('<&UnsizedVec as IntoIterator>::into_iter', False)
mk_iter('<&mut UnsizedVec as IntoIterator>::into_iter', True)

# ------------------------------------------------------------------ construction
def new(key, args):
    def verify(v):
        st, _, _ = setup(v)
        xs = [z3.Int(a) for a in args]
        st.assume(*[z3.And(x >= 0, x <= UMAX) for x in xs])
        for s, k, r in v.run(st, xs):
            al = xs[2] if len(xs) > 2 else None
            if k != 'ret':
                good = z3.BoolVal(s.cause == 'reserve' and len(xs) > 0)
                if al is not None and v.part == 'unal':
                    good = z3.Or(good, z3.Not(pw(al)))
                v.check(s, good, 'panics only when memory runs out' + (' or the align is invalid' if al is not None else ''), ['C05', 'C07'])
                continue
            q = view(s, r)
            v.check(s, q.n == 0, 'empty', ['C01'])
            v.check(s, And(*facts(v.ex, s, q, v.part)), 'well-formed', ['C03', 'C05'])
            if not xs:
                v.check(s, And(q.bc == 0, *([q.cap == 0] if v.part != 'sized' else [])), 'nothing is allocated', ['C05'])
                if v.part == 'unal':
                    v.check(s, q.al == 8, 'starting align', ['C05', 'C06'])
            if xs:
                v.check(s, q.cap >= xs[0], 'capacity as asked for', ['C05'])
                if v.part != 'sized':
                    v.check(s, q.cap == xs[0], 'no more capacity than asked for', ['C06'])
            if len(xs) > 1:
                sT = v.ex.talign['T'][1]
                v.check(s, z3.Or(q.bc >= xs[1], sT == 0) if v.part == 'sized' else q.bc >= xs[1], 'byte capacity as asked for', ['C05'])
            if al is not None and v.part == 'unal':
                v.check(s, And(q.al >= al, pw(al)), 'align as asked for', ['C05'])
    Spec(key, ['C05', 'C01'], verify, parts=FLAVOURS)
new(UV('new'), ())
new('<UnsizedVec as Default>::default', ())
new(UV('with_capacity'), ('capacity',))
new(UV('with_capacity_bytes'), ('capacity', 'byte_capacity'))
new(UV('with_capacity_bytes_align'), ('capacity', 'byte_capacity', 'align'))

# ------------------------------------------------------------------ reservation
def reserve(m, nargs, tries, exact):
    names = ('additional', 'additional_bytes', 'min_align')[:nargs]
    def verify(v):
        st, ref, p = setup(v)
        xs = [z3.Int(a) for a in names]
        st.assume(*[z3.And(x >= 0, x <= UMAX) for x in xs])
        sT = v.ex.talign['T'][1]
        add = xs[0]
        b = xs[1] if nargs > 1 else z3.IntVal(0)
        al = xs[2] if nargs > 2 else z3.IntVal(1)
        fl = v.part
        for s, k, r in v.run(st, [ref] + xs):
            q = view(s, ref)
            kept(v, s, p, q, ['C02', 'C05', 'C07'], '')
            v.check(s, And(q.cap >= p.cap, q.bc >= p.bc, q.al >= p.al), 'no capacity is reduced', ['C05', 'C07'])
            v.check(s, And(*facts(v.ex, s, q, fl)), 'well-formed', ['C03', 'C05', 'C07'])
            no_drop(v, s, ['C04'])
            bad_align = z3.Not(pw(al)) if nargs > 2 and fl == 'unal' else z3.BoolVal(False)
            if k != 'ret':
                v.check(s, z3.Or(z3.BoolVal(s.cause == 'reserve' and not tries), bad_align), 'panics only as documented', ['C05', 'C07'])
                continue
            if tries and r.var == 'Err':
                v.check(s, And(q.bc == p.bc if fl != 'sized' else T1, q.al == p.al), 'Err: bytes and align stay', ['C07', 'C05'])
                v.check(s, z3.Or(p.cap - p.n < add, p.bc - p.blen < b, p.al < al), 'Err: only when there was something to reserve', ['C05'])
                continue
            v.check(s, q.cap >= p.n + add, 'room for the elements', ['C05', 'C07'])
            v.check(s, z3.Or(q.bc - q.blen >= b, *([sT == 0] if fl == 'sized' else [])), 'room for the bytes', ['C05', 'C07'])
            if fl == 'unal':
                v.check(s, q.al >= al, 'align as asked for', ['C05', 'C03'])
                v.check(s, z3.Or(q.al == p.al, q.al == al), 'align no more than asked for', ['C06'])
            enough = [p.cap - p.n >= add, p.bc - p.blen >= b] + ([p.al >= al] if fl == 'unal' else [])
            v.check(s, z3.Implies(z3.And(*enough), And(q.cap == p.cap, q.bc == p.bc, q.al == p.al, q.blen == p.blen)), 'already there: nothing changes', ['C05'])
            if exact:
                if fl != 'sized':
                    v.check(s, z3.Or(q.cap == p.cap, q.cap == p.n + add), 'no more elements than asked for', ['C06'])
                    most = q.blen + imax(p.bc - p.blen, b)
                    v.check(s, z3.If(q.al > p.al, q.bc <= most + 2 * (q.al - 1), q.bc <= pad(most, q.al)) if fl == 'unal' else q.bc <= most, 'no more bytes than asked for', ['C06'])
                else:
                    v.check(s, z3.Or(q.cap == p.cap, q.cap == p.n + add, mul(q.cap - 1, sT) < p.blen + b), 'no more than asked for, in whole elements', ['C06'])
    Spec(UV(m), ['C05', 'C07'], verify, parts=FLAVOURS)
T1 = z3.BoolVal(True)
for t in ('', 'try_'):
    for e in ('', '_exact'):
        b = f'{t}reserve{e}'
        reserve(b, 1, bool(t), bool(e))
        reserve(b + '_capacity_bytes', 2, bool(t), bool(e))
        reserve(b + '_capacity_bytes_align', 3, bool(t), bool(e))

# ------------------------------------------------------------------ shrinking
def shrink(m, names, mins):
    """mins(args) -> (minimal capacity, minimal bytes, minimal align); None: that capacity is not touched."""
    def verify(v):
        st, ref, p = setup(v)
        xs = [z3.Int(a) for a in names]
        st.assume(*[z3.And(x >= 0, x <= UMAX) for x in xs])
        sT = v.ex.talign['T'][1]
        fl = v.part
        need = z3.Int('need')
        st.assume(pw(need), need <= p.al, z3.Implies(p.n == 0, need == 1))
        st.ghost['need_align'] = need
        mc, mb, ma = mins(*xs)
        for s, k, r in v.run(st, [ref] + xs):
            q = view(s, ref)
            kept(v, s, p, q, ['C02', 'C06'], '')
            no_drop(v, s, ['C04'])
            if k != 'ret':
                v.check(s, z3.Not(pw(ma)) if is_z(ma) and not is_const_int(ma) and fl == 'unal' else z3.BoolVal(False), 'panics only on an invalid align', ['C06'])
                frozen(v, s, p, q, ['C06'], 'panic: ')
                continue
            v.check(s, And(*facts(v.ex, s, q, fl)), 'well-formed', ['C03', 'C06'])
            v.check(s, And(q.cap <= p.cap, q.bc <= p.bc, q.al <= p.al), 'no capacity grows', ['C06'])
            v.check(s, q.cap >= imin(p.cap, mc), 'capacity not below the bound', ['C06'])
            if fl != 'sized':
                v.check(s, q.cap == imin(p.cap, imax(p.n, mc)), 'capacity at the bound', ['C06'])
            if mb is None:
                if fl != 'sized':
                    v.check(s, And(q.bc == p.bc, q.al == p.al), 'bytes and align stay', ['C06'])
                else:
                    v.check(s, z3.Implies(sT > 0, q.cap == imin(p.cap, imax(p.n, mc))), 'capacity at the bound', ['C06'])
                continue
            v.check(s, q.bc >= imin(p.bc, mb), 'byte capacity not below the bound', ['C06'])
            if fl == 'unal':
                if ma is None:
                    v.check(s, q.al == p.al, 'align stays', ['C06'])
                else:
                    v.check(s, q.al >= imin(p.al, ma), 'align not below the bound', ['C06'])
                tgt = p.al if ma is None else imin(p.al, imax(need, ma))
                v.check(s, z3.Or(z3.And(q.bc == p.bc, q.al == p.al), z3.And(q.al == tgt, q.bc == imax(pad(imin(mb, p.bc), q.al), q.blen))), 'bytes and align at the bounds (or refused)', ['C06'])
            elif fl == 'ali':
                v.check(s, z3.Or(q.bc == p.bc, q.bc == imin(p.bc, imax(p.blen, mb))), 'bytes at the bound (or refused)', ['C06'])
            else:
                v.check(s, z3.Implies(sT > 0, z3.Or(q.cap == p.cap, q.cap == p.n, q.cap == mc, mul(q.cap - 1, sT) < mb)), 'capacity at the bounds', ['C06'])
    Spec(UV(m), ['C06'], verify, parts=FLAVOURS)
Z0 = z3.IntVal(0)
shrink('shrink_to_fit', (), lambda: (Z0, Z0, z3.IntVal(1)))
shrink('shrink_to', ('min_capacity',), lambda c: (c, None, None))
shrink('shrink_capacity_bytes_to', ('min_capacity', 'min_byte_capacity'), lambda c, b: (c, b, None))
shrink('shrink_capacity_bytes_align_to', ('min_capacity', 'min_byte_capacity', 'min_align'), lambda c, b, a: (c, b, a))

# ------------------------------------------------------------------ adding
def own_value(v, st):
    m = z3.Const('newmeta', Meta)
    std.meta_facts(None, st, m)
    aT, sT = v.ex.talign['T']
    if v.part == 'ali':
        st.assume(AL(m) == aT)
    if v.part == 'sized':
        st.assume(AL(m) == aT, SZ(m) == sT)
    b = std.new_block(st, SZ(m), AL(m), 'value')
    x = z3.Int('new')
    st.ghost[('id', b)] = x
    return Own(b, m), m, x

def was_inserted(v, s, p, q, i, x, props, what=''):
    v.check(s, q.n == p.n + 1, what + 'one element more', props)
    same_elems(v, s, p, q, 0, i, 0, props, what + 'elements before it stay')
    same_elems(v, s, p, q, i + 1, p.n + 1, 1, props, what + 'elements behind it move up by one')
    v.check(s, q.c.get(i) == x, what + 'the new element is in its place', props)

def inner(r):
    return Ref(r.cell, r.path + (('f', 0),))

def vec_ty(c):
    m = re.match(r'(?:[\w:]*::)?UnsizedVec::<(\w+)>', c.text)
    return m.group(1) if m else 'T'

def insert(key, push, before=None, parts=FLAVOURS, extra=()):
    def verify(v):
        st, ref, p = setup(v)
        own, m, x = own_value(v, st)
        if before:
            before(v, st, own, m)
        i = p.n if push else z3.Int('index')
        st.assume(i >= 0, i <= UMAX)
        for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [own]):
            q = view(s, ref)
            drops = [e for e in s.events if e[0] == 'drop']
            moved = [e for e in s.events if e[0] == 'moved']
            v.check(s, And(q.cap >= p.cap, q.bc >= p.bc, q.al >= p.al), 'no capacity is reduced', ['C05'])
            if k == 'ret':
                v.check(s, i <= p.n, 'returns only for an index in range', ['C01'])
                was_inserted(v, s, p, q, i, x, ['C01', *extra])
                v.check(s, z3.BoolVal(not drops and len(moved) == 1), 'the value is moved in, once', ['C04', 'C01', *extra])
                for g in facts(v.ex, s, q, v.part):
                    v.check(s, g, 'well-formed', ['C01', 'C03'])
                if v.part != 'sized':
                    size = pad(SZ(m), p.al) if v.part == 'unal' else SZ(m)
                    fits = z3.And(p.n < p.cap, p.bc - p.blen >= size, AL(m) <= p.al)
                else:
                    fits = p.n < p.cap
                v.check(s, z3.Implies(fits, And(q.cap == p.cap, q.bc == p.bc, q.al == p.al)), 'no reallocation when it fits', ['C05'])
            else:
                v.check(s, z3.Or(i > p.n, z3.BoolVal(s.cause == 'reserve')), 'panics only out of range or out of memory', ['C01', 'C05'])
                kept(v, s, p, q, ['C01', 'C08'], 'panic: ')
                v.check(s, z3.BoolVal(len(drops) == 1 and s.ghost.get(('id', drops[0][1])) is x and not moved), 'panic: the value is dropped, once', ['C04', *extra])
                v.check(s, z3.Implies(i > p.n, And(q.cap == p.cap, q.bc == p.bc, q.al == p.al)), 'out of range: nothing changes', ['C01'])
    def apply_fn(ex, st, fr, c, a):
        r, x = inner(a[0]), a[-1]
        p, fl = prov(ex, st, r), flavour(st, vec_ty(c))
        i = p.n if push else a[1]
        out = []
        for s, t in [(st, True)] if push else ex.split(st, i <= p.n):
            s2 = s.clone()
            s2.events.append(('drop', x.block))
            if t:
                s2.cause = 'reserve'
                adding(ex, s2, r, p, fl, i, None, push=push)
                adding(ex, s, r, p, fl, i, elem_id(s, x), push=push)
                if isinstance(x, Own) and x.meta is not None:
                    q, al = prov(ex, s, r), p.al
                    size = pad(SZ(x.meta), al) if fl == 'unal' else SZ(x.meta)
                    fits = p.n < p.cap if fl == 'sized' else z3.And(p.n < p.cap, p.bc - p.blen >= size, AL(x.meta) <= al)
                    s.assume(z3.Implies(fits, And(q.cap == p.cap, q.bc == p.bc, q.al == p.al)))
                s.events.append(('moved', x.block))
                out.append((s, 'ret', UNIT))
            out.append((s2, 'unwind', None))
        return out
    Spec(key, ['C01', 'C04', 'C05', *extra], verify, apply_fn, parts=parts)
insert(UV('push'), True)
insert(UV('insert'), False)

def emp(name='emp'):
    x = z3.Int('new_' + name)
    return Agg('Emplacable', (UserFn(name, lambda ex, st, a: (_ for _ in ()).throw(Unsupported('emplacable run')), {'id': x}),)), x

def insert_with(key, push):
    def verify(v):
        st, ref, p = setup(v)
        e, x = emp()
        i = p.n if push else z3.Int('index')
        st.assume(i >= 0, i <= UMAX)
        for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [e]):
            q = view(s, ref)
            used = [ev for ev in s.events if ev[0] == 'used']
            drops = [ev for ev in s.events if ev[0] == 'drop_emp']
            stage = s.ghost.get('stage')
            if stage in ('ret', 'placed'):
                v.check(s, z3.BoolVal((k == 'ret') == (stage == 'ret')), 'returns with the element in place, or a panic of user code comes through', ['C01', 'C08'])
                was_inserted(v, s, p, q, i, x, ['C01'] if k == 'ret' else ['C01', 'C08'])
                v.check(s, z3.BoolVal(len(used) == 1 and not drops), 'the emplacable is used once', ['C04'])
            else:
                v.check(s, z3.BoolVal(k == 'unwind'), 'does not return without the element', ['C01'])
                kept(v, s, p, q, ['C01', 'C08'], 'panic: ')
                v.check(s, z3.BoolVal(len(used) + len(drops) == 1), 'the emplacable is used or dropped, once', ['C04'])
                if stage is None:
                    v.check(s, i > p.n, 'panics by itself only out of range', ['C01'])
                    frozen(v, s, p, q, ['C01'], 'out of range: ')
            if k == 'ret':
                v.check(s, i <= p.n, 'returns only for an index in range', ['C01'])
    Spec(key, ['C01', 'C04', 'C08'], verify, parts=FLAVOURS)
insert_with(UV('push_with'), True)
insert_with(UV('insert_with'), False)

# ------------------------------------------------------------------ removing
def remove_into(key, pop):
    def verify(v):
        st, ref, p = setup(v)
        i = simp(p.n - 1) if pop else z3.Int('index')
        if not pop:
            st.assume(i >= 0, i <= UMAX)
        inrange = p.n > 0 if pop else i < p.n
        for s, k, r in v.run(st, [ref] + ([] if pop else [i])):
            q = view(s, ref)
            frozen(v, s, p, q, ['C01', 'C04'], 'until it is used: ')
            if k != 'ret':
                v.check(s, z3.Not(inrange) if not pop else z3.BoolVal(False), 'panics only out of range', ['C01'])
                continue
            if pop:
                if r.var == 'None':
                    v.check(s, p.n == 0, 'None only when empty', ['C01']); continue
                r = r.fs[0]
            v.check(s, inrange, 'an emplacable only for an element that is there', ['C01', 'C03'])
            if not (isinstance(r, Agg) and r.name == 'Emplacable'):
                v.fail(s, 'an emplacable'); continue
            who = UserFn('consumer', None)
            cell = ('emp', 0)
            s.store[cell] = r
            for s2, k2, _ in v.ex.call_value(s, Ref(cell, (('f', 0), ('f', 0)) if r.fs[0].name == 'ManuallyDrop' else (('f', 0),)), [who]):
                q2 = view(s2, ref)
                what = 'panic: ' if k2 == 'unwind' else ''
                if k2 == 'unwind':
                    v.check(s2, z3.BoolVal(s2.cause == 'user'), 'panics only when user code does', ['C08'])
                taken = [e for e in s2.events if e[0] == 'taken']
                v.check(s2, z3.BoolVal(len(taken) == 1 and taken[0][2] is who) if len(taken) == 1 else z3.BoolVal(False), what + 'the element is handed to the receiver, once', ['C01', 'C04'])
                if len(taken) == 1:
                    v.check(s2, taken[0][1] == p.c.get(i), what + 'it is that element', ['C01', 'C04'])
                v.check(s2, q2.n == p.n - 1, what + 'one element less', ['C01', 'C08'])
                same_elems(v, s2, p, q2, 0, i, 0, ['C01', 'C08'], what + 'elements before it stay')
                same_elems(v, s2, p, q2, i, p.n - 1, -1, ['C01', 'C08'], what + 'elements behind it move down by one')
    Spec(key, ['C01', 'C04', 'C08'], verify, parts=FLAVOURS)
remove_into(UV('remove_into'), False)
remove_into(UV('pop_into'), True)

# ------------------------------------------------------------------ conversions
def unsize():
    def verify(v):
        st, ref, p = setup(v, fl='sized')
        aT, sT = v.ex.talign['T']
        v.ex.talign['U'] = (aT, None)
        st.ghost['flav'] = {**st.ghost['flav'], 'U': v.part}
        st.assume(z3.Implies(z3.BoolVal(True), T1))
        val = st.store[ref.cell]
        for s, k, r in v.run(st, [val], tenv={}):
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause == 'reserve'), 'panics only when memory runs out', ['C10', 'C05']); continue
            q = view(s, r)
            kept(v, s, p, q, ['C10', 'C01'], '')
            v.check(s, And(q.bc == p.bc, q.al == p.al), 'byte capacity and align are taken over', ['C10'])
            no_drop(v, s, ['C04', 'C10'])
    Spec(UV('unsize'), ['C10'], verify, parts=('unal', 'ali'))
unsize()

def from_vec(key, into, parts=None):
    """The very same value, unwrapped or wrapped."""
    def verify(v):
        st = v.state()
        x = Opaque('the vector')
        for s, k, r in v.run(st, [x if into else Agg('UnsizedVec', (x,))]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            got = r.fs[0] if into and isinstance(r, Agg) and r.name == 'UnsizedVec' and len(r.fs) == 1 else r if not into else None
            v.check(s, z3.BoolVal(got is x), 'the very same value', ['C10'])
    Spec(key, ['C10'], verify)
from_vec('<UnsizedVec as From>::from', True)
from_vec('<Vec as From>::from', False)

def from_iter(key, into):
    def verify(v):
        st = v.state()
        x = Opaque('the iterator')
        for s, k, r in v.run(st, [x if into else Agg('UnsizedIter', (x,))]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            got = r.fs[0] if into and isinstance(r, Agg) and r.name == 'UnsizedIter' and len(r.fs) == 1 else r if not into else None
            v.check(s, z3.BoolVal(got is x), 'the very same iterator', ['C10', 'C09'])
    Spec(key, ['C10', 'C09'], verify)
from_iter('<UnsizedIter as From>::from', True)
from_iter('<Iter as From>::from', False)

# ------------------------------------------------------------------ Size and Align of the three providers
def sizes():
    def ofval(key, check):
        def verify(v):
            st = v.state()
            st.ghost['flav'] = {}
            m = z3.Const('meta', Meta)
            aT, sT = z3.Ints('alignT sizeT')
            v.ex.talign['T'] = (aT, sT)
            st.assume(pw(aT), sT >= 0, sT <= IMAX, dv(aT, sT))
            std.meta_facts(None, st, m)
            if 'Unaligned' not in key:
                st.assume(AL(m) == aT)
            b = std.new_block(st, SZ(m), AL(m), 'value')
            for s, k, r in v.run(st, [Fat(Raw(b, z3.IntVal(0)), m)], tenv={'T': 'T'}):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                check(v, s, m, r)
        Spec(key, ['C14', 'C01'], verify)
    ofval('<ValidSizeUnaligned as Size>::of_val', lambda v, s, m, r: v.check(s, unwrapv(r) == SZ(m), 'the size of the value'))
    ofval('<ValidSize as Size>::of_val', lambda v, s, m, r: v.check(s, unwrapv(r) == SZ(m), 'the size of the value'))
    def getter(key, mk, want):
        def verify(v):
            st = v.state()
            aT, sT = z3.Ints('alignT sizeT')
            v.ex.talign['T'] = (aT, sT)
            x = z3.Int('x')
            st.assume(x >= 0, x <= IMAX)
            for s, k, r in v.run(st, [mk(x)], tenv={'T': 'T'}):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v.check(s, r == want(v, x), 'the size')
        Spec(key, ['C14', 'C01'], verify)
    getter('<ValidSizeUnaligned as Size>::get', vsu, lambda v, x: x)
    getter('<ValidSize as Size>::get', vs, lambda v, x: x)
    getter('<() as Size>::get', lambda x: UNIT, lambda v, x: v.ex.talign['T'][1])
    def align(key, un):
        def verify(v):
            st = v.state()
            x = z3.Int('x')
            st.assume(x >= 0, x <= UMAX)
            for s, k, r in v.run(st, [x], tenv={'T': 'T'}):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                if un:
                    v.check(s, And(pw(x), unwrapv(r.fs[0]) == x) if r.var == 'Some' else z3.Not(pw(x)), 'exactly the powers of two')
                else:
                    v.check(s, z3.BoolVal(r.var == 'Some'), 'every align is ignored')
        Spec(key, ['C05', 'C14'], verify)
    align('<ValidAlign as Align>::new', True)
    align('<() as Align>::new', False)
sizes()

# ------------------------------------------------------------------ UnsizedIter, UnsizedIterMut
def fresh_it(v, mut):
    st, ref, p = setup(v)
    lo, hi = z3.Ints('lo hi')
    st.assume(lo >= 0, lo <= hi, hi <= p.n)
    st.store[('it', 0)] = Agg('UnsizedIterMut' if mut else 'UnsizedIter', (Agg('PIter', (p.vec, lo, hi), 'mut' if mut else 'ref'),))
    v.ex.small = list(v.ex.small)
    return st, Ref(('it', 0)), p, lo, hi

def left(v, s, lo, hi, what=''):
    it = s.store[('it', 0)].fs[0]
    v.check(s, And(it.fs[1] == lo, it.fs[2] == hi), what + 'elements left', ['C09'])

def opt_elem(v, s, p, r, cond, i):
    if r.var == 'None':
        v.check(s, z3.Not(cond), 'None only when nothing is there', ['C09'])
    else:
        v.check(s, cond, 'Some only when something is there', ['C09'])
        is_elem(v, s, p, r.fs[0], i, ['C09'])

def forward(trait, m, body, args=(), byval=False, extra=None):
    for mut in (False, True):
        nm = 'UnsizedIterMut' if mut else 'UnsizedIter'
        def verify(v, mut=mut):
            st, ref, p, lo, hi = fresh_it(v, mut)
            xs = [z3.Int(a) for a in args]
            st.assume(*[z3.And(x >= 0, x <= UMAX) for x in xs])
            if extra:
                xs = xs + [extra(v, st, p)]
            for s, k, r in v.run(st, [st.store[ref.cell] if byval else ref] + xs):
                if k != 'ret':
                    v.fail(s, 'no panic', ['C09']); continue
                body(v, s, p, lo, hi, r, *xs)
        Spec(f'<{nm} as {trait}>::{m}', ['C09'], verify, parts=('unal',))

def _next(v, s, p, lo, hi, r):
    opt_elem(v, s, p, r, lo < hi, lo)
    left(v, s, *((lo + 1, hi) if r.var == 'Some' else (lo, hi)))
def _next_back(v, s, p, lo, hi, r):
    opt_elem(v, s, p, r, lo < hi, hi - 1)
    left(v, s, *((lo, hi - 1) if r.var == 'Some' else (lo, hi)))
def _nth(v, s, p, lo, hi, r, n):
    opt_elem(v, s, p, r, n < hi - lo, lo + n)
    if r.var == 'Some':
        left(v, s, lo + n + 1, hi)
    else:
        it = s.store[('it', 0)].fs[0]
        v.check(s, it.fs[1] >= it.fs[2], 'nothing is left', ['C09'])
def _nth_back(v, s, p, lo, hi, r, n):
    opt_elem(v, s, p, r, n < hi - lo, hi - 1 - n)
    if r.var == 'Some':
        left(v, s, lo, hi - 1 - n)
    else:
        it = s.store[('it', 0)].fs[0]
        v.check(s, it.fs[1] >= it.fs[2], 'nothing is left', ['C09'])
def _hint(v, s, p, lo, hi, r):
    v.check(s, And(r.fs[0] == hi - lo, r.fs[1].fs[0] == hi - lo) if r.fs[1].var == 'Some' else z3.BoolVal(False), 'exact bounds', ['C09'])
forward('Iterator', 'next', _next)
forward('DoubleEndedIterator', 'next_back', _next_back)
forward('Iterator', 'nth', _nth, args=('nth',))
forward('DoubleEndedIterator', 'nth_back', _nth_back, args=('nth',))
forward('Iterator', 'size_hint', _hint)
forward('Iterator', 'count', lambda v, s, p, lo, hi, r: v.check(s, r == hi - lo, 'number of elements left', ['C09']), byval=True)
forward('Iterator', 'last', lambda v, s, p, lo, hi, r: opt_elem(v, s, p, r, lo < hi, hi - 1), byval=True)

# searching adaptors: the decision is an uninterpreted function of the position, calls come in order
HIT = z3.Function('hit', I, z3.BoolSort())
FOUND = z3.Function('found', I, I)
KIND['hit'] = KIND['found'] = 'k'

def elem_of(ex, st, x):
    while isinstance(x, Ref):
        x = ex.read(st, ex.deref(x))
    if not (isinstance(x, Agg) and x.name == 'ElemRef'):
        raise Unsupported(f'not an element: {x!r}')
    return x

def predicate(v, p, kind):
    def run(ex, st, a):
        e = elem_of(ex, st, a[0])
        i = e.fs[1]
        nxt = st.store[('calls', 0)]
        v.check(st, And(i == nxt, e.fs[0] == p.c.get(i)), 'called with the elements in order', ['C09'])
        st.store[('calls', 0)] = simp(nxt + 1)
        s2 = st.clone()
        s2.cause = 'user'
        if kind == 'unit':
            return [(st, 'ret', UNIT), (s2, 'unwind', None)]
        if kind == 'opt':
            return [(s, 'ret', some(FOUND(i)) if t else NONE) for s, t in ex.split(st, HIT(i))] + [(s2, 'unwind', None)]
        return [(st, 'ret', HIT(i)), (s2, 'unwind', None)]
    return UserFn('predicate', run)

def searching(m, kind, want):
    """want(v, s, p, lo, w, r): result of the search that stopped at w, or (w None) at the end."""
    for mut in (False, True):
        nm = 'UnsizedIterMut' if mut else 'UnsizedIter'
        def verify(v, mut=mut):
            st, ref, p, lo, hi = fresh_it(v, mut)
            st.store[('calls', 0)] = lo
            f = predicate(v, p, kind)
            byval = m == 'for_each'
            stop = (lambda k: z3.Not(HIT(k))) if m == 'all' else HIT
            for s, k, r in v.run(st, [st.store[ref.cell] if byval else ref, f]):
                seen = s.store[('calls', 0)]
                if k != 'ret':
                    v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C09']); continue
                K = z3.Int(fresh_name('k$'))
                ext = {'k': [K], 'i': [simp(K - lo)]}
                if byval:
                    v.check(s, seen == hi, 'called for every element that is left', ['C09'])
                    continue
                it = s.store[('it', 0)].fs[0]
                v.check(s, And(it.fs[1] == seen, it.fs[2] == hi), 'takes exactly the elements it looks at', ['C09'])
                ended = want(v, s, p, lo, simp(seen - 1), r)
                if ended:
                    v.check(s, seen == hi, 'gives up only at the end', ['C09'])
                    v.check(s, z3.Implies(z3.And(K >= lo, K < hi), z3.Not(stop(K))), 'gives up only if no element decides', ['C09'], extra=ext)
                else:
                    v.check(s, And(seen > lo, stop(simp(seen - 1))), 'stops at an element that decides', ['C09'])
                    v.check(s, z3.Implies(z3.And(K >= lo, K < seen - 1), z3.Not(stop(K))), 'stops at the first one', ['C09'], extra=ext)
        Spec(f'<{nm} as Iterator>::{m}', ['C09'], verify, parts=('unal',))

def _bool(yes):
    def want(v, s, p, lo, w, r):
        r = z3.simplify(r)
        if not (z3.is_true(r) or z3.is_false(r)):
            raise Unsupported('undetermined result')
        return z3.is_true(r) != yes
    return want
searching('all', 'bool', _bool(False))
searching('any', 'bool', _bool(True))
def _find(v, s, p, lo, w, r):
    if r.var == 'Some':
        is_elem(v, s, p, r.fs[0], w, ['C09'])
    return r.var == 'None'
searching('find', 'bool', _find)
def _found(v, s, p, lo, w, r):
    if r.var == 'Some':
        v.check(s, r.fs[0] == FOUND(w), 'what the function gave', ['C09'])
    return r.var == 'None'
searching('find_map', 'opt', _found)
def _pos(v, s, p, lo, w, r):
    if r.var == 'Some':
        v.check(s, r.fs[0] == w - lo, 'number of elements before it', ['C09'])
    return r.var == 'None'
searching('position', 'bool', _pos)
searching('for_each', 'unit', None)
