"""Contracts of the trait implementations of UnsizedVec (src/lib.rs), over the abstract provider of wrap.py.
User comparisons, hashing, cloning and serialising are uninterpreted functions of the element."""
import re, z3
from logic import *
from values import *
from spec import Spec
import std
from std import R, RX, rx, model, ret
from wrap import *

EQ = z3.Function('user_eq', I, I, z3.BoolSort())
CMP = z3.Function('user_cmp', I, I, I)              # -1, 0, 1; 2: incomparable
CLONE = z3.Function('user_clone', I, I)
for _f in ('user_eq', 'user_cmp'):
    KIND[_f] = '..'
KIND['user_clone'] = '.'

def user(ex, st):
    """A state in which the user's code panics."""
    s = st.clone()
    s.cause = 'user'
    return s

@rx(r'<&*(T|U) as PartialEq>::(eq|ne)$')
def _(ex, st, fr, c, a):
    l, r = elem_of(ex, st, a[0]), elem_of(ex, st, a[1])
    g = EQ(l.fs[0], r.fs[0])
    return [(user(ex, st), 'unwind', None), (st, 'ret', g if c.method == 'eq' else z3.Not(g))]

def compare(ex, st, c, a):
    l, r = elem_of(ex, st, a[0]), elem_of(ex, st, a[1])
    v = st.ghost['v']
    k = st.store[('calls', 0)]
    v.check(st, And(l.fs[1] == k, r.fs[1] == k), 'pairs are compared in order, each once', ['C11'])
    st.store[('calls', 0)] = simp(k + 1)
    x = CMP(l.fs[0], r.fs[0])
    st.assume(x >= -1, x <= 2)
    return user(ex, st), x

@rx(r'<&*(T|U) as PartialOrd>::partial_cmp$')
def _(ex, st, fr, c, a):
    u, x = compare(ex, st, c, a)
    return [(u, 'unwind', None)] + [(s, 'ret', NONE if t else some(x)) for s, t in ex.split(st, x == 2)]

@rx(r'<&*(T|U) as Ord>::cmp$')
def _(ex, st, fr, c, a):
    u, x = compare(ex, st, c, a)
    st.assume(x <= 1)
    return [(u, 'unwind', None), (st, 'ret', x)]

def two(v, same_ty=False):
    st, r1, p = setup(v)
    if same_ty:
        n, cap, bc, blen, al = z3.Ints('n2 cap2 bytecap2 bytelen2 align2')
        f = z3.Function('elem2', I, I)
        KIND['elem2'] = 'k'
        val = mkprov(n, cap, Content(get0=lambda k: f(k)), bc, blen, al)
        st.assume(*facts(v.ex, st, PV(val), v.part))
        st.store[('uv2', 0)] = Agg('UnsizedVec', (val,))
        v.ex.small = list(v.ex.small) + [n]
        r2, q = Ref(('uv2', 0)), PV(val)
    else:
        st, r2, q = setup(v, 'uvU', 'U', fl=v.part, st=st)
    st.ghost['v'] = v
    st.store[('calls', 0)] = z3.IntVal(0)
    return st, r1, p, r2, q

def untouched(v, s, *ps):
    for r, p in ps:
        v.check(s, z3.BoolVal(same(view(s, r).val, p.val)), 'the vectors are not changed', ['C11'])

def only_user_panics(v, s):
    v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C11', 'C08'])

def eq():
    def verify(v):
        st, r1, p, r2, q = two(v)
        allk = lambda s: s.clone().assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < p.n), EQ(p.c.get(k), q.c.get(k))), 'all equal'))
        for s, k, r in v.run(st, [r1, r2]):
            untouched(v, s, (r1, p), (r2, q))
            if k != 'ret':
                only_user_panics(v, s); continue
            K = z3.Int(fresh_name('k$'))
            ext = {'k': [K], 'i': [K]}
            v.check(s, z3.Implies(r, p.n == q.n), 'equal only if as long')
            v.check(s, z3.Implies(z3.And(r, K >= 0, K < p.n), EQ(p.c.get(K), q.c.get(K))), 'equal only if all elements are', extra=ext)
            t = allk(s)
            t.assume(p.n == q.n)
            v.check(t, r, 'equal if as long and all elements are')
    Spec('<UnsizedVec as PartialEq>::eq', ['C11'], verify, parts=FLAVOURS)
eq()

def order(key, part):
    def verify(v):
        st, r1, p, r2, q = two(v, same_ty=not part)
        for s, k, r in v.run(st, [r1, r2]):
            untouched(v, s, (r1, p), (r2, q))
            if k != 'ret':
                only_user_panics(v, s); continue
            m = s.store[('calls', 0)]
            x = CMP(p.c.get(simp(m - 1)), q.c.get(simp(m - 1)))
            if part:
                res = z3.IntVal(2) if r.var == 'None' else r.fs[0]
            else:
                res = r
            K = z3.Int(fresh_name('k$'))
            ext = {'k': [K], 'i': [K]}
            lo = z3.If(p.n <= q.n, p.n, q.n)
            bylen = z3.If(p.n < q.n, -1, z3.If(p.n == q.n, 0, z3.IntVal(1)))
            v.check(s, m <= lo, 'only pairs are compared')
            v.check(s, z3.Implies(z3.And(K >= 0, K < m - 1), CMP(p.c.get(K), q.c.get(K)) == 0), 'goes on only over equal pairs', extra=ext)
            v.check(s, z3.If(z3.And(m > 0, x != 0), res == x, And(m == lo, res == bylen)), 'the first unequal pair decides, otherwise the lengths', extra={'k': [simp(m - 1)], 'i': [simp(m - 1)]})
    Spec(key, ['C11'], verify, parts=FLAVOURS)
order('<UnsizedVec as PartialOrd>::partial_cmp', True)
order('<UnsizedVec as Ord>::cmp', False)

# ------------------------------------------------------------------ traces: what is fed to a consumer, in order
TRACE = ('trace', 0)
def trace_start(st):
    st.store[TRACE] = VecV(z3.IntVal(0), z3.IntVal(UMAX), Content(get0=lambda k: z3.IntVal(-1)), 'trace')
def feed(st, x):
    t = st.store[TRACE]
    st.store[TRACE] = VecV(simp(t.len + 1), t.cap, t.c.set(t.len, x), 'trace')
def trace_is(v, s, p, n, what, props, whole=True):
    t = s.store[TRACE]
    K = z3.Int(fresh_name('k$'))
    v.check(s, (t.len == n) if whole else z3.And(t.len >= 0, t.len <= n), what + 'every element is listed', props)
    v.check(s, z3.Implies(z3.And(K >= 0, K < t.len), t.c.get(K) == p.c.get(K)), what + 'in order, each once', props, extra={'k': [K], 'i': [K]})

@rx(r'<&*T as Hash>::hash$')
def _(ex, st, fr, c, a):
    u = user(ex, st)
    feed(st, elem_of(ex, st, a[0]).fs[0])
    return [(u, 'unwind', None), (st, 'ret', UNIT)]

def hash_():
    def verify(v):
        st, ref, p = setup(v)
        trace_start(st)
        for s, k, r in v.run(st, [ref, Opaque('hasher')]):
            untouched(v, s, (ref, p))
            if k != 'ret':
                only_user_panics(v, s); continue
            trace_is(v, s, p, p.n, '', ['C11'])
    Spec('<UnsizedVec as Hash>::hash', ['C11'], verify, parts=FLAVOURS)
hash_()

@model('Formatter::debug_list')
def _(ex, st, fr, c, a):
    if TRACE not in st.store:
        raise Unsupported('formatter')
    return ret(st, Opaque('DebugList'))
@model('DebugList::entries', 'DebugSet::entries')
def _(ex, st, fr, c, a):
    def step(s, x, cells):
        feed(s, elem_of(ex, s, x).fs[0])
        return [('unwind', user(ex, s)), ('back', s)]
    return std.iter_loop2(ex, st, a[1], [], step, lambda s, cells: ret(s, a[0]), 'entries')
@model('DebugList::entry')
def _(ex, st, fr, c, a):
    feed(st, elem_of(ex, st, a[1]).fs[0])
    return [(user(ex, st), 'unwind', None), (st, 'ret', a[0])]
@model('DebugList::finish')
def _(ex, st, fr, c, a):
    st.events.append(('finished',))
    return ret(st, Opaque('fmt result'))

def debug():
    def verify(v):
        st, ref, p = setup(v)
        trace_start(st)
        for s, k, r in v.run(st, [ref, Opaque('formatter')]):
            untouched(v, s, (ref, p))
            if k != 'ret':
                only_user_panics(v, s); continue
            trace_is(v, s, p, p.n, '', ['C11'])
            v.check(s, z3.BoolVal(len([e for e in s.events if e[0] == 'finished']) == 1 and isinstance(r, Opaque) and r.tag == 'fmt result'), 'the list is finished and its result returned')
    Spec('<UnsizedVec as Debug>::fmt', ['C11'], verify, parts=FLAVOURS)
debug()

@rx(r'<S as Serializer>::serialize_seq$')
def _(ex, st, fr, c, a):
    e = st.clone()
    e.ghost['failed'] = 'seq'
    st.ghost['seq_len'] = a[1]
    return [(user(ex, st), 'unwind', None), (e, 'ret', err(Opaque('error'))), (st, 'ret', ok(Opaque('seq')))]
@rx(r'<<S as Serializer>::SerializeSeq as SerializeSeq>::serialize_element$')
def _(ex, st, fr, c, a):
    feed(st, elem_of(ex, st, a[1]).fs[0])
    e = st.clone()
    e.ghost['failed'] = 'element'
    return [(user(ex, st), 'unwind', None), (e, 'ret', err(Opaque('error'))), (st, 'ret', ok(UNIT))]
@rx(r'<<S as Serializer>::SerializeSeq as SerializeSeq>::end$')
def _(ex, st, fr, c, a):
    st.events.append(('finished',))
    return [(user(ex, st), 'unwind', None), (st, 'ret', Agg('EndResult', ()))]

def serialize():
    def verify(v):
        st, ref, p = setup(v)
        trace_start(st)
        for s, k, r in v.run(st, [ref, Opaque('serializer')]):
            untouched(v, s, (ref, p))
            done = len([e for e in s.events if e[0] == 'finished'])
            if k != 'ret':
                only_user_panics(v, s); continue
            if s.ghost.get('failed'):
                v.check(s, z3.BoolVal(isinstance(r, Agg) and r.var == 'Err' and done == 0), 'an error of the serializer is passed on')
                trace_is(v, s, p, p.n, 'up to an error: ', ['C11'], whole=False)
                continue
            trace_is(v, s, p, p.n, '', ['C11'])
            l = s.ghost.get('seq_len')
            v.check(s, l.fs[0] == p.n if isinstance(l, Agg) and l.var == 'Some' else z3.BoolVal(isinstance(l, Agg)), 'the length announced, if any, is the length')
            v.check(s, z3.BoolVal(done == 1 and isinstance(r, Agg) and r.name == 'EndResult'), 'the sequence is ended, once, and the result returned')
    Spec('<UnsizedVec as Serialize>::serialize', ['C11'], verify, parts=FLAVOURS)
serialize()

# ------------------------------------------------------------------ cloning
@rx(r'<T as Clone>::clone$')
def _(ex, st, fr, c, a):
    if isinstance(a[0], Raw):
        import prod
        return prod.slot_clone(ex, st, a[0])
    e = elem_of(ex, st, a[0])
    m = st.ghost['meta_of_T']
    aT, sT = ex.talign['T']
    u = user(ex, st)
    b = std.new_block(st, sT, aT, 'clone')
    st.ghost[('id', b)] = CLONE(e.fs[0])
    return [(u, 'unwind', None), (st, 'ret', Own(b, m))]

def drop_vec_hook(ex, st, v, loc):
    if v.name == 'Prov':
        st.events.append(('drop_prov', v))
        return ret(st)
    return drop_hook(ex, st, v, loc)

def clone():
    def verify(v):
        st, ref, p = setup(v)
        st.ghost['drop_agg'] = drop_vec_hook
        m = z3.Const('metaT', Meta)
        std.meta_facts(None, st, m)
        aT, sT = v.ex.talign['T']
        st.assume(SZ(m) == sT, AL(m) == aT)
        st.ghost['meta_of_T'] = m
        for s, k, r in v.run(st, [ref]):
            v.check(s, z3.BoolVal(same(view(s, ref).val, p.val)), 'the original is not changed', ['C11', 'C04'])
            K = z3.Int(fresh_name('k$'))
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out', ['C11', 'C08'])
                made = [e[1] for e in s.events if e[0] == 'drop_prov']
                continue
            q = view(s, r)
            v.check(s, q.n == p.n, 'as long', ['C11'])
            v.check(s, z3.Implies(z3.And(K >= 0, K < p.n), q.c.get(K) == CLONE(p.c.get(K))), 'a clone of every element, in order', ['C11', 'C04'], extra={'k': [K], 'i': [K]})
            v.check(s, z3.BoolVal(not any(e[0].startswith('drop') for e in s.events)), 'nothing is dropped', ['C04'])
    Spec('<UnsizedVec as Clone>::clone', ['C11', 'C08', 'C04'], verify, parts=('sized',))
clone()

# ------------------------------------------------------------------ extending
NEWE = z3.Function('yielded', I, I)
KIND['yielded'] = 'k'
COUNT = ('yielded', 0)

@rx(r'<I as IntoIterator>::into_iter$')
def _(ex, st, fr, c, a):
    return [(user(ex, st), 'unwind', None), (st, 'ret', Opaque('user iterator'))]
@rx(r'<I as Iterator>::size_hint$')
def _(ex, st, fr, c, a):
    lo = st.fresh('hint')
    st.assume(lo >= 0, lo <= UMAX)
    b = st.clone()
    hi = b.fresh('hint')
    b.assume(hi >= 0, hi <= UMAX)
    return [(user(ex, st), 'unwind', None), (st, 'ret', tup(lo, NONE)), (b, 'ret', tup(lo, some(hi)))]
@rx(r'<I as Iterator>::next$')
def _(ex, st, fr, c, a):
    n = st.store[COUNT]
    if st.ghost.get('ended'):
        raise Unsupported('an iterator that has ended is asked again')
    u, e = user(ex, st), st.clone()
    e.ghost['ended'] = True
    st.store[COUNT] = simp(n + 1)
    return [(u, 'unwind', None), (e, 'ret', NONE),
            (st, 'ret', some(Agg('Emplacable', (UserFn('yielded', lambda *a: (_ for _ in ()).throw(Unsupported('emplacable run')), YId(NEWE(n))),))))]

class YId(dict):
    """Identity of an emplacable's value (the same wherever it goes)."""
    def __init__(self, t):
        super().__init__(id=t)

def fresh_supply(v, st):
    st.store[COUNT] = z3.IntVal(0)

def extended(v, s, p, q, what, k):
    """q is p with what was yielded behind it (all of it, or without the last one)."""
    K = z3.Int(fresh_name('k$'))
    got = s.store[COUNT]
    v.check(s, q.n == p.n + got if k == 'ret' else z3.And(q.n <= p.n + got, q.n >= p.n + got - 1, q.n >= p.n), what + 'every element is appended', ['C11'] if k == 'ret' else ['C11', 'C08'])
    v.check(s, z3.Implies(z3.And(K >= 0, K < p.n), q.c.get(K) == p.c.get(K)), what + 'the elements that were there stay', ['C11', 'C08'], extra={'k': [K], 'i': [simp(K - p.n)]})
    v.check(s, z3.Implies(z3.And(K >= p.n, K < q.n), q.c.get(K) == NEWE(simp(K - p.n))), what + 'in order', ['C11'], extra={'k': [K, simp(K - p.n)], 'i': [simp(K - p.n)]})

def extend():
    def verify(v):
        st, ref, p = setup(v)
        fresh_supply(v, st)
        for s, k, r in v.run(st, [ref, Opaque('user iterable')]):
            extended(v, s, p, view(s, ref), '' if k == 'ret' else 'panic: ', k)
            if k == 'ret':
                v.check(s, z3.BoolVal(bool(s.ghost.get('ended'))), 'the iterator is used up')
            else:
                v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out')
    Spec('<UnsizedVec as Extend>::extend', ['C11', 'C08'], verify, parts=FLAVOURS)
extend()

def from_iter():
    def verify(v):
        st, ref, p = setup(v)
        st.ghost['drop_agg'] = drop_vec_hook
        fresh_supply(v, st)
        for s, k, r in v.run(st, [Opaque('user iterable')]):
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out')
                v.check(s, z3.BoolVal(len([e for e in s.events if e[0] == 'drop_prov']) == 1), 'panic: the vector so far is dropped', ['C11', 'C04'])
                continue
            q = view(s, r)
            empty = PV(mkprov(z3.IntVal(0), q.cap, q.c, q.bc, q.blen, q.al))
            K = z3.Int(fresh_name('k$'))
            v.check(s, And(q.n == s.store[COUNT], z3.BoolVal(bool(s.ghost.get('ended')))), 'every element is there')
            v.check(s, z3.Implies(z3.And(K >= 0, K < q.n), q.c.get(K) == NEWE(K)), 'in order', extra={'k': [K], 'i': [K]})
    Spec('<UnsizedVec as FromIterator>::from_iter', ['C11'], verify, parts=FLAVOURS)
from_iter()
RX.sort(key=lambda x: 0 if x[1].__module__ in ('traits', 'wrap') else 1)
