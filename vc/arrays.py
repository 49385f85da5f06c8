"""Contracts of the producers made of many emplacables: arrays and iterators of Emplacable<T> (C12), and Vec's Extend and FromIterator (C13).
The k-th emplacable writes VAL(k) where it is told to; it may panic before, while and after. Running it and dropping it are events."""
import re, z3
from logic import *
from values import *
from spec import Spec, REG
import std, exe, sized, empl, prod
from std import R, rx, model, ret, unwind
from empl import pick, clo_of, start, mk_emp
from prod import USES, P, sized_T, slots, slot_consumer, common, emplace, slot_cell, slot_get, slot_layout, one_drop
from ops import user_panic

VAL = z3.Function('emplaced_value', I, I)
KIND['emplaced_value'] = 'k'

# ------------------------------------------------------------------ the k-th emplacable
def emp(k):
    return mk_emp(Agg('EmpFn', (k,)))
def emp_id(x):
    f = x.fs[0]
    f = f.fs[0] if isinstance(f, Agg) and f.name == 'ManuallyDrop' else f
    return f.fs[0] if isinstance(f, Agg) and f.name == 'EmpFn' else None

def run_emp(ex, st, k, emplacer):
    aT, sT = ex.talign['T']
    early = user_panic(st)
    st.events.append(('run', 'emplacables', k, None))
    done = [0]
    def inner(ex, s, a):
        p = a[0].thin if isinstance(a[0], Fat) else a[0]
        if isinstance(p, Raw) and p.block == 'null':
            s.events.append(('drop', 'emplaced', k, None))
            return std.fork_unwind(ex, s)
        g = s.clone()
        g.cause = 'user'
        sized.put(ex, g, p, g.fresh('garbage'), 'place handed to the emplacable')
        s.events.append(('write', 'emplacables', k, None))
        sized.put(ex, s, p, VAL(k), 'place handed to the emplacable')
        return [(s, 'ret', UNIT), (g, 'unwind', None)]
    out = [early]
    for s, kd, r in ex.call_value(st, emplacer, [Agg('Layout', (sT, aT)), UNIT, UserFn('inner', inner)]):
        out.append((s, kd, r))
        if kd == 'ret':
            out.append(user_panic(s))
    return out

_call_value = exe.Exec.call_value
def call_value(self, st, f, args):
    if isinstance(f, Agg) and f.name == 'EmpFn':
        return run_emp(self, st, f.fs[0], args[0])
    return _call_value(self, st, f, args)
exe.Exec.call_value = call_value

def drop_emp(ex, st, v, loc):
    """Dropping an emplacable destroys its value (contract of Emplacable::drop); a bare closure is inert."""
    if v.name == 'Emplacable' and emp_id(v) is not None:
        st.events.append(('drop', 'emplacables', emp_id(v), None))
        return std.fork_unwind(ex, st)
    if v.name == 'EmpFn':
        return ret(st)
    if v.name == 'Iter' and v.var == 'val':
        return drop_rest(ex, st, v)
    return None

def drop_rest(ex, st, it):
    src, lo, hi = it.fs
    k = z3.Int(fresh_name('it$'))
    if not (isinstance(src, VecV) and isinstance(src.c.get(k), Agg)):
        return ret(st)
    st.events.append(('loop', k, simp(hi - lo), [('drop', 'emplacables', emp_id(src.c.get(simp(lo + k))), None)]))
    return std.fork_unwind(ex, st)

def drop_vec(ex, st, v):
    if v.tag == 'emplacables':
        return drop_rest(ex, st, std.mk_iter(v, z3.IntVal(0), v.len, 'val'))
    st.events.append(('dropvec', v))
    return ret(st)

def hooks(st):
    st.ghost['drop_agg'] = drop_emp
    st.ghost['drop_vec'] = drop_vec

# ------------------------------------------------------------------ std: arrays
def length(ex, fr, t):
    t = ex.subst(fr, t)
    m = re.match(r'(\d+)(_usize)?$', t)
    if m:
        return z3.IntVal(int(m.group(1)))
    n = getattr(ex, 'consts', {}).get(t)
    if n is None:
        raise Unsupported(f'array length {t}')
    return n
_rvalue = exe.Exec.rvalue
def rvalue(self, st, fr, r):
    if r[0] == 'repeat':
        x, n = self.operand(st, fr, r[1]), length(self, fr, r[2])
        if 'repeat' in st.ghost:
            return st.ghost['repeat'](self, st, n)
        return VecV(n, n, Content(get0=lambda k: x), 'array')
    return _rvalue(self, st, fr, r)
exe.Exec.rvalue = rvalue
_const = std.Models.const
def const(self, ex, st, fr, t):
    n = getattr(ex, 'consts', {}).get(t)
    return n if n is not None else _const(self, ex, st, fr, t)
std.Models.const = const

@rx(r'(array|\[;\]|\[usize; N\])::map$')
def _(ex, st, fr, c, a):
    v = a[0]
    if not isinstance(v, VecV):
        raise Unsupported('map of this array')
    fc = std.cell(st, 'fn', a[1])
    il = VecV(v.len, v.len, Content(get0=lambda k: z3.IntVal(0)), 'array')
    def step(s, x, cells):
        evs = []
        for s2, k, r in ex.call_value(s, Ref(fc[1]) if isinstance(a[1], Clo) else a[1], [x]):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            i, w = ex.read(s2, cells[0]), ex.read(s2, cells[1])
            ex.write(s2, cells[1], VecV(w.len, w.cap, w.c.set(i, r), w.tag))
            ex.write(s2, cells[0], simp(i + 1))
            evs.append(('back', s2))
        return evs
    return std.iter_loop2(ex, st, std.mk_iter(v, z3.IntVal(0), v.len, 'val'), [z3.IntVal(0), il], step, lambda s, cells: ret(s, ex.read(s, cells[1])), 'map')
@rx(r'<\[;\] as IntoIterator>::into_iter$')
def _(ex, st, fr, c, a):
    if not isinstance(a[0], VecV):
        raise Unsupported('into_iter of this array')
    return ret(st, std.mk_iter(a[0], z3.IntVal(0), a[0].len, 'val'))

_read = R['ptr::read']
def read(ex, st, fr, c, a):
    p = a[0]
    if isinstance(p, Ref):
        v = ex.read(st, ('cell', p.cell, p.path))
        if isinstance(v, VecV) and v.tag == 'emplacables' or isinstance(v, Agg) and v.name == 'UserIter':
            return ret(st, v)
    return _read(ex, st, fr, c, a)
for _k in ('ptr::read', '*const::read', '*mut::read'):
    R[_k] = read

@rx(r'<UserIter as Iterator>::next$')
def _(ex, st, fr, c, a):
    return next_emp(ex, st)
def next_emp(ex, st):
    """The user's iterator yields the next emplacable, ends, or panics."""
    from traits import COUNT
    n = st.store[COUNT]
    if st.ghost.get('ended'):
        raise Unsupported('an iterator that has ended is asked again')
    u, e = st.clone(), st.clone()
    u.cause = 'user'
    e.ghost['ended'] = True
    st.store[COUNT] = simp(n + 1)
    return [(u, 'unwind', None), (e, 'ret', NONE), (st, 'ret', some(emp(n)))]

# Contract of Emplacable::unsize (proved in prod.py): the source runs once, its place and layout are passed on, the metadata is that of the unsized pointer.
def unsize_apply(ex, st, fr, c, a):
    src, u = clo_of(a[0]), st.ghost['unsize']
    def run(ex, s0, args):
        def emplacer(ex, s, b):
            return ex.call_value(s, args[0], [b[0], u(ex, s, Raw('null', z3.IntVal(0)), None).meta, b[2]])
        return ex.call_value(s0, src, [UserFn('unsizing', emplacer)])
    return ret(st, mk_emp(UserFn('unsized', run)))
_un = [s for s in REG.all if s.name == 'Emplacable::unsize'][0]
_un.apply_fn = unsize_apply
_un.guard = lambda ex, args: isinstance(clo_of(args[0]), Clo)

# ------------------------------------------------------------------ checks
def each(v, s, kind, upto, what, props=P, frm=None, block='emplacables'):
    """The events of this kind on the path are for 0..upto, in order, each once; -> how many."""
    from drops import subst_ev
    pos = frm if frm is not None else z3.IntVal(0)
    for e in s.events:
        if e[0] == 'loop':
            _, it, n, evs = e
            ds = [x for x in evs if x[0] == kind]
            if not ds:
                continue
            if len(ds) != 1:
                v.fail(s, what + ': once per element', props)
                continue
            f = (lambda d, it: lambda i: subst_ev(d, it, i))(ds[0], it)
        elif e[0] == kind:
            n, f = z3.IntVal(1), (lambda d: lambda i: d)(e)
        else:
            continue
        i = z3.Int(fresh_name('i$'))
        d = f(i)
        k = simp(pos + i)
        v.check(s, z3.Implies(z3.And(i >= 0, i < n), And(z3.BoolVal(d[1] == block), d[2] == k)), what + ': in order', props, extra={'i': [i], 'k': [k]})
        pos = simp(pos + n)
    if upto is not None:
        v.check(s, pos == upto, what + ': as many as elements', props)
    return pos

def none_of(s, kind):
    return z3.BoolVal(not any(e[0] == kind or e[0] == 'loop' and any(x[0] == kind for x in e[3]) for e in s.events))

def many(v, s, k, n, props):
    """What an emplacer of n elements may rely on, for each thing it can ask for."""
    stage = s.ghost.get('stage')
    if stage == 'taken':
        each(v, s, 'run', n, 'every emplacable is run', props)
        v.check(s, none_of(s, 'drop'), 'no value is dropped', props)
        j = z3.Int(fresh_name('k$'))
        v.check(s, z3.Implies(z3.And(j >= 0, j < n), slot_get(s, s.ghost['dest'], j) == VAL(j)), 'the values are written in order', ['C12'], extra={'k': [j], 'i': [j]})
    elif stage == 'taking':
        pos = each(v, s, 'run', None, 'emplacables are run', props)
        v.check(s, pos <= n, 'no more emplacables are run than there are', props)
    elif stage == 'dropped':
        v.check(s, none_of(s, 'run'), 'no emplacable is run', props)
        each(v, s, 'drop', n, 'every emplacable is dropped', props)
    elif stage == 'dropping':
        v.check(s, none_of(s, 'run'), 'no emplacable is run', props)
        pos = each(v, s, 'drop', None, 'emplacables are dropped', props)
        v.check(s, pos <= n, 'no emplacable is dropped twice', props)
    else:
        v.check(s, And(none_of(s, 'run'), none_of(s, 'drop')), 'no emplacable is run or dropped', props)

def consumer(st, only, n=None):
    u = slot_consumer(st, only)
    def run(ex, s0, args):
        lay, m, inner = args
        if n is not None:
            s0.ghost['count'] = n
        return u.run(ex, s0, args)
    return UserFn('emplacer', run)

def array(name, method, retty):
    def verify(v):
        st = start(v)
        hooks(st)
        aT, sT = sized_T(v, st)
        n = z3.Int('N')
        v.ex.consts = {'N': n}
        v.ex.small = [n]
        st.assume(n >= 0, n <= UMAX, mul(n, sT) >= 0, mul(n, sT) <= IMAX)
        v.ex.talign['[T; N]'] = (aT, mul(n, sT))
        st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p.thin if isinstance(p, Fat) else p, n)
        st.ghost['table'] = True
        v.ex.hints['canon'] = [lambda s, k: k, lambda s, k: VAL(k)]
        elems = VecV(n, n, Content(get0=emp), 'emplacables')
        fn = pick(v, method, '[;]', retty)
        for s, k, r in emplace(v, st, [elems], fn, consumer(st, v.part['user'], n)):
            common(v, s, k)
            tm, lay = s.ghost['taken']
            if retty == 'Emplacable<[]>':
                slot_layout(v, s, n)
            else:
                v.check(s, z3.BoolVal(tm is UNIT or isinstance(tm, Agg) and not tm.fs), 'metadata of the value', ['C12'])
                v.check(s, And(lay.fs[0] == mul(n, sT), lay.fs[1] == aT), 'layout of the value', ['C12'])
            many(v, s, k, n, P)
    Spec(name, ['C12', 'C04'], verify, parts=USES)
array('Emplacable<[T; N]> of [Emplacable<T>; N]', 'into_emplacable', 'Emplacable<[;]>')
array('Emplacable<[T; N]> from [Emplacable<T>; N]', 'from', 'Emplacable<[;]>')
array('Emplacable<[T]> of [Emplacable<T>; N]', 'into_emplacable', 'Emplacable<[]>')
array('Emplacable<[T]> from [Emplacable<T>; N]', 'from', 'Emplacable<[]>')

# ------------------------------------------------------------------ iterators of emplacables
@model('Layout::from_size_align')
def _(ex, st, fr, c, a):
    out = []
    for s, t in ex.split(st, And(pw(a[1]), pad(a[0], a[1]) <= IMAX)):
        out.append((s, 'ret', ok(Agg('Layout', (a[0], a[1]))) if t else err(Agg('LayoutError', ()))))
    return out
ITER = Agg('UserIter', ())
def emps(old):
    def f(ex, st, fr, c, a):
        if a and isinstance(a[0], Agg) and a[0].name == 'UserIter' or a and isinstance(a[0], Ref) and _is_iter(ex, st, a[0]):
            if c.method == 'into_iter':
                return [user_panic(st), (st, 'ret', ITER)]
            if c.method == 'next':
                return next_emp(ex, st)
            if c.method == 'len':
                n = st.fresh('claimed')
                st.assume(n >= 0, n <= UMAX)
                return [user_panic(st), (st, 'ret', n)]
            if c.method == 'size_hint':
                lo = st.fresh('hint')
                st.assume(lo >= 0, lo <= UMAX)
                return [user_panic(st), (st, 'ret', std.tup(lo, NONE))]
        if old is None:
            raise Unsupported(f'call of {c.key}')
        return old(ex, st, fr, c, a)
    f.label = '<I as Iterator>'
    return f
def _is_iter(ex, st, r):
    v = ex.read(st, ex.deref(r))
    return isinstance(v, Agg) and v.name == 'UserIter'
for _m in ('<I as IntoIterator>::into_iter', '<I as Iterator>::next', '<I as Iterator>::size_hint', '<I as ExactSizeIterator>::len'):
    R[_m] = emps(next((f for p, f in std.RX if p.match(_m)), None))

def of_iter():
    def verify(v):
        st = start(v)
        hooks(st)
        aT, sT = sized_T(v, st)
        from traits import COUNT
        st.store[COUNT] = z3.IntVal(0)
        st.ghost['table'] = True
        v.ex.hints['canon'] = [lambda s, k: VAL(k)]
        fn = pick(v, 'from_iter', 'I', 'Emplacable<[]>')
        for s, k, r in v.run(st, [ITER], fn=fn):
            if k != 'ret':
                n = [x for x in s.pc if 'claimed' in str(x)]
                v.check(s, z3.BoolVal(s.cause == 'user' or bool(n)), 'making the emplacable panics only when user code does or the size is too big', ['C12'])
                v.check(s, none_of(s, 'run'), 'making the emplacable runs nothing', ['C12'])
                continue
            v.check(s, And(none_of(s, 'run'), none_of(s, 'drop'), s.store[COUNT] == 0), 'making the emplacable takes nothing from the iterator', ['C12'])
            for s2, k2, r2 in v.ex.call_value(s, clo_of(r), [slot_consumer(st, v.part['user'])]):
                v.check(s2, z3.BoolVal(s2.ghost.get('calls', 0) == 1), 'the emplacer is called exactly once', ['C12'])
                m, lay = s2.ghost['taken']
                s2.assume(mul(m, sT) == mul(sT, m))
                slot_layout(v, s2, m)
                if k2 != 'ret':
                    v.check(s2, z3.BoolVal(s2.cause == 'user' or bool(s2.ghost.get('ended'))), 'panics only when user code does or the iterator is shorter than it said', ['C12'])
                many(v, s2, k2, m if s2.ghost['stage'] in ('taken', 'taking') else s2.store[COUNT], P)
                if s2.ghost['stage'] == 'taken':
                    v.check(s2, s2.store[COUNT] == m, 'exactly as many emplacables as announced are taken from the iterator', ['C12'])
                if s2.ghost['stage'] == 'dropped':
                    v.check(s2, z3.BoolVal(bool(s2.ghost.get('ended'))), 'the iterator is used up', P)
    Spec('Emplacable::from_iter', ['C12', 'C04'], verify, parts=USES)
of_iter()

# ------------------------------------------------------------------ Vec: Extend and FromIterator of emplacables
# Contract of Emplacable::get (proved in prod.py) for the k-th emplacable: its value, or a panic of user code.
def get_apply(ex, st, fr, c, a):
    k = emp_id(a[0])
    u = user_panic(st)
    st.events.append(('run', 'emplacables', k, None))
    b = slots(st, z3.IntVal(1), ex.talign['T'][0], 'value')
    st.mem[b] = lambda o: VAL(k)
    return [u, (st, 'ret', Own(b, None))]
_get = [s for s in REG.all if s.name == 'Emplacable::get'][0]
_get.apply_fn = get_apply
_get.guard = lambda ex, args: emp_id(args[0]) is not None

_push = R['Vec::push']
def push(ex, st, fr, c, a):
    """Pushing a T on a Vec kept by value: the value moves into the table."""
    if isinstance(a[1], Own) and st.blocks[a[1].block].unit == 'T' and isinstance(a[0], Ref) and isinstance(ex.read(st, ex.deref(a[0])), VecV):
        b = a[1].block
        val = st.mem[b](z3.IntVal(0))
        st.blocks.pop(b), st.mem.pop(b)
        a = [a[0], val]
    return _push(ex, st, fr, c, a)
push.label = 'Vec::push'
R['Vec::push'] = push

def extended(name, method, param):
    def verify(v):
        from traits import COUNT
        st = start(v)
        hooks(st)
        sized_T(v, st)
        st.store[COUNT] = z3.IntVal(0)
        v.ex.hints['canon'] = []
        n0, cap0 = z3.Ints('n cap')
        old = z3.Function('old', I, I)
        KIND['old'] = 'k'
        fresh = method == 'from_iter'
        st.ghost['emps'] = True
        if fresh:
            st.assume(n0 == 0)
            n0 = z3.IntVal(0)
        else:
            v.ex.small = [n0]
            st.assume(n0 >= 0, n0 <= cap0, cap0 <= UMAX)
            st.store[('arg', 0)] = VecV(n0, cap0, Content(get0=lambda k: old(k)), 'T')
        fn = pick(v, method, param, 'Vec<T>' if fresh else None)
        for s, k, r in v.run(st, [ITER] if fresh else [Ref(('arg', 0)), ITER], fn=fn):
            got = s.store[COUNT]
            w = r if fresh and k == 'ret' else s.store.get(('arg', 0))
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out', ['C13'])
            if w is None:
                continue
            j = z3.Int(fresh_name('k$'))
            if k == 'ret':
                v.check(s, w.len == n0 + got, 'every element is appended', ['C13'])
                v.check(s, z3.BoolVal(bool(s.ghost.get('ended'))), 'the iterator is used up', ['C13'])
                each(v, s, 'run', got, 'every emplacable is run', ['C13'])
            else:
                v.check(s, z3.And(w.len >= n0, w.len <= n0 + got), 'panic: the elements that were there stay', ['C13'])
            v.check(s, z3.Implies(z3.And(j >= n0, j < w.len), w.c.get(j) == VAL(simp(j - n0))), 'in order', ['C13'], extra={'k': [j, simp(j - n0)], 'i': [simp(j - n0)]})
            if not fresh:
                v.check(s, z3.Implies(z3.And(j >= 0, j < n0), w.c.get(j) == old(j)), 'the elements that were there stay', ['C13'], extra={'k': [j]})
    Spec(name, ['C13'], verify)
from empl import shape
extended('Vec: Extend of emplacables', 'extend', '&mut Vec<T>')
extended('Vec: FromIterator of emplacables', 'from_iter', 'I')
_new = R['Vec::new']
def new(ex, st, fr, c, a):
    if st.ghost.get('emps'):
        f = st.fresh_fn('unused', I, I, kind='k')
        return ret(st, VecV(z3.IntVal(0), z3.IntVal(0), Content(get0=f), 'T'))
    return _new(ex, st, fr, c, a)
new.label = 'Vec::new'
R['Vec::new'] = new
