"""Contracts of the producers of emplacables (property C12) and of the plain consumers get, forget and drop (C13).
A producer is run with every behaviour of an emplacer: it takes the value, has it dropped in place, or ignores it; it may panic before and after."""
import re, z3
from logic import *
from values import *
from program import head
from spec import Spec, unwrapv
import std, exe, sized, mir, empl
from std import R, rx, model, ret, unwind
from empl import pick, clo_of, start, drops, mk_box, live_heap, shape, user_emplacable, drop_hook
from ops import consumer, own_value, fresh_meta, user_panic
from traits import CLONE

USES = tuple({'user': u} for u in ('taken', 'dropped', 'ignored'))

def sized_T(v, st):
    aT, sT = z3.Ints('alignT sizeT')
    v.ex.talign['T'] = (aT, sT)
    st.assume(pw(aT), sT >= 0, sT <= IMAX - (aT - 1), dv(aT, sT))
    return aT, sT

def slots(st, n, al, tag):
    b = std.new_block(st, n, al, tag)
    st.blocks[b] = Block(n, al, True, 'T')
    return b

def slot_consumer(st, only=None):
    """Emplacer of values counted in slots: the metadata says how many (none: one)."""
    def run(ex, s0, args):
        lay, m, inner = args
        calls = s0.ghost.get('calls', 0)
        s0.ghost['calls'] = calls + 1
        s0.ghost['taken'] = (m, lay)
        n = s0.ghost.get('count', m if z3.is_expr(m) else z3.IntVal(1))
        out = []
        if only in (None, 'ignored'):
            g = s0.clone()
            g.ghost['stage'] = 'ignored'
            out += [user_panic(g), (g, 'ret', UNIT)]
        if only in (None, 'dropped'):
            d = s0.clone()
            d.ghost['stage'] = 'dropping'
            for s, k, r in ex.call_value(d, inner, [Raw('null', z3.IntVal(0))]):
                if k == 'ret':
                    s.ghost['stage'] = 'dropped'
                    out.append(user_panic(s))
                out.append((s, k, r))
        if only in (None, 'taken'):
            b = slots(s0, n, ex.talign['T'][0], 'dest')
            s0.ghost['stage'], s0.ghost['dest'] = 'taking', b
            s0.ghost['dest0'] = s0.mem[b]
            if s0.ghost.get('table'):
                slot_cell(s0, b, n)
            for s, k, r in ex.call_value(s0, inner, [Raw(b, z3.IntVal(0))]):
                if k == 'ret':
                    s.ghost['stage'] = 'taken'
                    out.append(user_panic(s))
                out.append((s, k, r))
        return out
    return UserFn('emplacer', run)

def counted(st, only):
    """consumer() that also counts its calls."""
    u = consumer(st, only=only)
    def run(ex, s0, args):
        s0.ghost['calls'] = s0.ghost.get('calls', 0) + 1
        return u.run(ex, s0, args)
    return UserFn('emplacer', run)

P = ['C12', 'C04']

def common(v, s, k, what=''):
    """What every producer owes the emplacer."""
    stage = s.ghost.get('stage')
    v.check(s, z3.BoolVal(s.ghost.get('calls', 0) == 1), 'the emplacer is called exactly once', ['C12'])
    if k != 'ret':
        v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C12'])
    return stage

def emplace(v, st, args, fn, emplacer):
    """The emplacable that fn makes of its arguments, run with this emplacer."""
    out = []
    for s, k, r in v.run(st, args, fn=fn):
        if k != 'ret':
            v.fail(s, 'making the emplacable does not panic', ['C12']); continue
        v.check(s, z3.BoolVal(not drops(s)), 'making the emplacable drops nothing', ['C12'])
        out += v.ex.call_value(s, clo_of(r), [emplacer])
    return out

def taken_bytes(v, s, m, mem, al=None):
    tm, lay = s.ghost['taken']
    v.check(s, z3.BoolVal(False) if not z3.is_expr(tm) or tm.sort() != m.sort() else tm == m, 'metadata of the value', ['C12'])
    v.check(s, And(lay.fs[0] == SZ(m), lay.fs[1] == AL(m)), 'layout of the value', ['C12'])
    if s.ghost['stage'] == 'taken':
        b = z3.Int(fresh_name('b$'))
        D = s.mem[s.ghost['dest']]
        v.check(s, z3.Implies(z3.And(b >= 0, b < SZ(m)), D(b) == mem(b)), 'bytes of the value', ['C12'], extra={'b': [b]})

def borrowed(name, param, method='into_emplacable', retty=None):
    """&str, &CStr, &OsStr, &Path: the bytes are copied, the source stays, nothing is dropped."""
    def verify(v):
        st = start(v)
        m = fresh_meta(st)
        b = std.new_block(st, SZ(m), AL(m), 'source')
        mem = st.mem[b]
        fn = pick(v, method, param, retty)
        for s, k, r in emplace(v, st, [Fat(Raw(b, z3.IntVal(0)), m)], fn, counted(st, v.part['user'])):
            common(v, s, k)
            taken_bytes(v, s, m, mem)
            v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', P)
            v.check(s, z3.BoolVal(s.mem[b] is mem and s.blocks[b].live), 'the source is left as it was', ['C12'])
    Spec(name, ['C12'], verify, parts=USES)

for _t in ('str', 'CStr', 'OsStr', 'Path'):
    borrowed(f'Emplacable of &{_t}', f'&{_t}')
    borrowed(f'Emplacable from &{_t}', f'&{_t}', 'from', f'Emplacable<{_t}>')

def one_drop(v, s, block, off, meta=None):
    d = drops(s)
    v.check(s, z3.BoolVal(len(d) == 1), 'the value is dropped exactly once', P)
    if len(d) == 1:
        v.check(s, And(z3.BoolVal(d[0][1] == block), d[0][2] == off, *([d[0][3] == meta] if meta is not None else [])), 'it is the value that is dropped', P)

def box(name, method):
    def verify(v):
        for zero in (False, True):
            st = start(v)
            m = fresh_meta(st)
            if zero:
                st.assume(SZ(m) == 0)
                p, mem, b = std.dangling(st, AL(m)), None, None
            else:
                st.assume(SZ(m) > 0)
                b = std.new_block(st, SZ(m), AL(m), 'heap')
                st.ghost['heap'] = (b,)
                mem, p = st.mem[b], Raw(b, z3.IntVal(0))
            fn = pick(v, method, 'Box<T>', 'Emplacable<T>')
            for s, k, r in emplace(v, st, [mk_box(Fat(p, m))], fn, counted(st, v.part['user'])):
                stage = common(v, s, k)
                taken_bytes(v, s, m, mem or (lambda o: z3.IntVal(0)))
                if stage in ('dropped', 'dropping'):
                    one_drop(v, s, b, p.off, m)
                else:
                    v.check(s, z3.BoolVal(not drops(s)), 'the value is not dropped', P)
                if k == 'ret':
                    v.check(s, z3.BoolVal(live_heap(s) == []), 'the memory of the box is released', ['C12'])
    Spec(name, ['C12', 'C04'], verify, parts=USES)
box('Emplacable of Box', 'into_emplacable')
box('Emplacable from Box', 'from')

# ------------------------------------------------------------------ sized values
def sized_value(name, method):
    def verify(v):
        st = start(v)
        aT, sT = sized_T(v, st)
        b = slots(st, z3.IntVal(1), aT, 'value')
        val = st.mem[b](z3.IntVal(0))
        fn = pick(v, method, 'T', 'Emplacable<T>')
        for s, k, r in emplace(v, st, [Own(b, None)], fn, slot_consumer(st, v.part['user'])):
            stage = common(v, s, k)
            slot_layout(v, s, None)
            if stage == 'taken':
                v.check(s, s.mem[s.ghost['dest']](z3.IntVal(0)) == val, 'the value is moved out', ['C12'])
            if stage in ('dropped', 'dropping'):
                one_drop(v, s, b, z3.IntVal(0))
            else:
                v.check(s, z3.BoolVal(not drops(s)), 'the value is not dropped', P)
    Spec(name, ['C12', 'C04'], verify, parts=USES)

def slot_layout(v, s, n):
    aT, sT = v.ex.talign['T']
    m, lay = s.ghost['taken']
    if n is None:
        v.check(s, z3.BoolVal(m is UNIT or isinstance(m, Agg) and not m.fs), 'metadata of the value', ['C12'])
        v.check(s, And(lay.fs[0] == sT, lay.fs[1] == aT), 'layout of the value', ['C12'])
    else:
        v.check(s, m == n if z3.is_expr(m) else z3.BoolVal(False), 'metadata of the value', ['C12'])
        v.check(s, And(lay.fs[0] == mul(n, sT), lay.fs[1] == aT), 'layout of the value', ['C12'])
sized_value('Emplacable of T', 'into_emplacable')
sized_value('Emplacable from T', 'from')

# ------------------------------------------------------------------ plain consumers
def slot_emplacable(st, only=None):
    """User emplacable of a sized value."""
    def run(ex, s0, args):
        a, sz = ex.talign['T']
        val = s0.fresh('newval')
        s0.ghost['new'], s0.ghost['stage'] = val, 'before'
        if only == 'before':
            return [user_panic(s0)] + [x for x in ex.call_value(s0, args[0], [Agg('Layout', (sz, a)), UNIT, UserFn('inner', lambda ex, s, a: [])]) if x[1] != 'ret']
        def inner(ex, s, a):
            ex.oblige(s, z3.BoolVal(s.ghost['stage'] == 'before'), 'the inner closure runs at most once', 'mem')
            p = a[0].thin if isinstance(a[0], Fat) else a[0]
            if isinstance(p, Raw) and p.block == 'null':
                s.ghost['stage'] = 'dropping'
                s.events.append(('drop', 'emplaced', z3.IntVal(0), None))
                return std.fork_unwind(ex, s)
            g = s.clone()
            g.ghost['stage'] = 'garbage'
            g.cause = 'user'
            sized.put(ex, g, p, g.fresh('garbage'), 'place handed to the emplacable')
            sized.put(ex, s, p, val, 'place handed to the emplacable')
            s.ghost['stage'] = 'written'
            return [(g, 'unwind', None)] if only == 'garbage' else [(s, 'ret', UNIT)]
        out = []
        for s, k, r in ex.call_value(s0, args[0], [Agg('Layout', (sz, a)), UNIT, UserFn('inner', inner)]):
            if k == 'ret' and only == 'placed-panic':
                out.append(user_panic(s))
            elif k != 'ret' or only != 'placed-panic':
                out.append((s, k, r))
        return out
    return empl.mk_emp(UserFn('emp', run))

def get():
    def verify(v):
        st = start(v)
        sized_T(v, st)
        st.ghost['metaT'] = None
        fn = pick(v, 'get', 'Emplacable<T>', 'T')
        for s, k, r in v.run(st, [slot_emplacable(st, v.part['user'])], fn=fn):
            stage = s.ghost['stage']
            v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', ['C13', 'C04'])
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C13'])
                continue
            v.check(s, z3.BoolVal(stage == 'written'), 'returns only with a value', ['C13'])
            good = isinstance(r, Own) and s.blocks[r.block].unit == 'T'
            v.check(s, s.mem[r.block](z3.IntVal(0)) == s.ghost['new'] if good else z3.BoolVal(False), 'the emplaced value is returned', ['C13'])
    Spec('Emplacable::get', ['C13'], verify, parts=empl.BEH)
get()

def ending(name, method, param, retty, dropping):
    """forget and drop: the emplacer leaves the value alone or has it dropped in place."""
    def verify(v):
        st = start(v)
        m = fresh_meta(st)
        def run(ex, s0, args):
            s0.ghost['runs'] = s0.ghost.get('runs', 0) + 1
            early = user_panic(s0)
            early[0].ghost['stage'] = 'before'
            def inner(ex, s, a):
                p = a[0].thin if isinstance(a[0], Fat) else a[0]
                s.ghost['inner'] = s.ghost.get('inner', 0) + 1
                ex.oblige(s, z3.BoolVal(isinstance(p, Raw) and p.block == 'null'), 'the emplacer asks for the value to be dropped', 'post')
                s.events.append(('drop', 'emplaced', z3.IntVal(0), m))
                return std.fork_unwind(ex, s)
            out = [early]
            for s, k, r in ex.call_value(s0, args[0], [Agg('Layout', (SZ(m), AL(m))), m, UserFn('inner', inner)]):
                s.ghost['stage'] = 'called'
                out.append((s, k, r))
                if k == 'ret':
                    out.append(user_panic(s))
            return out
        e = empl.mk_emp(UserFn('emp', run))
        fn = pick(v, method, param, retty)
        if param.startswith('&'):
            st.store[('arg', 0)] = e
            e = Ref(('arg', 0))
        for s, k, r in v.run(st, [e], fn=fn):
            v.check(s, z3.BoolVal(s.ghost.get('runs', 0) == 1), 'the closure runs exactly once', ['C13'])
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C13'])
            if s.ghost.get('stage') == 'called':
                n = s.ghost.get('inner', 0)
                if dropping:
                    v.check(s, z3.BoolVal(n == 1), 'the value is dropped exactly once', ['C13', 'C04', 'C12'])
                else:
                    v.check(s, z3.BoolVal(n == 0 and not drops(s)), 'the value is not dropped', ['C13', 'C04', 'C12'])
    Spec(name, ['C13', 'C12'], verify)
ending('Emplacable::forget', 'forget', 'Emplacable<T>', '()', False)
ending('Emplacable::drop', 'drop', '&mut Emplacable<T>', '()', True)

# ------------------------------------------------------------------ emplacables made of emplacables
def source(lay, meta, put_value):
    """User emplacable whose emplacer is called with (lay, meta); what its inner closure is asked to do is recorded."""
    def run(ex, s0, args):
        s0.ghost['runs'] = s0.ghost.get('runs', 0) + 1
        early = user_panic(s0)
        early[0].ghost['src'] = 'before'
        def inner(ex, s, a):
            p = a[0].thin if isinstance(a[0], Fat) else a[0]
            s.ghost['inner'] = s.ghost.get('inner', 0) + 1
            ex.oblige(s, z3.BoolVal(s.ghost['inner'] == 1), 'the inner closure runs at most once', 'mem')
            if isinstance(p, Raw) and p.block == 'null':
                s.events.append(('drop', 'emplaced', z3.IntVal(0), meta))
                s.ghost['src'] = 'dropping'
                return std.fork_unwind(ex, s)
            put_value(ex, s, p)
            s.ghost['src'] = 'written'
            s.ghost['at'] = p
            return std.fork_unwind(ex, s)
        out = [early]
        for s, k, r in ex.call_value(s0, args[0], [lay, meta, UserFn('inner', inner)]):
            out.append((s, k, r))
            if k == 'ret':
                out.append(user_panic(s))
        return out
    return empl.mk_emp(UserFn('source', run))

def rewrapped(name, method, param, retty, sized_src):
    """The result runs the source once and passes what the emplacer asks for straight on to it."""
    def verify(v):
        st = start(v)
        if sized_src:
            aT, sT = sized_T(v, st)
            for t in ('[T; N]',):
                v.ex.talign[t] = (aT, sT)
            m = z3.Const('metaU', Meta)
            std.meta_facts(None, st, m)
            st.assume(SZ(m) == sT, AL(m) == aT)
            st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p.thin if isinstance(p, Fat) else p, m)
            smeta = UNIT
        else:
            m = fresh_meta(st)
            smeta = m
        val = st.fresh_fn('newval', I, I, kind='.')
        import ops
        src = source(Agg('Layout', (SZ(m), AL(m))), smeta, lambda ex, s, p: ops.write_value(ex, s, p, m, val, 'place handed to the source'))
        fn = pick(v, method, param, retty)
        for s, k, r in emplace(v, st, [src], fn, counted(st, v.part['user'])):
            v.check(s, z3.BoolVal(s.ghost.get('runs', 0) == 1), 'the source runs exactly once', ['C12'])
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C12'])
            if s.ghost.get('src') == 'before':
                v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', P)
                continue
            stage = s.ghost.get('stage')
            v.check(s, z3.BoolVal(s.ghost.get('calls', 0) == 1), 'the emplacer is called exactly once', ['C12'])
            taken_bytes(v, s, m, val)
            want = {'taken': ('written', 1), 'taking': ('written', 1), 'dropped': ('dropping', 1), 'dropping': ('dropping', 1), 'ignored': (None, 0)}[stage]
            v.check(s, z3.BoolVal((s.ghost.get('src'), s.ghost.get('inner', 0)) == want), 'the source does what the emplacer asks for', P)
            if stage == 'taken':
                p = s.ghost['at']
                v.check(s, And(z3.BoolVal(p.block == s.ghost['dest']), p.off == 0), 'written at the place of the emplacer', ['C12'])
    Spec(name, ['C12', 'C04'], verify, parts=USES)
rewrapped('Emplacable<[u8]> of Emplacable<str>', 'into_emplacable', 'Emplacable<str>', 'Emplacable<[]>', False)
rewrapped('Emplacable<[u8]> from Emplacable<str>', 'from', 'Emplacable<str>', 'Emplacable<[]>', False)
rewrapped('Emplacable::unsize', 'unsize', 'Emplacable<T>', 'Emplacable<U>', True)
rewrapped('Emplacable<[T]> of Emplacable<[T; N]>', 'into_emplacable', 'Emplacable<[;]>', 'Emplacable<[]>', True)
rewrapped('Emplacable<[T]> from Emplacable<[T; N]>', 'from', 'Emplacable<[;]>', 'Emplacable<[]>', True)

# ------------------------------------------------------------------ slices of sized values (counted in slots)
class SlotPtr:
    """Start of a slice of T."""
    __slots__ = ('block',)
    def __init__(self, block):
        self.block = block
    def __eq__(self, o):
        return isinstance(o, SlotPtr) and o.block == self.block
    def __hash__(self):
        return hash(self.block)
    def __repr__(self):
        return f'SlotPtr({self.block})'

def slot_slice(x):
    return isinstance(x, Agg) and x.name == 'Slice' and isinstance(x.fs[0], SlotPtr)

def slot_get(st, b, k):
    v = st.store.get(('slots', b))
    return v.c.get(k) if v is not None else st.mem[b](k)

def slot_cell(st, b, n):
    """From here on what is written to the block is kept element by element (loops may write to it)."""
    old = st.mem[b]
    st.store[('slots', b)] = VecV(n, n, Content(get0=lambda k: old(k)), 'slots')

_copy = std.mem_copy
def mem_copy(ex, st, src, dst, n, overlap):
    s, d = (x.thin if isinstance(x, Fat) else x for x in (src, dst))
    cell = ('slots', d.block)
    if cell not in st.store and ('slots', s.block) not in st.store:
        return _copy(ex, st, src, dst, n, overlap)
    saved = {b: st.mem[b] for b in {s.block, d.block} if ('slots', b) in st.store}
    for b in saved:
        st.mem[b] = st.store[('slots', b)].c.get
    one = z3.is_int_value(n) and n.as_long() == 1
    val = st.mem[s.block](s.off) if one and s.block in st.mem else None
    _copy(ex, st, src, dst, n, overlap)
    f = st.mem.get(d.block)
    for b, m in saved.items():
        st.mem[b] = m
    if cell in st.store:
        v = st.store[cell]
        st.store[cell] = VecV(v.len, v.cap, v.c.set(simp(d.off), val) if val is not None else Content(get0=f), v.tag)
std.mem_copy = mem_copy

_put = sized.put
def put(ex, st, p, val, what):
    cell = ('slots', p.block) if isinstance(p, Raw) else None
    if cell not in st.store:
        return _put(ex, st, p, val, what)
    old = st.mem[p.block]
    _put(ex, st, p, val, what)
    st.mem[p.block] = old
    v = st.store[cell]
    st.store[cell] = VecV(v.len, v.cap, v.c.set(simp(p.off), val), v.tag)
sized.put = put

_slice_of = std.slice_of
def slice_of(ex, st, r):
    if st.ghost.get('slots') and isinstance(r, Ref):
        v = sized.svec(ex, st, r)
        if v is not None and v.block is not None:
            return Agg('Slice', (SlotPtr(v.block), z3.IntVal(0), v.len))
    return _slice_of(ex, st, r)
std.slice_of = slice_of
_item_at = std.item_at
def item_at(it, i):
    if isinstance(it.fs[0], SlotPtr) and it.name == 'Iter':
        return Raw(it.fs[0].block, simp(i))
    return _item_at(it, i)
std.item_at = item_at
_user_meta = std.user_meta
def user_meta(ex, st, v):
    if slot_slice(v):
        return simp(v.fs[2] - v.fs[1])
    if isinstance(v, Ref):
        x = ex.read(st, ex.deref(v))
        if isinstance(x, sized.SVec) and st.ghost.get('slots'):
            return x.len
    return _user_meta(ex, st, v)
std.user_meta = user_meta

def slot_layout_of(ex, st, v):
    n = user_meta(ex, st, v)
    aT, sT = ex.talign['T']
    return mul(n, sT), aT
def layouts(*keys):
    def deco(f):
        for k in keys:
            old = R[k]
            def g(ex, st, fr, c, a, old=old):
                if slot_slice(a[0]) and isinstance(a[0].fs[0], SlotPtr):
                    return ret(st, f(*slot_layout_of(ex, st, a[0])))
                return old(ex, st, fr, c, a)
            g.label = k
            R[k] = g
    return deco
layouts('Layout::for_value')(lambda s, a: Agg('Layout', (s, a)))
layouts('mem::size_of_val')(lambda s, a: s)
layouts('mem::align_of_val')(lambda s, a: a)
def over_fat(*keys):
    return over_slice(*keys, when=lambda x: isinstance(x, Fat))
def over_slice(*keys, when=None):
    when = when or slot_slice
    def deco(f):
        for k in keys:
            old = R.get(k)
            def g(ex, st, fr, c, a, old=old, k=k):
                if when(a[0]):
                    return f(ex, st, fr, c, a)
                if old is None:
                    raise Unsupported(f'call of {k}')
                return old(ex, st, fr, c, a)
            g.label = k
            R[k] = g
        return f
    return deco
@over_slice('[]::as_ptr', '[]::as_mut_ptr', 'slice::as_ptr', 'slice::as_mut_ptr')
def _(ex, st, fr, c, a):
    return ret(st, Raw(a[0].fs[0].block, a[0].fs[1]))
@over_slice('drop_in_place', 'ptr::drop_in_place', '*mut::drop_in_place')
def _(ex, st, fr, c, a):
    sl = a[0]
    it = z3.Int(fresh_name('it$'))
    n = simp(sl.fs[2] - sl.fs[1])
    st.events.append(('loop', it, n, [('drop', sl.fs[0].block, simp(sl.fs[1] + it), None)]))
    return std.fork_unwind(ex, st)


def slot_clone(ex, st, p):
    """Cloning the element of a slot; it may panic."""
    u = user_panic(st)
    old = slot_get(st, p.block, p.off)
    ex.oblige(st, And(z3.BoolVal(st.blocks[p.block].live), p.off >= 0, p.off < st.blocks[p.block].size), 'the cloned element exists', 'mem')
    b = slots(st, z3.IntVal(1), ex.talign['T'][0], 'clone')
    val = CLONE(old)
    st.mem[b] = lambda o: val
    return [u, (st, 'ret', Own(b, None))]

def slots_copied(v, s, n, val, what='', props=('C12',)):
    k = z3.Int(fresh_name('k$'))
    v.check(s, z3.Implies(z3.And(k >= 0, k < n), slot_get(s, s.ghost['dest'], k) == val(k)), what, list(props), extra={'k': [k], 'i': [k]})

def emplace_slots(v, st, args, fn, only):
    return emplace(v, st, args, fn, slot_consumer(st, only))

def in_order(v, s, block, upto, props=P, src=lambda k: k):
    """The destructor calls of the path are those of elements 0..upto of the block, in order, each once."""
    from drops import subst_ev
    pos = z3.IntVal(0)
    for e in s.events:
        if e[0] == 'loop':
            _, it, n, evs = e
            ds = [x for x in evs if x[0].startswith('drop')]
            if not ds:
                continue
            if len(ds) != 1:
                v.fail(s, 'one destructor call per element', props)
                continue
            f = (lambda d, it: lambda i: subst_ev(d, it, i))(ds[0], it)
        elif e[0].startswith('drop'):
            n, f = z3.IntVal(1), (lambda d: lambda i: d)(e)
        else:
            continue
        i = z3.Int(fresh_name('i$'))
        d = f(i)
        k = simp(pos + i)
        v.check(s, z3.Implies(z3.And(i >= 0, i < n), And(z3.BoolVal(d[1] == block), d[2] == src(k))) if d[0] == 'drop' else z3.BoolVal(False), 'every element is dropped in its place, in order', props, extra={'i': [i], 'k': [k]})
        pos = simp(pos + n)
    if upto is None:
        return pos
    v.check(s, pos == upto, 'as many destructor calls as elements', props)
    return pos

def vec(name, method):
    def verify(v):
        st = start(v)
        st.ghost['slots'] = True
        st2, ref, w = sized.setup(v)
        st2.ghost.update(st.ghost)
        st = st2
        sT = v.ex.talign['T'][1]
        st.ghost['heap'] = (w.block,)
        sv = st.store.pop(('vec', 0))
        st.assume(mul(w.n, sT) <= mul(w.cap, sT), mul(w.n, sT) >= 0)
        mem = st.mem[w.block]
        fn = pick(v, method, 'Vec<T>', 'Emplacable<[]>')
        for s, k, r in emplace_slots(v, st, [sv], fn, v.part['user']):
            stage = common(v, s, k)
            slot_layout(v, s, w.n)
            if stage == 'taken':
                slots_copied(v, s, w.n, mem, 'the elements are moved out in order')
            if stage == 'dropped' or (stage == 'dropping' and k == 'ret'):
                in_order(v, s, w.block, w.n)
            elif stage == 'dropping':
                pos = in_order(v, s, w.block, None)
                v.check(s, pos <= w.n, 'no element is dropped twice', P)
            else:
                v.check(s, z3.BoolVal(not drops(s) and not any(e[0] == 'loop' and any(x[0] == 'drop' for x in e[3]) for e in s.events)), 'no element is dropped', P)
            if k == 'ret':
                v.check(s, z3.Implies(mul(w.cap, sT) > 0, z3.BoolVal(live_heap(s) == [])), 'the buffer of the Vec is released', ['C12'])
    Spec(name, ['C12', 'C04'], verify, parts=USES)
vec('Emplacable of Vec', 'into_emplacable')
vec('Emplacable from Vec', 'from')

# ------------------------------------------------------------------ borrowed slices
def copy_fns(v):
    l = v.prog.by_key.get('<T as CopyToBuf>::copy_to_buf') or []
    if not l:
        raise Unsupported('lost anchor: CopyToBuf::copy_to_buf')
    return l

def copy_setup(v):
    st = start(v)
    st.ghost['slots'] = True
    aT, sT = sized_T(v, st)
    n = z3.Int('n')
    st.assume(n >= 0, n <= UMAX, mul(n, sT) >= 0, mul(n, sT) <= IMAX)
    v.ex.small = [n]
    src = slots(st, n, aT, 'source')
    return st, n, src

def copy_to_buf():
    def verify(v):
        for f in copy_fns(v):
            st, n, src = copy_setup(v)
            dst = slots(st, n, v.ex.talign['T'][0], 'dest')
            slot_cell(st, dst, n)
            st.ghost['dest'] = dst
            mem = st.mem[src]
            v.ex.root, v.ex.scope_mod = f, f.name + '::'
            copies = re.search(r'\bCopy\b', v.prog.impl_text(f)) is not None
            want = mem if copies else (lambda k: CLONE(mem(k)))     # cloning a Copy value copies it
            for s, k, r in v.run(st, [Agg('Slice', (SlotPtr(src), z3.IntVal(0), n)), Raw(dst, z3.IntVal(0))], fn=f):
                v.check(s, z3.BoolVal(s.mem[src] is mem), 'the source is left as it was', ['C12'])
                if k != 'ret':
                    v.check(s, z3.BoolVal(s.cause == 'user' and not copies), 'panics only when a clone does', ['C12'])
                    continue
                v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', P)
                slots_copied(v, s, n, want, 'a copy of every element, in order')
    def apply_fn(ex, st, fr, c, a):
        sl, p = a
        if not (slot_slice(sl) and isinstance(p, Raw)):
            raise Unsupported('copy_to_buf of these')
        n = user_meta(ex, st, sl)
        ex.oblige(st, And(std.in_block(st, Raw(sl.fs[0].block, sl.fs[1]), n)), 'copy_to_buf: the source is alive', 'mem')
        ex.oblige(st, And(std.in_block(st, p, n)), 'copy_to_buf: room for every element', 'mem')
        u = user_panic(st)
        src, lo, d0, old = st.mem[sl.fs[0].block], sl.fs[1], p.off, st.mem[p.block]
        new = lambda o: z3.If(z3.And(o >= d0, o < d0 + n), CLONE(src(simp(o - d0 + lo))), old(o))
        if ('slots', p.block) in st.store:
            raise Unsupported('copy_to_buf into an element table')
        junk = u[0].fresh_fn('garbage', I, I, kind='k')
        u[0].mem[p.block] = lambda o: junk(o)
        st.mem[p.block] = new
        return [u, (st, 'ret', UNIT)]
    Spec('<T as CopyToBuf>::copy_to_buf', ['C12', 'C04'], verify, apply_fn)
copy_to_buf()

def borrowed_slice(name, method):
    def verify(v):
        st, n, src = copy_setup(v)
        mem = st.mem[src]
        fn = pick(v, method, '&[]', 'Emplacable<[]>')
        for s, k, r in emplace_slots(v, st, [Agg('Slice', (SlotPtr(src), z3.IntVal(0), n))], fn, v.part['user']):
            stage = common(v, s, k)
            slot_layout(v, s, n)
            v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', P)
            v.check(s, z3.BoolVal(s.mem[src] is mem and s.blocks[src].live), 'the source is left as it was', ['C12'])
            if stage == 'taken':
                slots_copied(v, s, n, lambda k: CLONE(mem(k)), 'a clone of every element, in order')
    Spec(name, ['C12', 'C04'], verify, parts=USES)
borrowed_slice('Emplacable of &[T]', 'into_emplacable')
borrowed_slice('Emplacable from &[T]', 'from')
