"""Contracts of the emplacable crate (emplacable/src/lib.rs): producers, consumers and adaptors of emplacables.
A user value is a block of bytes with an abstract metadata; a T held in arrays is counted in slots (one identity per T).
User emplacables may panic before, while (leaving garbage) or after writing; receivers may take, drop in place or ignore the value."""
import re, z3
from logic import *
from values import *
from program import head, parse_callee, Program
from spec import Spec, V, unwrapv
import std, exe, sized, mir
from std import R, RX, rx, model, ret, unwind
from ops import emplacable, consumer, own_value, fresh_meta, write_value, user_panic

def shape(t):
    """Head of a type and of its first argument: Emplacable<[T; N], F> -> Emplacable<[;]>."""
    t = t.strip()
    h = head(t)
    if h == '[;]' or h == '[]':
        return h
    i = t.find('<')
    if i < 0 or t.startswith('<'):
        return h
    a = mir.split_top(t[i + 1:mir.match(t, i)])
    a = [x for x in a if not x.startswith("'")]
    return h + '<' + (head(a[0]) if a else '') + '>'

def pick(v, method, param, retty=None):
    """The function `method` whose first parameter has this shape (and whose result has this one)."""
    l = [f for f in v.prog.fns if f.key and f.name.split('::')[-1] == method and '{closure' not in f.name
         and (shape(f.params[0][1]) if f.params else '') == param and (retty is None or shape(f.ret) == retty)]
    if len(l) != 1:
        raise Unsupported(f'lost anchor: {method}({param}) -> {retty}: {len(l)} functions')
    v.ex.root = l[0]
    v.ex.scope_mod = l[0].name + '::'
    return l[0]

def clo_of(e):
    f = e.fs[0]
    return f.fs[0] if isinstance(f, Agg) and f.name == 'ManuallyDrop' else f

# ------------------------------------------------------------------ std: Emplacable plumbing
@model('Emplacable::into_fn')
def _(ex, st, fr, c, a):
    return ret(st, clo_of(a[0]))
def mk_emp(f):
    return Agg('Emplacable', (Agg('ManuallyDrop', (f,)), PHANTOM))
def user_emplacable(st, **kw):
    return mk_emp(emplacable(st, **kw).fs[0])

@model('ManuallyDrop::drop')
def _(ex, st, fr, c, a):
    r = a[0]
    if isinstance(r, Ref):
        l = ('cell', r.cell, r.path + (('f', 0),))
        return ex.drop_value(st, ex.read(st, l), l)
    return std.drop_user(ex, st, r)

# ------------------------------------------------------------------ std: boxes and the global allocator's functions
def mk_box(p):
    return Agg('Box', (Agg('Unique', (p, PHANTOM)), Agg('Global', ())))
def box_ptr(b):
    return b.fs[0].fs[0]

def box_layout(ex, st, p):
    if isinstance(p.meta, Agg) or p.meta is None or p.meta.sort() == I:
        raise Unsupported('layout of this box')
    std.meta_facts(ex, st, p.meta)
    return SZ(p.meta), AL(p.meta)

def valid_box(ex, st, p, what):
    """The pointer owns a block of exactly the value's layout, or is dangling and aligned for a zero-sized value."""
    size, al = box_layout(ex, st, p)
    th = p.thin
    if th.block == 'null':
        g = z3.BoolVal(False)
    elif th.block is None:
        g = And(size == 0, th.off > 0, dv(al, th.off))
    else:
        b = st.blocks[th.block]
        g = And(z3.BoolVal(b.live and th.block in st.ghost.get('heap', ())), th.off == 0, b.size == size, b.align == al, size > 0)
    ex.oblige(st, g, what, 'alloc')

@model('Box::from_raw', 'Box::from_non_null')
def _(ex, st, fr, c, a):
    if not isinstance(a[0], Fat):
        raise Unsupported(f'Box::from_raw of {a[0]!r}')
    valid_box(ex, st, a[0], 'Box::from_raw: memory of exactly the layout of the value')
    return ret(st, mk_box(a[0]))
@model('Box::into_raw', 'Box::leak')
def _(ex, st, fr, c, a):
    return ret(st, box_ptr(a[0]))
@model('Box::into_pin', 'Pin::new_unchecked', 'Pin::into_inner_unchecked')
def _(ex, st, fr, c, a):
    return ret(st, Agg('Pin', (a[0],)))
@rx(r'<Box as Into>::into$')
def _(ex, st, fr, c, a):
    t = head(mir.split_top(c.trait[c.trait.index('<') + 1:-1])[0])
    if t not in ('Rc', 'Arc', 'Pin'):
        raise Unsupported(f'Box into {t}')
    return ret(st, Agg(t, (a[0],)))
@rx(r'<(Rc|Arc|Pin) as From>::from$')
def _(ex, st, fr, c, a):
    if not (isinstance(a[0], Agg) and a[0].name == 'Box'):
        raise Unsupported('From of this value')
    return ret(st, Agg(head(c.self_ty), (a[0],)))
OWNED = {'into_vec': 'Vec', 'into_string': 'String', 'into_boxed_bytes': 'BoxBytes', 'into_c_string': 'CString', 'into_os_string': 'OsString', 'into_path_buf': 'PathBuf'}
@rx(r'(\[\]|str|CStr|OsStr|Path|c_str|slice)::(into_vec|into_string|into_c_string|into_os_string|into_path_buf)$')
def _(ex, st, fr, c, a):
    if not (isinstance(a[0], Agg) and a[0].name == 'Box'):
        raise Unsupported(f'{c.method} of {a[0]!r}')
    return ret(st, Agg(OWNED[c.method], (a[0],)))

@model('alloc::alloc', 'alloc::alloc_zeroed')
def _(ex, st, fr, c, a):
    size, al = a[0].fs
    ex.oblige(st, size > 0, 'alloc: layout has a non-zero size', 'alloc')
    e = st.clone()
    b = std.new_block(st, size, al, 'heap')
    st.ghost['heap'] = st.ghost.get('heap', ()) + (b,)
    return [(st, 'ret', Raw(b, z3.IntVal(0))), (e, 'ret', Raw('null', z3.IntVal(0)))]
@model('alloc::dealloc')
def _(ex, st, fr, c, a):
    p = a[0].thin if isinstance(a[0], Fat) else a[0]
    size, al = a[1].fs
    if p.block in st.blocks and st.blocks[p.block].unit == 'T':
        b = st.blocks[p.block]
        aT, sT = ex.talign['T']
        ex.oblige(st, And(z3.BoolVal(b.live and p.block in st.ghost.get('heap', ())), p.off == 0, mul(b.size, sT) == size, al == aT), 'dealloc: the block is live and has exactly this size and alignment', 'alloc')
    else:
        p, b = std.check_block(ex, st, p, a[1], 'dealloc')
        if b is not None:
            ex.oblige(st, z3.BoolVal(p.block in st.ghost.get('heap', ())), 'dealloc: the block comes from the allocator', 'alloc')
    if p.block in st.blocks:
        b = st.blocks[p.block]
        st.blocks[p.block] = Block(b.size, b.align, False, b.unit)
        st.events.append(('dealloc', p.block))
    return ret(st)

def drop_box(ex, st, p):
    """Destroys the value (which may panic) and frees the memory either way."""
    out = []
    for s, k, _ in std.drop_user(ex, st, p):
        b = p.thin.block
        if b in s.blocks:
            blk = s.blocks[b]
            ex.oblige(s, z3.BoolVal(blk.live), 'dropped Box owns its memory', 'alloc')
            s.blocks[b] = Block(blk.size, blk.align, False, blk.unit)
            s.events.append(('dealloc', b))
        out.append((s, k, UNIT))
    return out

def drop_hook(ex, st, v, loc):
    if v.name == 'Box':
        return drop_box(ex, st, box_ptr(v))
    return None

# ------------------------------------------------------------------ std: MaybeUninit
@model('MaybeUninit::uninit')
def _(ex, st, fr, c, a):
    t = parse_targ(c)
    if 'storage' in st.ghost:
        m = st.ghost['storage']
        return ret(st, Agg('MaybeUninit', (Own(std.new_block(st, SZ(m), AL(m), 'storage'), m),)))
    if t == 'T':
        aT, sT = ex.talign['T']
        b = std.new_block(st, z3.IntVal(1), aT, 'uninit')
        st.blocks[b] = Block(z3.IntVal(1), aT, True, 'T')
        return ret(st, Agg('MaybeUninit', (Own(b, st.ghost.get('metaT')),)))
    return ret(st, Agg('MaybeUninit', (UNINIT,)))
class Uninit:
    def __repr__(self):
        return 'Uninit'
UNINIT = Uninit()
def parse_targ(c):
    m = re.search(r'MaybeUninit::<(.*)>', c.self_ty or '')
    return m.group(1).strip() if m else None
@model('MaybeUninit::new')
def _(ex, st, fr, c, a):
    return ret(st, Agg('MaybeUninit', (a[0],)))
@model('MaybeUninit::write')
def _(ex, st, fr, c, a):
    r = a[0]
    cur = ex.read(st, ex.deref(r)).fs[0]
    if isinstance(cur, Own):
        raise Unsupported('write of a user value')
    ex.write(st, ('cell', r.cell, r.path), Agg('MaybeUninit', (a[1],)))
    return ret(st, Ref(r.cell, r.path + (('f', 0),)))
@model('MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr')
def _(ex, st, fr, c, a):
    x = ex.read(st, ex.deref(a[0])).fs[0]
    if not isinstance(x, Own):
        raise Unsupported('address of this MaybeUninit')
    return ret(st, Raw(x.block, z3.IntVal(0)))
@model('MaybeUninit::assume_init', 'MaybeUninit::assume_init_read')
def _(ex, st, fr, c, a):
    m = ex.read(st, ex.deref(a[0])) if isinstance(a[0], Ref) else a[0]
    x = m.fs[0]
    if x is UNINIT:
        ex.oblige(st, z3.BoolVal(False), 'assume_init: the value has been written', 'mem')
        raise Unsupported('uninitialised value')
    return ret(st, x)

# ------------------------------------------------------------------ consumers of emplacables
def live_heap(s):
    return [b for b in s.ghost.get('heap', ()) if s.blocks[b].live]

BEH = tuple({'user': u} for u in ('placed', 'placed-panic', 'before', 'garbage'))

def drops(s):
    return [e for e in s.events if e[0] == 'drop']

def built(v, s, p, what, props):
    """p is a pointer to the emplaced value in memory of its own layout."""
    m, val = s.ghost['new']
    v.check(s, p.meta == m, what + 'metadata of the value', props)
    b = z3.Int(fresh_name('b$'))
    th = p.thin
    if th.block is None or th.block == 'null':
        v.check(s, And(z3.BoolVal(th.block is None), SZ(m) == 0, th.off > 0, dv(AL(m), th.off)), what + 'dangling and aligned only for a zero-sized value', props)
    else:
        k = s.blocks[th.block]
        v.check(s, And(z3.BoolVal(k.live), th.off == 0, k.size == SZ(m), k.align == AL(m)), what + 'memory of exactly the layout of the value', props)
        v.check(s, z3.Implies(z3.And(b >= 0, b < SZ(m)), s.mem[th.block](b) == val(b)), what + 'bytes of the value', props, extra={'b': [b], 'o': [b]})
    v.check(s, z3.BoolVal([x for x in live_heap(s) if x != th.block] == []), what + 'nothing else stays allocated', props)

def start(v):
    st = v.state()
    st.ghost['drop_agg'] = drop_hook
    return st

def unbox(r, wraps):
    for w in wraps:
        if not (isinstance(r, Agg) and r.name == w):
            raise Unsupported(f'not a {w}: {r!r}')
        r = r.fs[0]
    if not (isinstance(r, Agg) and r.name == 'Box'):
        raise Unsupported(f'not a Box: {r!r}')
    return box_ptr(r)

def into_box(name, method, param, retty, wraps, props=('C13',), metakind=None):
    """Functions that build a box (or what a box turns into) from an emplacable."""
    props = list(props)
    def verify(v):
        st = start(v)
        fn = pick(v, method, param, retty)
        u = v.part['user']
        for s, k, r in v.run(st, [user_emplacable(st, only=u)], fn=fn):
            v.check(s, z3.BoolVal(len(drops(s)) == 0), 'the value is not destroyed', props + ['C04'])
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out', props)
                if s.ghost['stage'] != 'placed':
                    v.check(s, z3.BoolVal(live_heap(s) == []), 'panic while producing the value: its memory is released', props + ['C08'])
                continue
            v.check(s, z3.BoolVal(s.ghost['stage'] == 'placed'), 'returns only with a value', props)
            built(v, s, unbox(r, wraps), '', props)
    def apply_fn(ex, st, fr, c, a):
        return box_with(ex, st, clo_of(a[0]), wraps)
    return Spec(name, props + ['C08'], verify, apply_fn if method == 'box_new_with' else None, parts=BEH)

def box_with(ex, st, f, wraps=()):
    """box_new_with as callers see it: what the emplacable's value is, in a box of its own; or a panic, with nothing left behind."""
    if not isinstance(f, UserFn):
        raise Unsupported('box of this emplacable')
    out = []
    m = fresh_meta(st)
    val = st.fresh_fn('newval', I, I, kind='.')
    st.ghost['new'] = (m, val)
    for stage in ('before', 'garbage', 'reserve', 'placed-panic'):
        s = st.clone()
        s.ghost['stage'] = {'placed-panic': 'placed'}.get(stage, stage)
        s.cause = 'reserve' if stage == 'reserve' else 'user'
        out.append((s, 'unwind', None))
    for s, t in ex.split(st, SZ(m) > 0):
        s.ghost['stage'] = 'placed'
        if t:
            b = std.new_block(s, SZ(m), AL(m), 'heap', content=val)
            s.ghost['heap'] = s.ghost.get('heap', ()) + (b,)
            p = Raw(b, z3.IntVal(0))
        else:
            p = std.dangling(s, AL(m))
        out.append((s, 'ret', mk_box(Fat(p, m))))
    return out

into_box('box_new_with', 'box_new_with', 'Emplacable<T>', 'Box<T>', ())
into_box('box_pin_with', 'box_pin_with', 'Emplacable<T>', 'Pin<Box>', ('Pin',))
into_box('rc_new_with', 'rc_new_with', 'Emplacable<T>', 'Rc<T>', ('Rc',))
into_box('rc_pin_with', 'rc_pin_with', 'Emplacable<T>', 'Pin<Rc>', ('Pin', 'Rc'))
into_box('arc_new_with', 'arc_new_with', 'Emplacable<T>', 'Arc<T>', ('Arc',))
into_box('arc_pin_with', 'arc_pin_with', 'Emplacable<T>', 'Pin<Arc>', ('Pin', 'Arc'))
into_box('Rc from Emplacable', 'from', 'Emplacable<T>', 'Rc<T>', ('Rc',))
into_box('Arc from Emplacable', 'from', 'Emplacable<T>', 'Arc<T>', ('Arc',))
into_box('Vec from Emplacable', 'from', 'Emplacable<[]>', 'Vec<T>', ('Vec',))
into_box('String from Emplacable', 'from', 'Emplacable<str>', 'String', ('String',))
into_box('CString from Emplacable', 'from', 'Emplacable<CStr>', 'CString', ('CString',))
into_box('OsString from Emplacable', 'from', 'Emplacable<OsStr>', 'OsString', ('OsString',))
into_box('PathBuf from Emplacable', 'from', 'Emplacable<Path>', 'PathBuf', ('PathBuf',))
into_box('Emplacable::into_vec', 'into_vec', 'Emplacable<[]>', 'Vec<T>', ('Vec',))
into_box('Emplacable::into_string', 'into_string', 'Emplacable<str>', 'String', ('String',))

# From implementations of this crate behind Into::into
@rx(r'<Emplacable as Into>::into$')
def _(ex, st, fr, c, a):
    target = mir.split_top(c.trait[c.trait.index('<') + 1:-1])[0]
    l = [f for f in ex.prog.fns if f.key and f.name.endswith('>::from') and f.params and shape(f.params[0][1]) == shape(c.self_ty) and shape(f.ret) == shape(target)]
    if len(l) != 1:
        raise Unsupported(f'conversion {c.self_ty} -> {target}')
    ex.inlined.add(l[0].key)
    return ex.run_fn(l[0], a, st)

# ------------------------------------------------------------------ boxing values
def boxed(name, wraps, retty):
    def verify(v):
        st = start(v)
        own, m, mem = own_value(st)
        st.ghost['new'] = (m, mem)
        fn = pick(v, name, 'T', retty)
        for s, k, r in v.run(st, [own], fn=fn):
            if k != 'ret':
                v.check(s, z3.BoolVal(s.cause == 'reserve'), 'panics only when memory runs out', ['C13'])
                v.check(s, z3.BoolVal(live_heap(s) == []), 'panic: nothing stays allocated', ['C13'])
                continue
            v.check(s, z3.BoolVal(len(drops(s)) == 0), 'the value is not destroyed', ['C13', 'C04'])
            built(v, s, unbox(r, wraps), '', ['C13'])
    Spec(name, ['C13'], verify)
for _n, _w, _r in (('box_new', (), 'Box<T>'), ('box_pin', ('Pin',), 'Pin<Box>'), ('rc_new', ('Rc',), 'Rc<T>'), ('rc_pin', ('Pin', 'Rc'), 'Pin<Rc>'),
                   ('arc_new', ('Arc',), 'Arc<T>'), ('arc_pin', ('Pin', 'Arc'), 'Pin<Arc>')):
    boxed(_n, _w, _r)
