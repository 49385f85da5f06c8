"""Assumed contracts of the standard library (the trusted part of the specification)."""
import re, z3, itertools
from logic import *
from values import *
from program import head, parse_callee

R = {}
RX = []

def model(*keys):
    def deco(f):
        for k in keys:
            R[k] = f
        f.label = keys[0]
        return f
    return deco

def rx(pat):
    def deco(f):
        RX.append((re.compile(pat), f))
        f.label = pat
        return f
    return deco

def ret(st, v=UNIT):
    return [(st, 'ret', v)]

def unwind(st, cause):
    st.cause = cause
    return [(st, 'unwind', None)]

class Models:
    def lookup(self, c):
        f = R.get(c.key)
        if f is not None:
            return f
        for p, f in RX:
            if p.match(c.key):
                return f
        return None
    def const(self, ex, st, fr, t):
        if t.endswith('::Global') or t == 'Global':
            return Agg('Global', ())
        return None
    def ptr_add(self, ex, st, a, b):
        return ptr_add(ex, st, a, b)
    def drop_user(self, ex, st, ptr):
        return drop_user(ex, st, ptr)
    def drop_userfn(self, ex, st, v):
        st.events.append(('drop_fn', v.name))
        if v.data and v.data.get('drop'):
            return v.data['drop'](ex, st, v)
        s2 = st.clone()
        s2.cause = 'user'
        return ret(st) + [(s2, 'unwind', None)]
    def drop_vec(self, ex, st, v):
        h = st.ghost.get('drop_vec')
        if h:
            return h(ex, st, v)
        st.events.append(('dropvec', v))
        return ret(st)
    def drop_agg(self, ex, st, v, loc):
        h = st.ghost.get('drop_agg')
        if h:
            r = h(ex, st, v, loc)
            if r is not None:
                return r
        if v.name == 'Iter':
            # by-value iterators drop what is left (contents are plain data here) and release the table
            if v.var == 'val':
                st.events.append(('dropvec', v.fs[0]))
            return ret(st)
        if v.name in ('Option', 'Result', '(..)', 'Array'):
            return None
        return None

def fork_unwind(ex, st, v=UNIT, cause='user'):
    s2 = st.clone()
    s2.cause = cause
    return [(st, 'ret', v), (s2, 'unwind', None)]

def drop_user(ex, st, ptr):
    """Runs the destructor of the user value at ptr: it may panic; the value counts as destroyed either way."""
    st.events.append(('drop', ptr.thin.block if isinstance(ptr, Fat) else ptr.block, ptr.thin.off if isinstance(ptr, Fat) else ptr.off, ptr.meta if isinstance(ptr, Fat) else None))
    return fork_unwind(ex, st)

# ------------------------------------------------------------------ integers
@model('usize::checked_add')
def _(ex, st, fr, c, a):
    return [(s, 'ret', some(a[0] + a[1]) if t else NONE) for s, t in ex.split(st, a[0] + a[1] < W)]
@model('usize::checked_sub')
def _(ex, st, fr, c, a):
    return [(s, 'ret', some(simp(a[0] - a[1])) if t else NONE) for s, t in ex.split(st, a[0] >= a[1])]
@model('usize::checked_mul')
def _(ex, st, fr, c, a):
    p = ex.raw('Mul', a[0], a[1])
    return [(s, 'ret', some(p) if t else NONE) for s, t in ex.split(st, p < W)]
@model('usize::unchecked_add')
def _(ex, st, fr, c, a):
    ex.oblige(st, a[0] + a[1] < W, 'unchecked_add does not overflow', 'arith')
    return ret(st, a[0] + a[1])
@model('usize::unchecked_sub')
def _(ex, st, fr, c, a):
    ex.oblige(st, a[0] >= a[1], 'unchecked_sub does not underflow', 'arith')
    return ret(st, a[0] - a[1])
@model('usize::unchecked_mul')
def _(ex, st, fr, c, a):
    p = ex.raw('Mul', a[0], a[1])
    ex.oblige(st, p < W, 'unchecked_mul does not overflow', 'arith')
    return ret(st, p)
@model('usize::saturating_sub')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[0] - a[1] if t else z3.IntVal(0)) for s, t in ex.split(st, a[0] >= a[1])]
@model('usize::saturating_add')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[0] + a[1] if t else z3.IntVal(UMAX)) for s, t in ex.split(st, a[0] + a[1] < W)]
@model('usize::saturating_mul')
def _(ex, st, fr, c, a):
    p = ex.raw('Mul', a[0], a[1])
    return [(s, 'ret', p if t else z3.IntVal(UMAX)) for s, t in ex.split(st, p < W)]
@model('usize::wrapping_add')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[0] + a[1] if t else a[0] + a[1] - W) for s, t in ex.split(st, a[0] + a[1] < W)]
@model('usize::wrapping_sub')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[0] - a[1] if t else a[0] - a[1] + W) for s, t in ex.split(st, a[0] >= a[1])]
@model('usize::checked_div')
def _(ex, st, fr, c, a):
    out = []
    for s, t in ex.split(st, a[1] != 0):
        if not t:
            out.append((s, 'ret', NONE))
            continue
        q = s.fresh('quot'); r = s.fresh('rem')
        s.assume(q >= 0, r >= 0, r < a[1], ex.raw('Mul', q, a[1]) + r == a[0], q <= a[0])
        out.append((s, 'ret', some(q)))
    return out
@model('usize::is_power_of_two')
def _(ex, st, fr, c, a):
    return ret(st, pw(a[0]))
@model('usize::next_power_of_two')
def _(ex, st, fr, c, a):
    x = a[0]
    ex.oblige(st, x <= IMAX + 1, 'next_power_of_two does not overflow', 'arith')
    p = st.fresh('npot')
    st.assume(pw(p), p >= x, z3.Implies(x <= 1, p == 1), z3.Implies(x > 1, p < 2 * x))
    return ret(st, p)
@model('usize::min', 'cmp::min_usize')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[0] if t else a[1]) for s, t in ex.split(st, a[0] <= a[1])]
@model('usize::max')
def _(ex, st, fr, c, a):
    return [(s, 'ret', a[1] if t else a[0]) for s, t in ex.split(st, a[0] <= a[1])]

def deref1(ex, st, v):
    return ex.read(st, ex.deref(v)) if not is_z(v) else v

@model('<usize as Ord>::cmp')
def _(ex, st, fr, c, a):
    x, y = deref1(ex, st, a[0]), deref1(ex, st, a[1])
    return ret(st, z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))
@model('<usize as PartialOrd>::partial_cmp')
def _(ex, st, fr, c, a):
    x, y = deref1(ex, st, a[0]), deref1(ex, st, a[1])
    return ret(st, some(z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))))

def total_cmp(ex, st, fr, c, a, b):
    """Ordering (Int) of two values of a crate type through the crate's own cmp; a, b references."""
    ty = c.self_ty or (c.targs[0] if c.targs else None)
    if ty is None:
        raise Unsupported('cmp of unknown type')
    if ty == 'usize':
        x, y = deref1(ex, st, a), deref1(ex, st, b)
        return [(st, 'ret', z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))]
    return ex.dispatch(fr, st, parse_callee(f'<{ty} as Ord>::cmp'), [a, b])

def partial(ex, st, fr, c, a, b):
    out = []
    for s, k, v in ex.dispatch(fr, st, parse_callee(f'<{c.self_ty} as PartialOrd>::partial_cmp'), [a, b]):
        if k != 'ret' or v.var != 'Some':
            raise Unsupported('partial_cmp')
        out.append((s, v.fs[0]))
    return out

for _op, _t in (('lt', lambda o: o == -1), ('le', lambda o: o <= 0), ('gt', lambda o: o == 1), ('ge', lambda o: o >= 0)):
    def _mk(t):
        def f(ex, st, fr, c, a):
            return [(s, 'ret', z3.simplify(t(o))) for s, o in partial(ex, st, fr, c, a[0], a[1])]
        return f
    _f = _mk(_t)
    _f.label = f'PartialOrd::{_op} (from partial_cmp)'
    RX.append((re.compile(r'<(ValidAlign|ValidSize|ValidSizeUnaligned) as PartialOrd>::' + _op + '$'), _f))

@rx(r'<(ValidAlign|ValidSize|ValidSizeUnaligned) as PartialEq>::ne$')
def _(ex, st, fr, c, a):
    return [(s, k, z3.Not(v)) for s, k, v in ex.dispatch(fr, st, parse_callee(f'<{c.self_ty} as PartialEq>::eq'), a)]

def temp(st, v):
    cell = ('tmp', next(_uid2))
    st.store[cell] = v
    return Ref(cell)
_uid2 = itertools.count()

def choose(st, cond, x, y, base):
    """x if cond else y, as one value: plain integers get a name."""
    c = z3.simplify(cond)
    if z3.is_true(c) or same(x, y):
        return x
    if z3.is_false(c):
        return y
    if is_z(x) and is_z(y) and x.sort() == I:
        r = st.fresh(base)
        st.assume(r == z3.If(c, x, y))
        return r
    if isinstance(x, Agg) and isinstance(y, Agg) and x.var == y.var and len(x.fs) == len(y.fs):
        return Agg(x.name, [choose(st, c, p, q, base) for p, q in zip(x.fs, y.fs)], x.var)
    return merge(c, x, y)

@model('cmp::max', 'cmp::min')
def _(ex, st, fr, c, a):
    out = []
    mx = c.method == 'max'
    ty = c.targs[0]
    def pick(s, le):
        return choose(s, le, a[1], a[0], 'max') if mx else choose(s, le, a[0], a[1], 'min')
    if is_z(a[0]):
        return ret(st, pick(st, a[0] <= a[1]))
    ra, rb = temp(st, a[0]), temp(st, a[1])
    c2 = parse_callee(f'<{ty} as Ord>::cmp')
    for s, k, o in ex.dispatch(fr, st, c2, [ra, rb]):
        s.store.pop(ra.cell, None); s.store.pop(rb.cell, None)
        if k != 'ret':
            out.append((s, k, o)); continue
        out.append((s, 'ret', pick(s, z3.simplify(o <= 0))))
    return out

@rx(r'<(ValidAlign|ValidSize|ValidSizeUnaligned|usize) as Ord>::(max|min)$')
def _(ex, st, fr, c, a):
    c2 = parse_callee(f'core::cmp::{c.method}::<{c.self_ty}>')
    return R['cmp::max'](ex, st, fr, c2, a)

@rx(r'<ValidAlign as Into>::into$')
def _(ex, st, fr, c, a):
    return ex.dispatch(fr, st, parse_callee('<usize as From<ValidAlign>>::from'), a)

# ------------------------------------------------------------------ Option / Result
def call1(ex, st, f, args):
    return ex.call_value(st, f, args)

@model('Option::map_or')
def _(ex, st, fr, c, a):
    o, d, f = a
    if o.var == 'None':
        return ret(st, d)
    return call1(ex, st, f, [o.fs[0]])
@model('Option::map_or_else')
def _(ex, st, fr, c, a):
    o, d, f = a
    return call1(ex, st, d, []) if o.var == 'None' else call1(ex, st, f, [o.fs[0]])
@model('Option::and_then')
def _(ex, st, fr, c, a):
    return ret(st, NONE) if a[0].var == 'None' else call1(ex, st, a[1], [a[0].fs[0]])
@model('Option::map')
def _(ex, st, fr, c, a):
    if a[0].var == 'None':
        return ret(st, NONE)
    return [(s, k, some(v) if k == 'ret' else None) for s, k, v in call1(ex, st, a[1], [a[0].fs[0]])]
@model('Option::ok_or')
def _(ex, st, fr, c, a):
    return ret(st, ok(a[0].fs[0]) if a[0].var == 'Some' else err(a[1]))
@model('Option::ok_or_else')
def _(ex, st, fr, c, a):
    if a[0].var == 'Some':
        return ret(st, ok(a[0].fs[0]))
    return [(s, k, err(v) if k == 'ret' else None) for s, k, v in call1(ex, st, a[1], [])]
@model('Option::unwrap_or')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0] if a[0].var == 'Some' else a[1])
@model('Option::unwrap_or_else')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0]) if a[0].var == 'Some' else call1(ex, st, a[1], [])
@model('Option::unwrap_or_default')
def _(ex, st, fr, c, a):
    if a[0].var == 'Some':
        return ret(st, a[0].fs[0])
    raise Unsupported('default')
@model('Option::copied', 'Option::cloned')
def _(ex, st, fr, c, a):
    return ret(st, NONE if a[0].var == 'None' else some(deref1(ex, st, a[0].fs[0])))
@model('Option::unwrap_unchecked')
def _(ex, st, fr, c, a):
    if a[0].var == 'None':
        ex.oblige(st, z3.BoolVal(False), 'unwrap_unchecked is not called on None', 'pre')
        return []
    return ret(st, a[0].fs[0])
@model('Option::unwrap', 'Option::expect')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0]) if a[0].var == 'Some' else unwind(st, 'panic: unwrap of None')
@model('Option::is_some')
def _(ex, st, fr, c, a):
    return ret(st, z3.BoolVal(deref1(ex, st, a[0]).var == 'Some'))
@model('Option::is_none')
def _(ex, st, fr, c, a):
    return ret(st, z3.BoolVal(deref1(ex, st, a[0]).var == 'None'))
@model('Option::take')
def _(ex, st, fr, c, a):
    l = ex.deref(a[0])
    v = ex.read(st, l)
    ex.write(st, l, NONE)
    return ret(st, v)
@rx(r'<Option as Try>::branch$')
def _(ex, st, fr, c, a):
    v = a[0]
    return ret(st, Agg('ControlFlow', (v.fs[0],), 'Continue') if v.var == 'Some' else Agg('ControlFlow', (NONE,), 'Break'))
@rx(r'<Result as Try>::branch$')
def _(ex, st, fr, c, a):
    v = a[0]
    return ret(st, Agg('ControlFlow', (v.fs[0],), 'Continue') if v.var == 'Ok' else Agg('ControlFlow', (v,), 'Break'))
@rx(r'<Option as FromResidual>::from_residual$')
def _(ex, st, fr, c, a):
    return ret(st, NONE)
@rx(r'<Result as FromResidual>::from_residual$')
def _(ex, st, fr, c, a):
    m = re.match(r'<(.*) as FromResidual<(.*)>>', c.text)
    e = a[0].fs[0]
    if isinstance(e, Opaque):
        e = Agg('TryReserveError', (e,))
    return ret(st, err(e))
@rx(r'<(Option|Result) as Try>::from_output$')
def _(ex, st, fr, c, a):
    return ret(st, some(a[0]) if c.key.startswith('<Option') else ok(a[0]))
@model('Result::and_then')
def _(ex, st, fr, c, a):
    return call1(ex, st, a[1], [a[0].fs[0]]) if a[0].var == 'Ok' else ret(st, a[0])
@model('Result::map')
def _(ex, st, fr, c, a):
    if a[0].var != 'Ok':
        return ret(st, a[0])
    return [(s, k, ok(v) if k == 'ret' else None) for s, k, v in call1(ex, st, a[1], [a[0].fs[0]])]
@model('Result::map_err')
def _(ex, st, fr, c, a):
    if a[0].var == 'Ok':
        return ret(st, a[0])
    return [(s, k, err(v) if k == 'ret' else None) for s, k, v in call1(ex, st, a[1], [a[0].fs[0]])]
@model('Result::is_ok')
def _(ex, st, fr, c, a):
    return ret(st, z3.BoolVal(deref1(ex, st, a[0]).var == 'Ok'))
@model('Result::is_err')
def _(ex, st, fr, c, a):
    return ret(st, z3.BoolVal(deref1(ex, st, a[0]).var == 'Err'))
@model('Result::ok')
def _(ex, st, fr, c, a):
    return ret(st, some(a[0].fs[0]) if a[0].var == 'Ok' else NONE)
@model('Result::unwrap', 'Result::expect')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0]) if a[0].var == 'Ok' else unwind(st, 'panic: unwrap of Err')
@model('bool::then')
def _(ex, st, fr, c, a):
    out = []
    for s, t in ex.split(st, a[0]):
        if not t:
            out.append((s, 'ret', NONE))
        else:
            out += [(s2, k, some(v) if k == 'ret' else None) for s2, k, v in call1(ex, s, a[1], [])]
    return out
@model('bool::then_some')
def _(ex, st, fr, c, a):
    return [(s, 'ret', some(a[1]) if t else NONE) for s, t in ex.split(st, a[0])]

# ------------------------------------------------------------------ panics
@model('panic', 'panic_fmt', 'panicking::panic', 'panicking::panic_fmt', 'assert_failed', 'panicking::assert_failed', 'panic_display', 'unreachable_display', 'panic_explicit',
       'panic_str_literal')
def _(ex, st, fr, c, a):
    m = a[0].tag if a and isinstance(a[0], Opaque) else 'panic'
    return unwind(st, 'panic: ' + m)
@model('handle_alloc_error', 'alloc::handle_alloc_error')
def _(ex, st, fr, c, a):
    return unwind(st, 'reserve')
@rx(r'(Arguments|Argument|rt)::new_\w+$')
def _(ex, st, fr, c, a):
    return ret(st, Opaque('fmt'))

# ------------------------------------------------------------------ mem, ManuallyDrop, references
@model('mem::forget', 'forget_unsized', 'mem::forget_unsized', 'forget')
def _(ex, st, fr, c, a):
    return ret(st)
@model('mem::drop')
def _(ex, st, fr, c, a):
    return ex.drop_value(st, a[0], None)
@model('ManuallyDrop::new')
def _(ex, st, fr, c, a):
    return ret(st, Agg('ManuallyDrop', (a[0],)))
@model('ManuallyDrop::take')
def _(ex, st, fr, c, a):
    return ret(st, ex.read(st, ex.deref(a[0])).fs[0])
@model('ManuallyDrop::into_inner')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0])
@rx(r'<ManuallyDrop as (Deref|DerefMut)>::deref(_mut)?$')
def _(ex, st, fr, c, a):
    r = a[0]
    return ret(st, ex.ref_of(st, ('cell', r.cell, r.path + (('f', 0),))))
@model('mem::size_of')
def _(ex, st, fr, c, a):
    return ret(st, ex.size_of(st, fr, c.targs[0]))
@model('mem::align_of')
def _(ex, st, fr, c, a):
    return ret(st, ex.align_of(st, fr, c.targs[0]))

def user_meta(ex, st, v):
    if isinstance(v, Fat):
        return v.meta
    raise Unsupported(f'metadata of {v!r}')

def meta_facts(ex, st, m):
    st.assume(pw(AL(m)), SZ(m) >= 0, dv(AL(m), SZ(m)), pad(SZ(m), AL(m)) <= IMAX, SZ(m) <= IMAX)
    ta = st.ghost.get('talign')
    if ta is not None:
        st.assume(AL(m) == ta)

@model('mem::size_of_val')
def _(ex, st, fr, c, a):
    m = user_meta(ex, st, a[0])
    meta_facts(ex, st, m)
    return ret(st, SZ(m))
@model('mem::align_of_val')
def _(ex, st, fr, c, a):
    m = user_meta(ex, st, a[0])
    meta_facts(ex, st, m)
    return ret(st, AL(m))
@model('ptr::metadata', 'metadata')
def _(ex, st, fr, c, a):
    return ret(st, user_meta(ex, st, a[0]))
@model('ptr::from_raw_parts', 'ptr::from_raw_parts_mut', 'NonNull::from_raw_parts')
def _(ex, st, fr, c, a):
    return ret(st, Fat(a[0].thin if isinstance(a[0], Fat) else a[0], a[1]))
@model('MetadataRemainder::as_metadata')
def _(ex, st, fr, c, a):
    return ret(st, asmeta(a[0], vsu_of(a[1])))
@rx(r'<.*Remainder as MetadataRemainder>::as_metadata$')
def _(ex, st, fr, c, a):
    return ret(st, asmeta(a[0], vsu_of(a[1])))
@rx(r'<.*Remainder as MetadataRemainder>::from_metadata$')
def _(ex, st, fr, c, a):
    return ret(st, frommeta(a[0]))

def vsu_of(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v

# ------------------------------------------------------------------ pointers
@model('*mut::cast', '*const::cast', 'NonNull::cast', '*mut::cast_const', '*const::cast_mut', 'NonNull::as_ptr', 'NonNull::new_unchecked', 'NonNull::as_ref', 'NonNull::as_mut',
       'Unique::as_ptr', '*mut::cast_mut')
def _(ex, st, fr, c, a):
    v = a[0]
    if c.method == 'cast' and isinstance(v, Fat) and c.targs and (ex.thin_target('*mut ' + c.targs[0]) or c.targs[0] in ('u8', '()')):
        v = v.thin
    return ret(st, v)
@model('*mut::is_null', '*const::is_null')
def _(ex, st, fr, c, a):
    v = a[0].thin if isinstance(a[0], Fat) else a[0]
    return ret(st, z3.BoolVal(isinstance(v, Raw) and v.block == 'null'))
@model('null', 'null_mut', 'ptr::null', 'ptr::null_mut')
def _(ex, st, fr, c, a):
    return ret(st, Raw('null', z3.IntVal(0)))
@model('ptr::without_provenance_mut', 'without_provenance_mut', 'ptr::without_provenance', 'without_provenance')
def _(ex, st, fr, c, a):
    return ret(st, Raw(None, a[0]))
@model('NonNull::len')
def _(ex, st, fr, c, a):
    return ret(st, a[0].meta)

def ptr_add(ex, st, p, n):
    p = p.thin if isinstance(p, Fat) else p
    if not isinstance(p, Raw):
        raise Unsupported(f'pointer arithmetic on {p!r}')
    if p.block is None or p.block == 'null':
        ex.oblige(st, n == 0, 'no arithmetic on a dangling pointer', 'mem')
        return p
    b = st.blocks[p.block]
    off = simp(p.off + n)
    ex.oblige(st, z3.And(off >= 0, off <= b.size), 'pointer stays inside its allocation', 'mem')
    return Raw(p.block, off)

@model('*mut::add', '*const::add', 'NonNull::add', '*mut::byte_add', '*const::byte_add')
def _(ex, st, fr, c, a):
    return ret(st, ptr_add(ex, st, a[0], a[1]))
@model('*mut::sub', '*const::sub')
def _(ex, st, fr, c, a):
    return ret(st, ptr_add(ex, st, a[0], -a[1]))

def in_block(st, p, n):
    if p.block is None or p.block == 'null':
        return n == 0
    b = st.blocks[p.block]
    if not b.live:
        return z3.BoolVal(False)
    return z3.Or(n == 0, z3.And(p.off >= 0, p.off + n <= b.size))

def mem_copy(ex, st, src, dst, n, overlap):
    src = src.thin if isinstance(src, Fat) else src
    dst = dst.thin if isinstance(dst, Fat) else dst
    ex.oblige(st, z3.And(n >= 0, in_block(st, src, n)), 'copy reads inside a live allocation', 'mem')
    ex.oblige(st, in_block(st, dst, n), 'copy writes inside a live allocation', 'mem')
    if not overlap and src.block == dst.block and src.block is not None:
        ex.oblige(st, z3.Or(n == 0, src.off + n <= dst.off, dst.off + n <= src.off), 'copy_nonoverlapping ranges are disjoint', 'mem')
    if dst.block is None or src.block is None:
        return
    sm, dm = st.mem[src.block], st.mem[dst.block]
    s0, d0 = src.off, dst.off
    def m(o):
        inside = simp(z3.And(o >= d0, o < d0 + n))
        if z3.is_true(inside):
            return sm(simp(o - d0 + s0))
        if z3.is_false(inside):
            return dm(o)
        return z3.If(inside, sm(simp(o - d0 + s0)), dm(o))
    st.mem[dst.block] = m
    st.events.append(('write', dst.block)) if False else None

@model('ptr::copy')
def _(ex, st, fr, c, a):
    mem_copy(ex, st, a[0], a[1], a[2], True)
    return ret(st)
@model('ptr::copy_nonoverlapping')
def _(ex, st, fr, c, a):
    mem_copy(ex, st, a[0], a[1], a[2], False)
    return ret(st)
@model('*mut::copy_from', '*mut::copy_from_nonoverlapping')
def _(ex, st, fr, c, a):
    mem_copy(ex, st, a[1], a[0], a[2], c.method == 'copy_from')
    return ret(st)
@model('*mut::copy_to', '*mut::copy_to_nonoverlapping', '*const::copy_to', '*const::copy_to_nonoverlapping')
def _(ex, st, fr, c, a):
    mem_copy(ex, st, a[0], a[1], a[2], c.method == 'copy_to')
    return ret(st)
@model('*mut::drop_in_place', 'drop_in_place', 'ptr::drop_in_place')
def _(ex, st, fr, c, a):
    p = a[0]
    if isinstance(p, Ref):
        v = ex.read(st, ('cell', p.cell, p.path))
        return ex.drop_value(st, v, ('cell', p.cell, p.path))
    th = p.thin if isinstance(p, Fat) else p
    if th.block is not None and th.block in st.blocks:
        ex.oblige(st, z3.BoolVal(st.blocks[th.block].live), 'drop_in_place target is allocated', 'mem')
    return drop_user(ex, st, p)

# ------------------------------------------------------------------ Layout and the global allocator
@model('Layout::from_size_align_unchecked')
def _(ex, st, fr, c, a):
    ex.oblige(st, z3.And(pw(a[1]), pad(a[0], a[1]) <= IMAX), 'layout is valid', 'layout')
    return ret(st, Agg('Layout', (a[0], a[1])))
@model('Layout::size')
def _(ex, st, fr, c, a):
    return ret(st, deref1(ex, st, a[0]).fs[0])
@model('Layout::align')
def _(ex, st, fr, c, a):
    return ret(st, deref1(ex, st, a[0]).fs[1])
@model('Layout::for_value')
def _(ex, st, fr, c, a):
    m = user_meta(ex, st, a[0])
    meta_facts(ex, st, m)
    return ret(st, Agg('Layout', (SZ(m), AL(m))))
@model('Layout::new')
def _(ex, st, fr, c, a):
    return ret(st, Agg('Layout', (ex.size_of(st, fr, c.targs[0]), ex.align_of(st, fr, c.targs[0]))))

_blk = itertools.count()
def new_block(st, size, align, name='blk', content=None):
    b = f'{name}{next(_blk)}'
    st.blocks[b] = Block(size, align, True)
    st.mem[b] = content if content is not None else st.fresh_fn('mem_' + b, I, I, kind='.')
    return b

def dangling(st, align):
    """The address of no memory, as Rust only promises it: not null and a multiple of the align."""
    addr = z3.Int(fresh_name('dangling$'))
    st.assume(addr > 0, dv(align, addr))
    return Raw(None, addr)

def alloc_err():
    return err(Agg('AllocError', ()))

@rx(r'<Global as Allocator>::(allocate|allocate_zeroed)$')
def _(ex, st, fr, c, a):
    size, align = a[1].fs
    out = []
    for s, t in ex.split(st, size > 0):
        if not t:
            out.append((s, 'ret', ok(Fat(dangling(s, align), z3.IntVal(0)))))
            continue
        e = s.clone()
        b = new_block(s, size, align)
        s.events.append(('alloc', b))
        out.append((s, 'ret', ok(Fat(Raw(b, z3.IntVal(0)), size))))
        e.events.append(('alloc_fail',))
        out.append((e, 'ret', alloc_err()))
    return out

def check_block(ex, st, p, lay, what):
    """The block at p was allocated with this layout and is live."""
    p = p.thin if isinstance(p, Fat) else p
    size, align = lay.fs
    if p.block is None or p.block == 'null':
        ex.oblige(st, z3.BoolVal(False), f'{what}: pointer comes from the allocator', 'alloc')
        return p, None
    b = st.blocks[p.block]
    ex.oblige(st, z3.And(z3.BoolVal(b.live), p.off == 0, b.size == size, b.align == align), f'{what}: block is live and has exactly this size and alignment', 'alloc')
    return p, b

def realloc(ex, st, p, old, new, grow):
    osz, oal = old.fs
    nsz, nal = new.fs
    what = 'grow' if grow else 'shrink'
    ex.oblige(st, nsz >= osz if grow else nsz <= osz, f'{what}: new size is {"not smaller" if grow else "not larger"}', 'alloc')
    out = []
    for s, t in ex.split(st, osz > 0):
        if not t:
            # nothing was allocated before
            for s2, t2 in ex.split(s, nsz > 0):
                if not t2:
                    out.append((s2, 'ret', ok(Fat(dangling(s2, nal), z3.IntVal(0)))))
                else:
                    e = s2.clone()
                    b = new_block(s2, nsz, nal)
                    s2.events.append(('alloc', b))
                    out.append((s2, 'ret', ok(Fat(Raw(b, z3.IntVal(0)), nsz))))
                    e.events.append(('alloc_fail',))
                    out.append((e, 'ret', alloc_err()))
            continue
        q, blk = check_block(ex, s, p, old, what)
        if blk is None:
            continue
        for s2, t2 in ex.split(s, nsz > 0):
            ob = s2.blocks[q.block]
            if not t2:
                s2.blocks[q.block] = Block(ob.size, ob.align, False)
                s2.events.append(('free', q.block))
                out.append((s2, 'ret', ok(Fat(dangling(s2, nal), z3.IntVal(0)))))
                continue
            e = s2.clone()
            e.events.append(('alloc_fail',))
            out.append((e, 'ret', alloc_err()))
            om = s2.mem[q.block]
            b = new_block(s2, nsz, nal)
            junk = s2.mem[b]
            keep = osz if grow else nsz
            s2.mem[b] = lambda o: z3.If(z3.And(o >= 0, o < keep), om(o), junk(o))
            s2.blocks[q.block] = Block(ob.size, ob.align, False)
            s2.events += [('alloc', b), ('free', q.block)]
            out.append((s2, 'ret', ok(Fat(Raw(b, z3.IntVal(0)), nsz))))
    return out

@rx(r'<Global as Allocator>::(grow|grow_zeroed)$')
def _(ex, st, fr, c, a):
    return realloc(ex, st, a[1], a[2], a[3], True)
@rx(r'<Global as Allocator>::shrink$')
def _(ex, st, fr, c, a):
    return realloc(ex, st, a[1], a[2], a[3], False)
@rx(r'<Global as Allocator>::deallocate$')
def _(ex, st, fr, c, a):
    out = []
    for s, t in ex.split(st, a[2].fs[0] > 0):
        if t:
            p, b = check_block(ex, s, a[1], a[2], 'deallocate')
            if b is not None:
                s.blocks[p.block] = Block(b.size, b.align, False)
                s.events.append(('free', p.block))
        out.append((s, 'ret', UNIT))
    return out

# ------------------------------------------------------------------ Vec (of plain data)
def vec(ex, st, r):
    v = ex.read(st, ex.deref(r))
    if not isinstance(v, VecV):
        raise Unsupported(f'expected a Vec, found {v!r}')
    return v

def slice_of(ex, st, r):
    """Slice record of a &[T] value or of a reference to a Vec."""
    if isinstance(r, Agg) and r.name == 'Slice':
        return r
    v = vec(ex, st, r)
    return Agg('Slice', (r, z3.IntVal(0), v.len))

@model('Vec::new')
def _(ex, st, fr, c, a):
    return ret(st, VecV(z3.IntVal(0), z3.IntVal(0), Content(get0=no_elem(ex, c.text))))
def no_elem(ex, text):
    """What lies behind the end of a Vec: something of the element type (never read without an obligation on the index)."""
    def get(k):
        import views
        m = re.search(r'\b(un)?aligned::ElementInfo<', text)
        if not m:
            raise Unsupported('element of an empty Vec')
        return views.elem_info(views.UN if m.group(1) else views.ALI, ex.prog, rem(k), end(k))
    rem, end = elem_fn('behindrem', I, Rem), elem_fn('behindend', I, I)
    return get
@model('Vec::len')
def _(ex, st, fr, c, a):
    return ret(st, vec(ex, st, a[0]).len)
@model('Vec::capacity')
def _(ex, st, fr, c, a):
    return ret(st, vec(ex, st, a[0]).cap)
@model('Vec::is_empty')
def _(ex, st, fr, c, a):
    return ret(st, vec(ex, st, a[0]).len == 0)
@model('Vec::pop')
def _(ex, st, fr, c, a):
    l = ex.deref(a[0])
    v = vec(ex, st, a[0])
    out = []
    for s, t in ex.split(st, v.len > 0):
        if not t:
            out.append((s, 'ret', NONE))
        else:
            n = simp(v.len - 1)
            ex.write(s, l, VecV(n, v.cap, v.c, v.tag))
            out.append((s, 'ret', some(v.c.get(n))))
    return out
@model('Vec::remove')
def _(ex, st, fr, c, a):
    l, v, i = ex.deref(a[0]), vec(ex, st, a[0]), a[1]
    out = []
    for s, t in ex.split(st, i < v.len):
        if not t:
            out += unwind(s, 'panic: Vec::remove out of range')
        else:
            x = v.c.get(i)
            oc = v.c
            nc = Content(get0=lambda k: merge(simp(k < i), oc.get(k), oc.get(simp(k + 1))))
            ex.write(s, l, VecV(simp(v.len - 1), v.cap, nc, v.tag))
            out.append((s, 'ret', x))
    return out
def vec_insert(ex, st, l, v, i, x):
    oc = v.c
    if same(simp(i), simp(v.len)):
        ex.write(st, l, VecV(simp(v.len + 1), v.cap, v.c.set(simp(i), x), v.tag))
        return
    def g(k):
        c1 = simp(k == i)
        if z3.is_true(c1):
            return x
        c2 = simp(k < i)
        if z3.is_true(c2):
            return oc.get(k)
        shifted = oc.get(simp(k - 1))
        r = shifted if z3.is_false(c2) else merge(c2, oc.get(k), shifted)
        return r if z3.is_false(c1) else merge(c1, x, r)
    n = simp(v.len + 1)
    ex.write(st, l, VecV(n, v.cap, Content(get0=g), v.tag))

def vec_reserve(ex, st, r, n, exact):
    """Reservation in a Vec: refused with everything unchanged, or at least what was asked for."""
    l, v = ex.deref(r), vec(ex, st, r)
    out = []
    fits = v.cap - v.len >= n
    if not z3.is_true(z3.simplify(fits)) and ex.feasible(st, z3.Not(fits)):
        e = st.clone()
        e.assume(z3.Not(fits))
        out.append((e, 'ret', err(Opaque('TryReserveError'))))
    nc = st.fresh('veccap')
    st.assume(nc >= v.len + n, nc <= UMAX, nc >= v.cap, z3.Implies(fits, nc == v.cap))
    if exact:
        st.assume(z3.Or(nc == v.cap, nc == v.len + n))
    ex.write(st, l, VecV(v.len, nc, v.c, v.tag))
    out.append((st, 'ret', ok(UNIT)))
    return out

@model('Vec::try_reserve')
def _(ex, st, fr, c, a):
    return vec_reserve(ex, st, a[0], a[1], False)
@model('Vec::try_reserve_exact')
def _(ex, st, fr, c, a):
    return vec_reserve(ex, st, a[0], a[1], True)
@model('Vec::reserve', 'Vec::reserve_exact')
def _(ex, st, fr, c, a):
    return [(s, 'ret', UNIT) if v.var == 'Ok' else (_cause(s, 'reserve'), 'unwind', None) for s, _, v in vec_reserve(ex, st, a[0], a[1], c.method.endswith('exact'))]
def _cause(s, x):
    s.cause = x
    return s
@model('Vec::shrink_to', 'Vec::shrink_to_fit')
def _(ex, st, fr, c, a):
    l, v = ex.deref(a[0]), vec(ex, st, a[0])
    m = a[1] if len(a) > 1 else z3.IntVal(0)
    # capacity drops to max(len, min) unless it is already not above min
    cap = st.fresh('veccap')
    st.assume(cap == z3.If(v.cap > m, z3.If(m >= v.len, m, v.len), v.cap))
    ex.write(st, l, VecV(v.len, cap, v.c, v.tag))
    return ret(st)
@model('Vec::push')
def _(ex, st, fr, c, a):
    l, v = ex.deref(a[0]), vec(ex, st, a[0])
    out = []
    for s, _, r in vec_reserve(ex, st, a[0], z3.IntVal(1), False):
        if r.var != 'Ok':
            s.cause = 'reserve'
            out.append((s, 'unwind', None))
            continue
        w = vec(ex, s, a[0])
        vec_insert(ex, s, l, w, w.len, a[1])
        out.append((s, 'ret', UNIT))
    return out
# The crate's own implementation for Vec of sized elements; its contract is proved in sized.py.
@rx(r'<Vec as UnsizedVecProvider>::(insert_unchecked|push_unchecked)$')
def _(ex, st, fr, c, a):
    l, v = ex.deref(a[0]), vec(ex, st, a[0])
    i, x = (a[1], a[2]) if c.method == 'insert_unchecked' else (v.len, a[1])
    ex.oblige(st, z3.And(v.len < v.cap, i >= 0, i <= v.len), f'{c.method}: room for one more, index in range', 'mem')
    vec_insert(ex, st, l, v, i, x)
    return ret(st)

@rx(r'<Vec as (Deref|DerefMut)>::deref(_mut)?$')
def _(ex, st, fr, c, a):
    return ret(st, slice_of(ex, st, a[0]))
@model('Vec::as_slice', 'Vec::as_mut_slice')
def _(ex, st, fr, c, a):
    return ret(st, slice_of(ex, st, a[0]))

def elem_ref(sl, i):
    r, lo, hi = sl.fs
    return Ref(r.cell, r.path + (('i', simp(lo + i)),))
def slice_len(sl):
    return simp(sl.fs[2] - sl.fs[1])
@model('[]::len')
def _(ex, st, fr, c, a):
    return ret(st, slice_len(slice_of(ex, st, a[0])))
@model('[]::is_empty')
def _(ex, st, fr, c, a):
    return ret(st, slice_len(slice_of(ex, st, a[0])) == 0)
@model('[]::last', '[]::last_mut')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    n = slice_len(sl)
    return [(s, 'ret', some(elem_ref(sl, n - 1)) if t else NONE) for s, t in ex.split(st, n > 0)]
@model('[]::first', '[]::first_mut')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    return [(s, 'ret', some(elem_ref(sl, z3.IntVal(0))) if t else NONE) for s, t in ex.split(st, slice_len(sl) > 0)]
@model('[]::get', '[]::get_mut')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    if not is_z(a[1]):
        raise Unsupported('get with a range')
    return [(s, 'ret', some(elem_ref(sl, a[1])) if t else NONE) for s, t in ex.split(st, a[1] < slice_len(sl))]
def range_slice(ex, st, sl, r):
    n = slice_len(sl)
    if r.name == 'RangeFrom':
        return z3.IntVal(0) + r.fs[0] <= n, Agg('Slice', (sl.fs[0], simp(sl.fs[1] + r.fs[0]), sl.fs[2]))
    if r.name == 'RangeTo':
        return r.fs[0] <= n, Agg('Slice', (sl.fs[0], sl.fs[1], simp(sl.fs[1] + r.fs[0])))
    if r.name == 'Range':
        return z3.And(r.fs[0] <= r.fs[1], r.fs[1] <= n), Agg('Slice', (sl.fs[0], simp(sl.fs[1] + r.fs[0]), simp(sl.fs[1] + r.fs[1])))
    if r.name == 'RangeFull':
        return z3.BoolVal(True), sl
    raise Unsupported(f'range {r!r}')
@model('[]::get_unchecked', '[]::get_unchecked_mut')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    if is_z(a[1]):
        ex.oblige(st, z3.And(a[1] >= 0, a[1] < slice_len(sl)), 'get_unchecked index is in range', 'mem')
        return ret(st, elem_ref(sl, a[1]))
    cond, v = range_slice(ex, st, sl, a[1])
    ex.oblige(st, cond, 'get_unchecked range is in range', 'mem')
    return ret(st, v)
@rx(r'<(Vec|\[\]) as (Index|IndexMut)>::index(_mut)?$')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    if is_z(a[1]):
        cond, v = a[1] < slice_len(sl), None
    else:
        cond, v = range_slice(ex, st, sl, a[1])
    out = []
    for s, t in ex.split(st, cond):
        out += ret(s, v if v is not None else elem_ref(sl, a[1])) if t else unwind(s, 'panic: index out of bounds')
    return out

# ------------------------------------------------------------------ iterators
def mk_iter(src, lo, hi, kind):
    return Agg('Iter', (src, lo, hi), kind)
@model('[]::iter')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    return ret(st, mk_iter(sl.fs[0], sl.fs[1], sl.fs[2], 'ref'))
@model('[]::iter_mut')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    return ret(st, mk_iter(sl.fs[0], sl.fs[1], sl.fs[2], 'mut'))
@rx(r'<Vec as UnsizedVecProvider>::iter(_mut)?$')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    return ret(st, mk_iter(sl.fs[0], sl.fs[1], sl.fs[2], 'mut' if c.method == 'iter_mut' else 'ref'))
@model('[]::array_windows', '[]::windows')
def _(ex, st, fr, c, a):
    sl = slice_of(ex, st, a[0])
    n = z3.IntVal(int(c.targs[0])) if c.method == 'array_windows' else a[1]
    if not is_const_int(n):
        raise Unsupported('windows of unknown size')
    out = []
    for s, t in ex.split(st, slice_len(sl) >= n):
        hi = simp(sl.fs[2] - n + 1) if t else sl.fs[1]
        out.append((s, 'ret', Agg('Windows', (sl.fs[0], sl.fs[1], hi, n))))
    return out
@rx(r'<(&mut \[\]|&\[\]|Iter|IterMut|IntoIter|Range|Map|Rev|Zip|Enumerate|Vec|&Vec|&mut Vec|ArrayWindows|Windows|Copied|Cloned|Take|(Unaligned|Aligned|Unsized)Iter(Mut)?) as IntoIterator>::into_iter$')
def _(ex, st, fr, c, a):
    v = a[0]
    if isinstance(v, VecV):
        return ret(st, mk_iter(v, z3.IntVal(0), v.len, 'val'))
    if isinstance(v, Agg) and v.name == 'Slice':
        return ret(st, mk_iter(v.fs[0], v.fs[1], v.fs[2], 'ref'))
    if isinstance(v, Ref):
        sl = slice_of(ex, st, v)
        return ret(st, mk_iter(sl.fs[0], sl.fs[1], sl.fs[2], 'ref'))
    return ret(st, v)

def item_at(it, i):
    src = it.fs[0]
    if it.name == 'Windows':
        return Agg('Slice', (src, simp(i), simp(i + it.fs[3])))
    if it.var == 'val':
        return src.c.get(i)
    return Ref(src.cell, src.path + (('i', simp(i)),))

BUILTIN = ('Iter', 'Windows', 'Range', 'Map', 'Rev', 'Zip', 'Enumerate')

def it_next(ex, st, loc, back=False):
    """-> [(state, 'ret', Option item)] advancing the iterator stored at loc."""
    it = ex.read(st, loc)
    if isinstance(it, Opaque) and it.tag == 'user iterator' and not back:
        from exe import Frame
        import mir
        return ex.dispatch(Frame(mir.Fn('it', [], '()')), st, parse_callee('<I as Iterator>::next'), [Ref(loc[1], loc[2])])
    if not isinstance(it, Agg):
        raise Unsupported(f'iterator {it!r}')
    if it.name in ('Iter', 'Windows'):
        lo, hi = it.fs[1], it.fs[2]
        out = []
        for s, t in ex.split(st, lo < hi):
            if not t:
                out.append((s, 'ret', NONE)); continue
            if back:
                ex.write(s, loc, it.with_(2, simp(hi - 1)))
                out.append((s, 'ret', some(item_at(it, simp(hi - 1)))))
            else:
                ex.write(s, loc, it.with_(1, simp(lo + 1)))
                out.append((s, 'ret', some(item_at(it, lo))))
        return out
    if it.name == 'Range':
        lo, hi = it.fs
        out = []
        for s, t in ex.split(st, lo < hi):
            if not t:
                out.append((s, 'ret', NONE)); continue
            if back:
                ex.write(s, loc, it.with_(1, simp(hi - 1)))
                out.append((s, 'ret', some(simp(hi - 1))))
            else:
                ex.write(s, loc, it.with_(0, simp(lo + 1)))
                out.append((s, 'ret', some(lo)))
        return out
    if it.name == 'Rev':
        return it_next(ex, st, (loc[0], loc[1], loc[2] + (('f', 0),)), not back)
    if it.name == 'Map':
        out = []
        for s, k, v in it_next(ex, st, (loc[0], loc[1], loc[2] + (('f', 0),)), back):
            if k != 'ret' or v.var == 'None':
                out.append((s, k, v)); continue
            f = Ref(loc[1], loc[2] + (('f', 1),)) if isinstance(it.fs[1], Clo) else it.fs[1]
            out += [(s2, k2, some(v2) if k2 == 'ret' else None) for s2, k2, v2 in ex.call_value(s, f, [v.fs[0]])]
        return out
    if it.name == 'Enumerate' and not back:
        out = []
        for s, k, v in it_next(ex, st, (loc[0], loc[1], loc[2] + (('f', 0),))):
            if k != 'ret' or v.var == 'None':
                out.append((s, k, v)); continue
            cur = ex.read(s, loc)
            n = cur.fs[1]
            ex.write(s, loc, cur.with_(1, simp(n + 1)))
            out.append((s, 'ret', some(tup(n, v.fs[0]))))
        return out
    if it.name == 'Zip' and not back:
        out = []
        for s, k, v in it_next(ex, st, (loc[0], loc[1], loc[2] + (('f', 0),))):
            if k != 'ret' or v.var == 'None':
                out.append((s, k, v)); continue
            for s2, k2, v2 in it_next(ex, s, (loc[0], loc[1], loc[2] + (('f', 1),))):
                if k2 != 'ret' or v2.var == 'None':
                    out.append((s2, k2, v2)); continue
                out.append((s2, 'ret', some(tup(v.fs[0], v2.fs[0]))))
        return out
    if it.name in ('Cloned', 'Copied'):
        out = []
        for s, k, v in it_next(ex, st, (loc[0], loc[1], loc[2] + (('f', 0),)), back):
            if k != 'ret' or v.var == 'None':
                out.append((s, k, v)); continue
            if it.name == 'Copied':
                out.append((s, 'ret', some(deref1(ex, s, v.fs[0])))); continue
            from exe import Frame
            import mir
            out += [(s2, k2, some(v2) if k2 == 'ret' else None) for s2, k2, v2 in
                    ex.dispatch(Frame(mir.Fn('it', [], '()')), s, parse_callee('<T as Clone>::clone'), [v.fs[0]])]
        return out
    if it.name == 'Take' and not back:
        out = []
        for s, t in ex.split(st, it.fs[1] > 0):
            if not t:
                out.append((s, 'ret', NONE)); continue
            ex.write(s, loc, it.with_(1, simp(it.fs[1] - 1)))
            out += it_next(ex, s, (loc[0], loc[1], loc[2] + (('f', 0),)))
        return out
    # an iterator of the crate: its own next
    from exe import Frame
    import mir
    c = parse_callee(f'<{it.name} as {"DoubleEndedIterator" if back else "Iterator"}>::{"next_back" if back else "next"}')
    return ex.dispatch(Frame(mir.Fn('it', [], '()')), st, c, [Ref(loc[1], loc[2])])

@rx(r'<(Iter|IterMut|IntoIter|Range|Map|Rev|Zip|Enumerate|ArrayWindows|Windows|Copied|Cloned|Take) as Iterator>::next$')
def _(ex, st, fr, c, a):
    return it_next(ex, st, ex.deref(a[0]))
@rx(r'<(Iter|IterMut|IntoIter|Range|Map|Rev|ArrayWindows|Windows) as DoubleEndedIterator>::next_back$')
def _(ex, st, fr, c, a):
    return it_next(ex, st, ex.deref(a[0]), back=True)
@rx(r'<(Iter|IterMut) as Iterator>::nth$')
def _(ex, st, fr, c, a):
    loc = ex.deref(a[0])
    it = ex.read(st, loc)
    lo, hi, n = it.fs[1], it.fs[2], a[1]
    out = []
    for s, t in ex.split(st, n < hi - lo):
        if t:
            ex.write(s, loc, it.with_(1, simp(lo + n + 1)))
            out.append((s, 'ret', some(item_at(it, simp(lo + n)))))
        else:
            ex.write(s, loc, it.with_(1, hi))
            out.append((s, 'ret', NONE))
    return out
@rx(r'<(Iter|IterMut) as DoubleEndedIterator>::nth_back$')
def _(ex, st, fr, c, a):
    loc = ex.deref(a[0])
    it = ex.read(st, loc)
    lo, hi, n = it.fs[1], it.fs[2], a[1]
    out = []
    for s, t in ex.split(st, n < hi - lo):
        if t:
            ex.write(s, loc, it.with_(2, simp(hi - n - 1)))
            out.append((s, 'ret', some(item_at(it, simp(hi - n - 1)))))
        else:
            ex.write(s, loc, it.with_(2, lo))
            out.append((s, 'ret', NONE))
    return out
@rx(r'<(Iter|IterMut) as ExactSizeIterator>::len$')
def _(ex, st, fr, c, a):
    it = deref1(ex, st, a[0])
    return ret(st, simp(it.fs[2] - it.fs[1]))
@rx(r'<(Iter|IterMut) as Iterator>::size_hint$')
def _(ex, st, fr, c, a):
    it = deref1(ex, st, a[0])
    n = simp(it.fs[2] - it.fs[1])
    return ret(st, tup(n, some(n)))
@rx(r'<(Iter|IterMut) as Iterator>::count$')
def _(ex, st, fr, c, a):
    return ret(st, simp(a[0].fs[2] - a[0].fs[1]))
@model('Iter::as_slice', 'IterMut::as_slice', 'IterMut::into_slice')
def _(ex, st, fr, c, a):
    it = a[0] if isinstance(a[0], Agg) else deref1(ex, st, a[0])
    return ret(st, Agg('Slice', it.fs))
@rx(r'<.* as Iterator>::(rev|enumerate|copied|cloned|by_ref|take)$')
def _(ex, st, fr, c, a):
    if c.method == 'rev':
        return ret(st, Agg('Rev', (a[0],)))
    if c.method == 'enumerate':
        return ret(st, Agg('Enumerate', (a[0], z3.IntVal(0))))
    if c.method in ('copied', 'cloned') and isinstance(a[0], Agg):
        # cloning plain data is copying it; anything else goes through the user's Clone
        it = a[0]
        plain = it.name in ('Iter', 'Rev') and c.method == 'copied' or it.name == 'Iter'
        return ret(st, Agg('Copied' if plain else 'Cloned', (it,)))
    if c.method == 'take' and (isinstance(a[0], Agg) or isinstance(a[0], Opaque) and a[0].tag == 'user iterator'):
        return ret(st, Agg('Take', (a[0], a[1])))
    raise Unsupported(c.method)
@rx(r'<.* as Iterator>::map$')
def _(ex, st, fr, c, a):
    return ret(st, Agg('Map', (a[0], a[1])))
@rx(r'<.* as Iterator>::zip$')
def _(ex, st, fr, c, a):
    b = a[1]
    if isinstance(b, Agg):
        return ret(st, Agg('Zip', (a[0], b)))
    if not c.targs:
        raise Unsupported('zip with a collection')
    return [(s, k, Agg('Zip', (a[0], v)) if k == 'ret' else v) for s, k, v in ex.dispatch(fr, st, parse_callee(f'<{c.targs[-1]} as IntoIterator>::into_iter'), [b])]

def cell(st, tag, v):
    k = (tag, next(_uid2))
    st.store[k] = v
    return ('cell', k, ())

def iter_loop(ex, st, it, state_vals, step, finish, label):
    """Runs `for x in it { step }` with carried values in cells; finish(state, cells) -> outcomes on exhaustion."""
    il = cell(st, 'iter', it)
    cells = [cell(st, 'acc', v) for v in state_vals]
    def body(s):
        evs = []
        for s2, k, v in it_next(ex, s, il):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            if v.var == 'None':
                evs.append(('done', s2)); continue
            for e in step(s2, v.fs[0], cells):
                evs.append(e)
        return evs
    out = []
    for e in ex.loop(st, body, label):
        if e[0] == 'done':
            out += finish(e[1], cells)
        elif e[0] == 'unwind':
            out.append((e[1], 'unwind', None))
        else:
            out.append((e[1], 'ret', e[2] if len(e) > 2 else None))
    for s, k, v in out:
        for c in [il] + cells:
            s.store.pop(c[1], None)
    return out

# loop events are ('kind', ..., state): the engine takes the state from the last position
def iter_loop2(ex, st, it, state_vals, step, finish, label):
    il = cell(st, 'iter', it)
    cells = [cell(st, 'acc', v) for v in state_vals]
    def body(s):
        evs = []
        for s2, k, v in it_next(ex, s, il):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            if v.var == 'None':
                evs.append(('done', s2)); continue
            evs += step(s2, v.fs[0], cells)
        return evs
    out = []
    for e in ex.loop(st, body, label):
        s = e[-1]
        if e[0] == 'done':
            out += finish(s, cells)
        elif e[0] == 'unwind':
            out.append((s, 'unwind', None))
        elif e[0] == 'break':
            out.append((s, 'ret', e[1]))
    for s, k, v in out:
        for c in [il] + cells:
            s.store.pop(c[1], None)
    return out

@rx(r'<.* as (Iterator|DoubleEndedIterator)>::(fold|rfold)$')
def _(ex, st, fr, c, a):
    it = a[0] if c.method == 'fold' else Agg('Rev', (a[0],))
    fc = cell(st, 'fn', a[2])
    def step(s, x, cells):
        evs = []
        acc = ex.read(s, cells[0])
        for s2, k, v in ex.call_value(s, Ref(fc[1]) if isinstance(a[2], Clo) else a[2], [acc, x]):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            ex.write(s2, cells[0], v)
            evs.append(('back', s2))
        return evs
    return iter_loop2(ex, st, it, [a[1]], step, lambda s, cells: ret(s, ex.read(s, cells[0])), 'fold')

@rx(r'<.* as Iterator>::try_fold$')
def _(ex, st, fr, c, a):
    ity = c.self_ty
    it = deref1(ex, st, a[0])
    loc0 = ex.deref(a[0])
    fc = cell(st, 'fn', a[2])
    rty = head(c.targs[-1]) if c.targs else 'Option'
    good, wrap = ('Some', some) if rty == 'Option' else ('Ok', ok)
    def step(s, x, cells):
        evs = []
        acc = ex.read(s, cells[0])
        for s2, k, v in ex.call_value(s, Ref(fc[1]) if isinstance(a[2], Clo) else a[2], [acc, x]):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            if v.var == good:
                ex.write(s2, cells[0], v.fs[0])
                evs.append(('back', s2))
            else:
                evs.append(('break', v, s2))
        return evs
    return iter_loop2(ex, st, it, [a[1]], step, lambda s, cells: ret(s, wrap(ex.read(s, cells[0]))), 'try_fold')

def iter_in_place(ex, st, loc, extra, step, finish, label):
    """Like iter_loop2, over the iterator stored at loc (left where it stopped)."""
    cells = [cell(st, 'acc', v) for v in extra]
    def body(s):
        evs = []
        for s2, k, v in it_next(ex, s, loc):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            if v.var == 'None':
                evs.append(('done', s2)); continue
            evs += step(s2, v.fs[0], cells)
        return evs
    out = []
    for e in ex.loop(st, body, label):
        s = e[-1]
        if e[0] == 'done':
            out += finish(s, cells)
        elif e[0] == 'unwind':
            out.append((s, 'unwind', None))
        elif e[0] == 'break':
            out.append((s, 'ret', e[1]))
    for s, k, v in out:
        for c in cells:
            s.store.pop(c[1], None)
    return out

@rx(r'<.* as Iterator>::(all|any|find|find_map|position)$')
def _(ex, st, fr, c, a):
    """Search: items in order up to and including the one that decides."""
    m = c.method
    loc = ex.deref(a[0])
    f = a[1]
    if isinstance(f, Clo):
        fc = cell(st, 'fn', f)
        f = Ref(fc[1])
    def step(s, x, cells):
        evs = []
        arg = temp(s, x) if m == 'find' else x
        for s2, k, v in ex.call_value(s, f, [arg]):
            if k != 'ret':
                evs.append(('unwind', s2)); continue
            if m == 'find_map':
                evs.append(('back', s2) if v.var == 'None' else ('break', v, s2)); continue
            for s3, t in ex.split(s2, v):
                if t == (m != 'all'):
                    evs.append(('break', {'all': z3.BoolVal(False), 'any': z3.BoolVal(True), 'find': some(x)}[m] if m != 'position' else some(ex.read(s3, cells[0])), s3))
                else:
                    if m == 'position':
                        ex.write(s3, cells[0], simp(ex.read(s3, cells[0]) + 1))
                    evs.append(('back', s3))
        return evs
    end = {'all': z3.BoolVal(True), 'any': z3.BoolVal(False)}.get(m, NONE)
    return iter_in_place(ex, st, loc, [z3.IntVal(0)] if m == 'position' else [], step, lambda s, cells: ret(s, end), m)

@rx(r'<.* as Iterator>::for_each$')
def _(ex, st, fr, c, a):
    fc = cell(st, 'fn', a[1])
    def step(s, x, cells):
        return [(('back', s2) if k == 'ret' else ('unwind', s2)) for s2, k, v in ex.call_value(s, Ref(fc[1]) if isinstance(a[1], Clo) else a[1], [x])]
    return iter_loop2(ex, st, a[0], [], step, lambda s, cells: ret(s), 'for_each')

@rx(r'<.* as Iterator>::(max|min)$')
def _(ex, st, fr, c, a):
    il = cell(st, 'iter', a[0])
    out = []
    m = re.search(r'-> (\w+) \{', c.text)
    ty = m.group(1) if m else None
    for s, k, v in it_next(ex, st, il):
        if k != 'ret' or v.var == 'None':
            out.append((s, k, v)); continue
        it = ex.read(s, il)
        def step(s2, x, cells):
            acc = ex.read(s2, cells[0])
            evs = []
            tyn = ty or (acc.name if isinstance(acc, Agg) else 'usize')
            cc = parse_callee(f'core::cmp::{c.method}::<{tyn}>')
            # Iterator::max keeps the later of equal elements
            for s3, k3, v3 in R['cmp::max'](ex, s2, fr, cc, [acc, x]):
                ex.write(s3, cells[0], v3)
                evs.append(('back', s3))
            return evs
        out += [(s2, k2, some(v2) if k2 == 'ret' else None) for s2, k2, v2 in
                iter_loop2(ex, s, it, [v.fs[0]], step, lambda s3, cells: ret(s3, ex.read(s3, cells[0])), 'max')]
    for s, k, v in out:
        s.store.pop(il[1], None)
    return out

@rx(r'<.* as Iterator>::collect$')
def _(ex, st, fr, c, a):
    """collect into a Vec of plain data: contents are the items by position."""
    if head(c.targs[0]) != 'Vec':
        raise Unsupported('collect')
    maps, it = [], a[0]
    while isinstance(it, Agg) and it.name == 'Map':
        maps.insert(0, it.fs[1])
        it = it.fs[0]
    if not (isinstance(it, Agg) and it.name in ('Range', 'Iter')):
        raise Unsupported('collect from this iterator')
    lo, hi = it.fs if it.name == 'Range' else it.fs[1:3]
    # one generic item
    i = z3.Int(fresh_name('it$'))
    s1 = st.clone()
    s1.loops = st.loops + (i,)
    n0 = len(s1.pc)
    s1.assume(i >= lo, i < hi)
    outs = [(s1, 'ret', i if it.name == 'Range' else item_at(it, i))]
    for f in maps:
        outs = [x for s2, _, v in outs for x in ex.call_value(s2, f, [v]) if x[1] == 'ret']
    if not outs:
        if ex.feasible(st, lo < hi):
            raise Unsupported('collect of a closure that does not return')
        outs = [(s1, 'ret', None)]
    conds = [And(*s2.pc[n0:]) if len(s2.pc) > n0 else z3.BoolVal(True) for s2, _, _ in outs]
    facts = conds[0] if len(conds) == 1 else z3.Or(*conds)
    v = outs[-1][2]
    for (_, _, w), c0 in zip(outs[:-1], conds[:-1]):
        v = merge(c0, w, v)
    if isinstance(v, Ref):
        raise Unsupported('collect of references')
    def subst(v, k):
        if v is None:
            return no_elem(ex, c.text)(k)
        if is_z(v):
            return z3.substitute(v, (i, k))
        ch = children(v)
        if ch is None:
            return v
        return ch[0]([subst(x, k) for x in ch[1]])
    n = z3.If(hi >= lo, hi - lo, 0)
    cap = st.fresh('veccap')
    # element tables hold at least one usize per entry, so their capacity is bounded by isize::MAX
    st.assume(cap >= n, cap <= (IMAX if isinstance(v, Agg) and v.name == 'ElementInfo' else UMAX))
    st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < hi - lo), z3.substitute(facts, (i, lo + k)))))
    out = [(st, 'ret', VecV(simp(n), cap, Content(get0=lambda k: subst(v, simp(lo + k)))))]
    s3 = st.clone()
    s3.cause = 'reserve'
    return out + [(s3, 'unwind', None)]

# ------------------------------------------------------------------ callables
@rx(r'<dyn FnMut as FnMut>::call_mut$|<dyn Fn as Fn>::call$|<.* as FnOnce>::call_once$|EmplacableFn as FnOnce::call_once$|<.* as FnMut>::call_mut$')
def _(ex, st, fr, c, a):
    args = list(a[1].fs) if isinstance(a[1], Agg) and a[1].name in ('(..)', '()') else [a[1]]
    return ex.call_value(st, a[0], args)

@model('Emplacer::from_fn', 'Emplacer::into_fn')
def _(ex, st, fr, c, a):
    return ret(st, a[0])
@model('Emplacable::into_fn')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0])
