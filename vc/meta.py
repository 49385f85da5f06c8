"""Contracts of the metadata and layout helpers (src/helper.rs, src/marker.rs): what the vectors keep of an element's
metadata is enough to rebuild it, for slices, sized values and everything else; the constants of `Aligned` are the aligns."""
import z3
from logic import *
from values import *
from spec import Spec, unwrapv, vsu, va, T1
from program import head
import std
from std import model, ret

P = ['C02', 'C03', 'C10']

def roundtrip(key_from, key_as):
    """as_metadata(from_metadata(m), any size) is m (metadata that is kept in full)."""
    def verify(v):
        st = v.state()
        m = z3.Const('meta', Meta)
        sz = z3.Int('size')
        st.assume(sz >= 0, sz <= IMAX)
        f = v.fn(key_from)
        for s, k, r in v.run(st, [m], f):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            g = v.fn(key_as)
            for s2, k2, r2 in v.run(s, [r, vsu(sz)], g):
                if k2 != 'ret':
                    v.fail(s2, 'no panic'); continue
                v.check(s2, r2 == m if z3.is_expr(r2) and r2.sort() == Meta else z3.BoolVal(False), 'the metadata that went in comes out')
    Spec(key_as, P, verify)

roundtrip('<FullMetadataRemainder as MetadataRemainder>::from_metadata', '<FullMetadataRemainder as MetadataRemainder>::as_metadata')

def slice_of_values():
    """`from_size` of a slice of n elements of sizeT > 0 bytes is n."""
    key = '<[] as MetadataFromSize>::from_size'
    def verify(v):
        st = v.state()
        n, q = z3.Ints('n q')
        aT, sT = z3.Ints('alignT sizeT')
        v.ex.talign['T'] = (aT, sT)
        tot = mul(n, sT)
        st.assume(pw(aT), dv(aT, sT), sT >= 1, sT <= IMAX - (aT - 1), n >= 0, tot >= 0, tot <= IMAX)
        v.ex.small = [n]
        for s, k, r in v.run(st, [vsu(tot)]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            r = unwrapv(r)
            # products grow with the factor (lemma mul-step of lemmas.py)
            s.assume(z3.Implies(r + 1 <= n, mul(r, sT) + sT <= mul(n, sT)), z3.Implies(n + 1 <= r, mul(n, sT) + sT <= mul(r, sT)))
            v.check(s, r == n, 'the number of elements')
    Spec(key, P, verify)
slice_of_values()

def sized_value():
    key = '<T as MetadataFromSize>::from_size'
    def verify(v):
        st = v.state()
        sz = z3.Int('size')
        st.assume(sz >= 0, sz <= IMAX)
        for s, k, r in v.run(st, [vsu(sz)]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, z3.BoolVal(r is UNIT), 'sized values have no metadata')
    Spec(key, P, verify)
sized_value()

# the call inside <() as MetadataRemainder>::as_metadata goes to the MetadataFromSize of the type
@model('<T as MetadataFromSize>::from_size')
def _(ex, st, fr, c, a):
    f = st.ghost.get('from_size')
    if f is None:
        return ex.call_body(st, fr, c, a) if hasattr(ex, 'call_body') else ret(st, UNIT)
    return ret(st, f(unwrapv(a[0])))

def forwarded():
    """The empty remainder: nothing kept, and as_metadata asks from_size of the very type."""
    key = '<() as MetadataRemainder>::as_metadata'
    def verify(v):
        fs = z3.Function('from_size', I, Meta)
        st = v.state()
        sz = z3.Int('size')
        m = z3.Const('meta', Meta)
        st.assume(sz >= 0, sz <= IMAX)
        st.ghost['from_size'] = fs
        for s, k, r in v.run(st, [m], v.fn('<() as MetadataRemainder>::from_metadata')):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, z3.BoolVal(r is UNIT), 'nothing is kept')
            for s2, k2, r2 in v.run(s, [r, vsu(sz)], v.fn(key)):
                if k2 != 'ret':
                    v.fail(s2, 'no panic'); continue
                v.check(s2, r2 == fs(sz) if z3.is_expr(r2) else z3.BoolVal(False), 'metadata is from_size of the size')
    Spec(key, P, verify)
forwarded()

# ------------------------------------------------------------------ layouts of values
def ofval(key, want, fin=True):
    def verify(v):
        st = v.state()
        m = z3.Const('meta', Meta)
        if fin:
            st.ghost['talign'] = z3.Int('alignT')
            st.assume(pw(st.ghost['talign']))
            v.ex.talign['T'] = (st.ghost['talign'], None)
        b = std.new_block(st, SZ(m), AL(m), 'value')
        for s, k, r in v.run(st, [Fat(Raw(b, z3.IntVal(0)), m)]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            r = unwrapv(r)
            v.check(s, r == want(m) if z3.is_expr(r) else z3.BoolVal(False), 'result')
    Spec(key, ['C14', 'C03', 'C06'], verify)
ofval('ValidAlign::of_val', AL, False)
ofval('ValidSizeUnaligned::of_val', SZ, False)
ofval('ValidSize::of_val', SZ)

def simple(key, mkargs, want, props, pre=lambda st, x: None):
    def verify(v):
        st = v.state()
        x = z3.Int('x')
        pre(st, x)
        for s, k, r in v.run(st, mkargs(st, x)):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, want(s, x, unwrapv(r)), 'result')
    Spec(key, props, verify)

def is_pw(st, x): st.assume(pw(x))
def same(s, x, r):
    while isinstance(r, Agg) and len(r.fs) == 1:
        r = r.fs[0]
    return r == x if z3.is_expr(r) else z3.BoolVal(False)
simple('ValidAlign::as_nonzero', lambda st, x: [va(x)], same, ['C14', 'C03'], is_pw)
simple('<NonZeroUsize as From>::from', lambda st, x: [va(x)], same, ['C14', 'C03'], is_pw)

# ------------------------------------------------------------------ the constants of Aligned
def constant(key, props, want, set_up=lambda v, st: None):
    def verify(v):
        st = v.state()
        aT, sT = z3.Ints('alignT sizeT')
        st.assume(pw(aT))
        v.ex.talign['T'] = (aT, sT)
        v.ex.talign['Self'] = (aT, sT)
        set_up(v, st)
        c = v.prog.const_by_key.get(key)
        if not c or len(c) != 1:
            raise Unsupported(f'lost anchor: no constant {key}')
        for s, k, r in v.ex.run_fn(c[0], [], st, tenv={}):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, want(unwrapv(r), aT), 'value')
    Spec(key, props, verify)

def eqv(r, a):
    while isinstance(r, Agg) and len(r.fs) == 1:
        r = r.fs[0]
    return r == a if z3.is_expr(r) else z3.BoolVal(False)
A = ['C03', 'C14', 'C06']
constant('<T as Aligned>::ALIGN', A, eqv)
constant('<[] as Aligned>::ALIGN', A, eqv)
constant('<str as Aligned>::ALIGN', A, lambda r, a: eqv(r, z3.IntVal(1)))
constant('<CStr as Aligned>::ALIGN', A, lambda r, a: eqv(r, z3.IntVal(1)))
constant('Aligned::DANGLING_THIN', A, lambda r, a: r.off == a if isinstance(r, Raw) and r.block is None else z3.BoolVal(False))
constant('ValidAlign::ONE', A, lambda r, a: eqv(r, z3.IntVal(1)))
constant('ValidSizeUnaligned::ZERO', A, lambda r, a: eqv(r, z3.IntVal(0)))
constant('ValidSize::ZERO', A, lambda r, a: eqv(r, z3.IntVal(0)))
constant('ValidSize::MAX', ['C14', 'C07'], lambda r, a: eqv(r, IMAX - (a - 1)))

# ------------------------------------------------------------------ models of core used by these
@model('NonNull::new')
def _(ex, st, fr, c, a):
    p = a[0]
    if not (isinstance(p, Raw) and p.block is None):
        raise Unsupported('NonNull::new')
    return [(s, 'ret', some(p) if t else NONE) for s, t in ex.split(st, p.off != 0)]
@model('NonZero::new_unchecked')
def _(ex, st, fr, c, a):
    ex.oblige(st, a[0] != 0, 'NonZero::new_unchecked: not zero', 'mem')
    return ret(st, a[0])
@model('TryReserveError::kind')
def _(ex, st, fr, c, a):
    v = ex.read(st, ex.deref(a[0])) if isinstance(a[0], Ref) else a[0]
    if not isinstance(v, Opaque):
        raise Unsupported('TryReserveError::kind')
    return ret(st, Opaque('kind of ' + v.tag))
_align = std.R['mem::align_of_val']
def literal_align(ex, st, fr, c, a):
    # str and CStr are byte sequences: align 1 (language rule)
    if c.targs and c.targs[0].split('::')[-1] in ('str', 'CStr') and (isinstance(a[0], Opaque) or isinstance(a[0], FnItem)):
        return ret(st, z3.IntVal(1))
    if isinstance(a[0], Ref) and c.targs and ex.subst(fr, c.targs[0]) in PRIM:
        return ret(st, ex.align_of(st, fr, c.targs[0]))
    return _align(ex, st, fr, c, a)
literal_align.label = 'mem::align_of_val'
std.R['mem::align_of_val'] = literal_align
_size = std.R['mem::size_of_val']
def literal_size(ex, st, fr, c, a):
    if isinstance(a[0], Ref) and c.targs and ex.subst(fr, c.targs[0]) in PRIM:
        return ret(st, ex.size_of(st, fr, c.targs[0]))
    return _size(ex, st, fr, c, a)
literal_size.label = 'mem::size_of_val'
std.R['mem::size_of_val'] = literal_size

# ------------------------------------------------------------------ errors
def try_reserve_error():
    """The error of the standard vector is passed on with its kind."""
    key = '<TryReserveError as From>::from'
    def verify(v):
        st = v.state()
        inner = Opaque('std error')
        for s, k, r in v.run(st, [inner]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            kind = r.fs[0] if isinstance(r, Agg) and r.fs else None
            v.check(s, z3.BoolVal(isinstance(kind, Opaque) and kind.tag == 'kind of std error'), 'the kind of the error')
    Spec(key, ['C07'], verify)
try_reserve_error()
