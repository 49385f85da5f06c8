"""Contracts of UnalignedVecInner and AlignedVecInner (src/inner/unaligned.rs, src/inner/aligned.rs)."""
import z3
from logic import *
from values import *
from views import *
from spec import Spec, V, REG, unwrapv
from program import parse_callee
import std

ALLP = ['C01', 'C02', 'C03']
# with and without a buffer
LIVE = ({'live': True}, {'live': False})

def key_of(fl, m, trait=True):
    return f'<{fl.name} as UnsizedVecProvider>::{m}' if trait else f'{fl.name}::{m}'

def setups(v, fl, deep=False):
    """States holding one well-formed vector at cell 'vec': with and without a buffer."""
    for live in (True, False):
        if v.part is not None and v.part['live'] != live:
            continue
        st = v.state()
        aT = None
        if not fl.unal:
            aT = z3.Int('alignT')
            st.assume(pw(aT))
            v.ex.talign['T'] = (aT, None)
            st.ghost['talign'] = aT
        val, vw = fresh_view(fl, v.prog, st, v.ex, live=live, a_T=aT)
        st.store[('vec', 0)] = val
        base_hints(v, vw)
        yield live, st, Ref(('vec', 0)), vw

def base_hints(v, vw, more=()):
    v.ex.small = [vw.n]
    v.ex.hints = {'fns': [('start', vw.start), ('end', vw.end)] + list(more), 'consts': [vw.n], 'aligns': [vw.a], 'cands': [], 'reloc': []}

def view1(fl, v, st, cell=('vec', 0), aT=None):
    return view_of(fl, v.prog, st, Ref(cell), st.ghost.get('talign'))

def unchanged(V, st, v0, v1, props, what='nothing changes'):
    V.check(st, And(v1.n == v0.n, v1.bc == v0.bc, v1.a == v0.a, v1.vcap >= v0.n), what + ': length, bytes, align', props)
    V.check(st, z3.BoolVal(v1.vec.c is v0.vec.c), what + ': element table', props) if v1.vec.c is v0.vec.c else elems_same(V, st, v0, v1, z3.IntVal(0), v0.n, 0, props, what)
    if v0.block != v1.block or (v0.block is not None and st.mem[v0.block] is not v0.mem):
        elems_same(V, st, v0, v1, z3.IntVal(0), v0.n, 0, props, what)

# ------------------------------------------------------------------ getters
def getter(fl, key, result, props, ptr_ok=None):
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            for s, k, r in v.run(st, [ref]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v.check(s, unwrapv(r) == result(vw), 'result')
    return Spec(key, props, verify, parts=LIVE)

for fl in (UN, ALI):
    if fl.unal:
        getter(fl, 'UnalignedVecInner::unaligned_byte_len', lambda v: z3.If(v.n == 0, z3.IntVal(0), v.end(v.n - 1)), ['C01', 'C14'])
        getter(fl, 'UnalignedVecInner::aligned_byte_len', lambda v: v.start(v.n), ['C01', 'C14'])
    else:
        getter(fl, 'AlignedVecInner::byte_len', lambda v: v.start(v.n), ['C01', 'C14'])
    getter(fl, key_of(fl, 'capacity'), lambda v: v.vcap, ['C05', 'C06', 'C01'])
    getter(fl, key_of(fl, 'byte_capacity'), lambda v: v.bc, ['C05', 'C06', 'C01'])
    getter(fl, key_of(fl, 'align'), lambda v: v.a, ['C03', 'C05', 'C06'])
    getter(fl, key_of(fl, 'len'), lambda v: v.n, ['C01'])
    getter(fl, key_of(fl, 'byte_len'), lambda v: v.start(v.n), ['C01'])

def start_offset(fl):
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            i = z3.Int('index')
            st.assume(i >= 0, i <= vw.n)
            for s, k, r in v.run(st, [ref, i]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v.check(s, unwrapv(r) == vw.start(i), 'result', extra={'k': [i, simp(i - 1)]})
    Spec(f'{fl.name}::start_offset_of_unchecked', ['C01', 'C02', 'C03'], verify, parts=LIVE)

def get_raw(fl):
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            i = z3.Int('index')
            st.assume(i >= 0, i < vw.n)
            for s, k, r in v.run(st, [ref, i]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                elem_ref_ok(v, s, vw, i, r, ['C01', 'C03'])
    Spec(key_of(fl, 'get_unchecked_raw'), ['C01', 'C03', 'C10'], verify, parts=LIVE)

def elem_ref_ok(v, s, vw, i, r, props, what=''):
    """r is the pointer to element i of the view."""
    if not (isinstance(r, Fat) and isinstance(r.thin, Raw)):
        raise Unsupported(f'element pointer {r!r}')
    ex = {'k': [i, simp(i - 1), simp(i + 1)]}
    v.check(s, r.meta == vw.meta(i), what + 'metadata of the element', props, extra=ex)
    if r.thin.block is None:
        v.check(s, And(z3.BoolVal(vw.block is None), vw.size(i) == 0, r.thin.off == vw.thin.off, vw.start(i) == 0), what + 'address of the element', props, extra=ex)
        return
    v.check(s, And(z3.BoolVal(r.thin.block == vw.block), r.thin.off == vw.start(i)), what + 'address of the element', props, extra=ex)
    b = s.blocks[r.thin.block]
    v.check(s, And(z3.BoolVal(b.live), r.thin.off >= 0, r.thin.off + SZ(r.meta) <= b.size, AL(r.meta) <= b.align, dv(AL(r.meta), r.thin.off)),
            what + 'element lies inside the live buffer and is aligned', ['C03'], extra=ex)

for fl in (UN, ALI):
    start_offset(fl)
    get_raw(fl)

# ------------------------------------------------------------------ realignment (UnalignedVecInner only)
def shift_fn(vw, ns):
    return lambda k: simp(ns(k) - vw.start(k))

def len_after_realign_up():
    key = 'UnalignedVecInner::len_after_realign_up'
    def result(st, vw, na):
        ns, ne = relayout(vw, st, na)
        return ns(vw.n)
    def verify(v):
        for live, st, ref, vw in setups(v, UN):
            na = z3.Int('new_align')
            st.assume(pw(na), vw.a <= na)
            ns, ne = relayout(vw, st, na)
            base_hints(v, vw, [('nstart', ns), ('nend', ne), ('shift', shift_fn(vw, ns))])
            for s, k, r in v.run(st, [ref, va(na)]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                if r.var == 'Some':
                    v.check(s, z3.And(unwrapv(r.fs[0]) == ns(vw.n), ns(vw.n) <= IMAX), 'Some: the padded byte length after realignment', extra={'k': [vw.n]})
                else:
                    v.check(s, ns(vw.n) > IMAX, 'None only on overflow', extra={'k': [vw.n]})
                unchanged(v, s, vw, view1(UN, v, s), ['C05', 'C02'], 'the vector is unchanged')
    def apply_fn(ex, st, fr, c, a):
        vw = view_of(UN, ex.prog, st, a[0])
        na = unwrapv(a[1])
        ex.oblige(st, z3.And(pw(na), vw.a <= na), 'len_after_realign_up: precondition', 'arith')
        r = result(st, vw, na)
        return [(s, 'ret', some(vsu(r)) if t else NONE) for s, t in ex.split(st, r <= IMAX)]
    Spec(key, ['C14', 'C07'], verify, apply_fn, parts=LIVE)
len_after_realign_up()

def moved_view(st, vw, na, prog):
    """Value of the vector after its elements were laid out for na: (new Vec contents, ghost start function)."""
    ns, ne = relayout(vw, st, na)
    c = Content(get0=lambda k: elem_info(vw.fl, prog, vw.rem(k), ne(k)))
    st.ghost[('view', id(c))] = (c, na, ns)
    st.ghost[('origin', id(c))] = (c, vw)
    return c, ns, ne

def put_vec(fl, prog, val, **kw):
    """The vector value with some parts replaced: ptr, bc, a, vec."""
    f, e = fl.fields(prog)
    m = dict(ptr='ptr', bc='byte_capacity', vec='elems_info', a='align')
    for k, x in kw.items():
        x = {'ptr': lambda: x, 'bc': lambda: fl.wrap(x), 'vec': lambda: Agg('ManuallyDrop', (x,)), 'a': lambda: va(x)}[k]()
        val = val.with_(f.index(m[k]), x)
    return val

def realign(up):
    key = 'UnalignedVecInner::realign_' + ('up' if up else 'down')
    props = ['C02', 'C05', 'C06', 'C14']
    def pre(vw, st, na, ns):
        out = [pw(na), vw.n > 1, na > vw.a if up else na < vw.a]
        if up:
            out.append(ns(vw.n) <= (st.blocks[vw.block].size if vw.block is not None else vw.bc))
        return out
    def verify(v):
        for live, st, ref, vw in setups(v, UN):
            if up and not live:
                continue
            na = z3.Int('new_align')
            ns, ne = relayout(vw, st, na)
            st.assume(*pre(vw, st, na, ns))
            base_hints(v, vw, [('nstart', ns), ('nend', ne), ('shift', shift_fn(vw, ns))])
            v.ex.hints['reloc'] = [dict(to=ns, **{'from': vw.start}, size=vw.size, n=vw.n)]
            v.ex.hints['aligns'].append(na)
            v.ex.hints['canon'] = [lambda s, k: elem_info(UN, v.prog, vw.rem(k), ne(k))]
            for s, k, r in v.run(st, [ref, va(na)]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v1 = view1(UN, v, s)
                kk, b = z3.Int(fresh_name('k$')), z3.Int(fresh_name('b$'))
                ex = {'k': [kk, simp(kk - 1), simp(kk + 1)], 'b': [b]}
                inr = z3.And(kk >= 0, kk < vw.n)
                v.check(s, And(v1.n == vw.n, v1.bc == vw.bc, v1.a == vw.a, v1.vcap == vw.vcap, z3.BoolVal(same(v1.ptr, vw.ptr))), 'length, capacities, align and pointer stay')
                v.check(s, z3.Implies(inr, And(v1.end(kk) == ne(kk), v1.rem(kk) == vw.rem(kk))), 'end offsets are those of the new layout', extra=ex)
                if live:
                    v.check(s, z3.Implies(z3.And(inr, b >= 0, b < vw.size(kk)), v1.mem(simp(ns(kk) + b)) == vw.mem(simp(vw.start(kk) + b))), 'every element keeps its bytes at its new place', extra=ex)
    def apply_fn(ex, st, fr, c, a):
        ref, na = a[0], unwrapv(a[1])
        vw = view_of(UN, ex.prog, st, ref)
        ns, ne = relayout(vw, st, na)
        for p in pre(vw, st, na, ns):
            ex.oblige(st, p, f'{key}: precondition', 'mem')
        if not up:
            kk = z3.Int(fresh_name('k$'))
            ex.oblige(st, z3.Implies(z3.And(kk >= 0, kk < vw.n), AL(vw.meta(kk)) <= na), f'{key}: no element needs more than the new align', 'mem', extra={'k': [kk]})
        nc, ns, ne = moved_view(st, vw, na, ex.prog)
        loc = ex.deref(ref)
        ex.write(st, loc, put_vec(UN, ex.prog, vw.val, vec=VecV(vw.n, vw.vcap, nc)))
        if vw.block is not None:
            om = st.mem[vw.block]
            M = st.fresh_fn('moved', I, I, kind='.')
            st.mem[vw.block] = M
            st.assume(Schema('kb', lambda k, b: z3.Implies(z3.And(k >= 0, k < vw.n, b >= 0, b < vw.size(k)), M(simp(ns(k) + b)) == om(simp(vw.start(k) + b))), 'moved'))
        return [(st, 'ret', UNIT)]
    Spec(key, props, verify, apply_fn, parts=LIVE)
realign(True)
realign(False)

def max_align():
    key = 'UnalignedVecInner::max_align_of_elems'
    def verify(v):
        for live, st, ref, vw in setups(v, UN):
            U = z3.Int('upper')
            inr = lambda k: z3.And(k >= 0, k < vw.n)
            st.assume(U >= 1, Schema('k', lambda k: z3.Implies(inr(k), AL(vw.meta(k)) <= U), 'upper'))
            def cands(st0, havoc, it):
                from loops import Cand, QCand
                out = []
                for key, h in havoc.items():
                    if h.kind == 'fn' and h.sort == I:
                        out.append(Cand('pw', lambda vs, i, key=key: pw(vs[key])))
                        out.append(QCand('max', lambda vs, i, k, key=key: z3.Implies(z3.And(k >= 0, k <= i, k < vw.n), AL(vw.meta(k)) <= vs[key])))
                        out.append(QCand('max<', lambda vs, i, k, key=key: z3.Implies(z3.And(k >= 0, k < i, k < vw.n), AL(vw.meta(k)) <= vs[key])))
                return out
            v.ex.hints['cands'] = [cands]
            v.ex.hints['consts'] = [vw.n, U, vw.a]
            for s, k, r in v.run(st, [ref]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                kk = z3.Int(fresh_name('k$'))
                M = unwrapv(r)
                v.check(s, z3.Implies(inr(kk), AL(vw.meta(kk)) <= M), 'no element needs more', extra={'k': [kk]})
                v.check(s, And(pw(M), M <= vw.a, M <= U), 'a valid align, at most that of the vector and any other bound', extra={'k': [z3.IntVal(0)]})
    def apply_fn(ex, st, fr, c, a):
        vw = view_of(UN, ex.prog, st, a[0])
        M, w = st.fresh('maxalign'), st.fresh('k$witness')
        st.assume(pw(M), M <= vw.a, Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < vw.n), AL(vw.meta(k)) <= M), 'maxalign'),
                  z3.If(vw.n > 0, z3.And(w >= 0, w < vw.n, M == AL(vw.meta(w))), M == 1))
        return [(st, 'ret', va(M))]
    Spec(key, ['C06', 'C03'], verify, apply_fn, parts=LIVE)
max_align()

# ------------------------------------------------------------------ reservation
def no_leak(v, s, v1, keep=(), props=('C07',)):
    """Every live allocation is the buffer of the vector (or listed)."""
    bad = [b for b, x in s.blocks.items() if x.live and b != v1.block and b not in keep]
    v.check(s, z3.BoolVal(not bad), 'no allocation is leaked', list(props))

def all_same(v, s, v0, v1, props, what, n=None):
    v.check(s, v1.n == v0.n, what + ': length', props)
    elems_same(v, s, v0, v1, z3.IntVal(0), v0.n, 0, props, what)

def untouched(v, s, v0, v1, props, what):
    """Every field of the vector and its buffer are as before."""
    v.check(s, And(v1.n == v0.n, v1.bc == v0.bc, v1.vcap == v0.vcap, z3.BoolVal(same(v1.ptr, v0.ptr)), *([v1.a == v0.a] if v0.fl.unal else [])), what + ': length, capacities, align, pointer', props)
    v.check(s, z3.BoolVal(v1.block is None or s.blocks[v1.block].live), what + ': buffer still allocated', sorted(set(props) | {'C07'}))
    if v1.vec.c is not v0.vec.c or (v0.block is not None and v1.mem is not v0.mem):
        elems_same(v, s, v0, v1, z3.IntVal(0), v0.n, 0, props, what)

class _Obl:
    def __init__(self, ex): self.ex = ex
    def check(self, st, goal, what, props=None, rounds=3, extra=None, via=()):
        self.ex.oblige(st, goal, what, 'mem', rounds=rounds, extra=extra, via=via)

def require_wf(ex, st, vw, what):
    g = st.ghost.get(('wf', id(vw.vec.c)))
    if g is not None and g[0] is vw.vec.c and same(g[1], vw.n) and same(g[2], vw.bc) and same(g[3], vw.a) and g[4] == vw.block:
        ex.oblige(st, vw.n <= vw.vcap, what + ': length within capacity', 'mem')
        return
    wf_goals(_Obl(ex), st, vw, ('C03',), what + ': precondition: ')

def mark_wf(st, vw):
    st.ghost[('wf', id(vw.vec.c))] = (vw.vec.c, vw.n, vw.bc, vw.a, vw.block)

def try_reserve(fl, exact):
    m = 'try_reserve_exact' if exact else 'try_reserve'
    P = ['C05', 'C07']
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            add = z3.Int('additional')
            st.assume(add >= 0, add <= UMAX)
            for s, k, r in v.run(st, [ref, add]):
                if k != 'ret':
                    v.fail(s, 'no panic', P); continue
                v1 = view1(fl, v, s)
                if r.var == 'Ok':
                    v.check(s, And(v1.vcap >= vw.n + add, v1.vcap >= vw.vcap), 'Ok: room for the requested elements', P)
                    v.check(s, z3.Implies(vw.vcap - vw.n >= add, v1.vcap == vw.vcap), 'Ok: nothing to do means nothing changes', ['C05'])
                    if exact:
                        v.check(s, z3.Or(v1.vcap == vw.vcap, v1.vcap == vw.n + add), 'Ok: no more than asked for', ['C05', 'C06'])
                else:
                    v.check(s, v1.vcap == vw.vcap, 'Err: capacity unchanged', P)
                v.check(s, And(v1.n == vw.n, v1.bc == vw.bc, z3.BoolVal(same(v1.ptr, vw.ptr) and v1.vec.c is vw.vec.c), *([v1.a == vw.a] if fl.unal else [])), 'nothing else changes', P + ['C02'])
    Spec(key_of(fl, m), P, verify, parts=LIVE)

def new_buffer(ex, st, vw, bc, a, relay, prog):
    """The vector after its elements moved to a fresh block (bc, a); old block freed."""
    om = vw.mem
    blk = std.new_block(st, bc, a, 'buf')
    st.events.append(('alloc', blk))
    if vw.block is not None:
        b = st.blocks[vw.block]
        st.blocks[vw.block] = Block(b.size, b.align, False)
        st.events.append(('free', vw.block))
    M = st.mem[blk]
    if relay:
        c, ns, ne = moved_view(st, vw, a, prog)
    else:
        c, ns = vw.vec.c, vw.start
    if om is not None:
        st.assume(Schema('kb', lambda k, b: z3.Implies(z3.And(k >= 0, k < vw.n, b >= 0, b < vw.size(k)), M(simp(ns(k) + b)) == om(simp(vw.start(k) + b))), 'moved'))
    return put_vec(vw.fl, prog, vw.val, ptr=Raw(blk, z3.IntVal(0)), bc=bc, vec=VecV(vw.n, vw.vcap, c), **({'a': a} if vw.fl.unal else {}))

def reserve_bytes(fl):
    key = key_of(fl, 'try_reserve_additional_bytes_align')
    P5 = ['C05', 'C07']
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            add = z3.Int('additional')
            st.assume(add >= 0, add <= UMAX)
            al = z3.Int('min_align')
            if fl.unal:
                st.assume(pw(al))
                v.ex.hints['aligns'].append(al)
            for s, k, r in v.run(st, [ref, add, va(al) if fl.unal else UNIT]):
                if k != 'ret':
                    v.fail(s, 'no panic', P5); continue
                v1 = view1(fl, v, s)
                if r.var == 'Ok':
                    if fl.unal:
                        v.check(s, And(v1.a >= vw.a, v1.a >= al, z3.Or(v1.a == vw.a, v1.a == al)), 'Ok: the align is the larger of old and requested', ['C05', 'C03'])
                        v.check(s, z3.Implies(z3.And(add == 0, al <= vw.a), And(v1.a == vw.a, v1.bc == vw.bc, z3.BoolVal(same(v1.ptr, vw.ptr)))), 'Ok: nothing to do means nothing changes', P5)
                    else:
                        v.check(s, z3.Implies(add == 0, And(v1.bc == vw.bc, z3.BoolVal(same(v1.ptr, vw.ptr)))), 'Ok: nothing to do means nothing changes', P5)
                    v.check(s, And(v1.bc >= vw.bc, v1.bc - v1.blen >= vw.bc - vw.blen + add), 'Ok: that many more bytes are free', P5, extra={'k': [vw.n]})
                    most = simp(v1.blen + (vw.bc - vw.blen) + add)
                    v.check(s, v1.bc <= (z3.If(v1.a > vw.a, most + 2 * (v1.a - 1), pad(most, v1.a)) if fl.unal else most), 'Ok: no more bytes than asked for', ['C06'], extra={'k': [vw.n]})
                    all_same(v, s, vw, v1, ['C02', 'C05'], 'Ok: the elements stay')
                    v.check(s, v1.vcap == vw.vcap, 'element capacity stays', P5)
                    wf_goals(v, s, v1)
                else:
                    untouched(v, s, vw, v1, P5, 'Err: nothing changes')
                no_leak(v, s, v1)
    def apply_fn(ex, st, fr, c, args):
        ref, add = args[0], args[1]
        vw = view_of(fl, ex.prog, st, ref, st.ghost.get('talign'))
        require_wf(ex, st, vw, 'reserve bytes')
        loc = ex.deref(ref)
        out = []
        al = unwrapv(args[2]) if fl.unal else None
        noop = z3.And(add == 0, al <= vw.a) if fl.unal else add == 0
        for s, t in ex.split(st, noop):
            if t:
                out.append((s, 'ret', ok(UNIT)))
                continue
            e = s.clone()
            out.append((e, 'ret', err(Opaque('TryReserveError'))))
            for s2, up in (ex.split(s, al > vw.a) if fl.unal else [(s, False)]):
                na = al if up else vw.a
                if up:
                    for s3, nb in ex.split(s2, z3.And(add == 0, vw.bc == 0)):
                        if nb:
                            # nothing is allocated: only zero-sized elements
                            d = s3
                            ex.write(d, loc, put_vec(fl, ex.prog, vw.val, ptr=std.dangling(d, al), a=al))
                            w = view_of(fl, ex.prog, d, ref)
                            d.assume(*wf_facts(w))
                            mark_wf(d, w)
                            out.append((d, 'ret', ok(UNIT)))
                        else:
                            out.append(grown(ex, s3, vw, ref, loc, add, na, True))
                else:
                    out.append(grown(ex, s2, vw, ref, loc, add, na, False))
        return out
    def grown(ex, s, vw, ref, loc, add, na, relay):
        bc = s.fresh('bytecap')
        val = new_buffer(ex, s, vw, bc, na, relay, ex.prog)
        ex.write(s, loc, val)
        w = view_of(fl, ex.prog, s, ref, s.ghost.get('talign'))
        s.assume(bc > 0, bc >= vw.bc, bc - w.blen >= vw.bc - vw.blen + add)
        s.assume(*wf_facts(w))
        mark_wf(s, w)
        return (s, 'ret', ok(UNIT))
    Spec(key, ['C05', 'C02', 'C03', 'C07', 'C14'], verify, apply_fn, parts=LIVE)

for fl in (UN, ALI):
    try_reserve(fl, False)
    try_reserve(fl, True)
    reserve_bytes(fl)

# ------------------------------------------------------------------ shrinking
def imin(a, b): return z3.If(a <= b, a, b)
def imax(a, b): return z3.If(a <= b, b, a)

def shrink_cap(fl):
    key = key_of(fl, 'shrink_capacity_to')
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            m = z3.Int('min_capacity')
            st.assume(m >= 0, m <= UMAX)
            for s, k, r in v.run(st, [ref, m]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v1 = view1(fl, v, s)
                v.check(s, And(v1.vcap == imin(vw.vcap, imax(vw.n, m))), 'capacity drops to the larger of the length and the bound', ['C06'])
                v.check(s, And(v1.n == vw.n, v1.bc == vw.bc, z3.BoolVal(same(v1.ptr, vw.ptr) and v1.vec.c is vw.vec.c), *([v1.a == vw.a] if fl.unal else [])), 'nothing else changes', ['C06', 'C02'])
    Spec(key, ['C06'], verify, parts=LIVE)

def shrink_bytes(fl):
    key = key_of(fl, 'shrink_capacity_bytes_align_to')
    P6 = ['C06']
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            mc, mb = z3.Ints('min_capacity min_byte_capacity')
            st.assume(mc >= 0, mc <= UMAX, mb >= 0, mb <= UMAX)
            args = [ref, mc, mb, UNIT]
            if fl.unal:
                ma, U = z3.Ints('min_align upper')
                st.assume(pw(ma))
                # U: any bound for the aligns of the elements and the requested align
                st.assume(pw(U), U <= vw.a, z3.Or(ma <= U, vw.a <= U), Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < vw.n), AL(vw.meta(k)) <= U), 'upper'))
                args[3] = va(ma)
                v.ex.hints['aligns'] += [ma]
            for s, k, r in v.run(st, args):
                if k != 'ret':
                    v.fail(s, 'no panic', P6); continue
                v1 = view1(fl, v, s)
                v.check(s, v1.vcap == imin(vw.vcap, imax(vw.n, mc)), 'capacity drops to the larger of the length and the bound', P6)
                all_same(v, s, vw, v1, ['C02', 'C06'], 'the elements stay')
                wf_goals(v, s, v1, tag='')
                no_leak(v, s, v1)
                refused = ('alloc_fail',) in s.events
                v.check(s, And(v1.bc <= vw.bc, v1.bc >= imin(mb, vw.bc)), 'byte capacity does not grow and does not drop below the bound', P6)
                if fl.unal:
                    v.check(s, And(v1.a <= vw.a, z3.Or(v1.a >= ma, v1.a == vw.a)), 'align does not grow and does not drop below the bound', P6)
                if refused:
                    v.check(s, And(v1.bc == vw.bc, *([v1.a == vw.a] if fl.unal else [])), 'refused by the allocator: capacity and align stay', P6)
                else:
                    if fl.unal:
                        v.check(s, v1.a <= U, 'align drops to what the elements and the bound need', P6, extra={'k': [z3.IntVal(0)]})
                        v.check(s, v1.bc == imax(pad(imin(mb, vw.bc), v1.a), v1.blen), 'byte capacity drops to what the elements and the bound need', P6, extra={'k': [vw.n, simp(vw.n - 1)]})
                    else:
                        v.check(s, v1.bc == imin(vw.bc, imax(vw.blen, mb)), 'byte capacity drops to what the elements and the bound need', P6, extra={'k': [vw.n, simp(vw.n - 1)]})
    Spec(key, ['C06', 'C02', 'C03', 'C07', 'C14'], verify, parts=LIVE)

for fl in (UN, ALI):
    shrink_cap(fl)
    shrink_bytes(fl)
