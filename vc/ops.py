"""Contracts of the operations that move user values in and out of the two hand-written vectors, for every behaviour of user code:
an emplacable may panic before, while (leaving garbage) or after writing the value; a consumer may take the value, drop it in place,
do neither, and panic before or after; destructors may panic."""
import z3
from logic import *
from values import *
from views import *
from spec import Spec, V, REG, unwrapv
from vecs import *
import std, exe

def fresh_meta(st, tag='newmeta'):
    m = z3.Const(fresh_name(tag), Meta) if not st.loops else st.fresh(tag, Meta)
    std.meta_facts(None, st, m)
    # K1: sizes of slices of zero-sized elements do not determine the length; everything else round-trips
    st.assume(asmeta(frommeta(m), SZ(m)) == m)
    return m

def own_value(st, tag='value'):
    """A user value held by value."""
    m = fresh_meta(st)
    b = std.new_block(st, SZ(m), AL(m), tag)
    return Own(b, m), m, st.mem[b]

def user_panic(st):
    s = st.clone()
    s.cause = 'user'
    return (s, 'unwind', None)

def write_value(ex, st, p, m, val, what, garbage=False):
    """User code writes a value with metadata m at p."""
    p = p.thin if isinstance(p, Fat) else p
    if p.block == 'null':
        ex.oblige(st, z3.BoolVal(False), what + ': not a null pointer', 'mem')
        return
    if p.block is None:
        ex.oblige(st, And(SZ(m) == 0, p.off > 0, dv(AL(m), p.off)), what + ': dangling pointer only for zero-sized values, aligned', 'mem')
        return
    b = st.blocks[p.block]
    ex.oblige(st, And(z3.BoolVal(b.live), p.off >= 0, p.off + SZ(m) <= b.size, AL(m) <= b.align, dv(AL(m), p.off)),
              what + ': inside a live allocation and aligned', 'mem')
    old, off, n = st.mem[p.block], p.off, SZ(m)
    if garbage:
        val = st.fresh_fn('garbage', I, I, kind='.')
    def mem(o):
        inside = simp(z3.And(o >= off, o < off + n))
        if z3.is_true(inside): return val(simp(o - off))
        if z3.is_false(inside): return old(o)
        return z3.If(inside, val(simp(o - off)), old(o))
    st.mem[p.block] = mem

EMP = tuple({'live': l, 'user': u} for u in ('placed', 'placed-panic', 'before', 'garbage') for l in (True, False))
CON = tuple({'live': l, 'user': u} for u in ('taken', 'dropped', 'ignored') for l in (True, False))

def emplacable(st, tag='emp', only=None):
    """Emplacable: on success calls the emplacer once with the layout and metadata of its value."""
    def run(ex, s0, args):
        out = []
        m = fresh_meta(s0)
        val = s0.fresh_fn('newval', I, I, kind='.')
        s0.ghost['new'] = (m, val)
        s0.ghost['stage'] = 'before'
        if only in (None, 'before'):
            out.append(user_panic(s0))
        if only == 'before':
            # everything that happens before user code, and the panic of user code
            out += [x for x in ex.call_value(s0, args[0], [Agg('Layout', (SZ(m), AL(m))), m, UserFn('inner', lambda ex, s, a: [])]) if x[1] != 'ret']
            return out
        def inner(ex, s, a):
            ex.oblige(s, z3.BoolVal(s.ghost['stage'] == 'before'), 'the place is written once', 'mem')
            g = s.clone()
            g.ghost['stage'] = 'garbage'
            write_value(ex, g, a[0], m, None, 'place handed to the emplacable', garbage=True)
            g.cause = 'user'
            write_value(ex, s, a[0], m, val, 'place handed to the emplacable')
            s.ghost['stage'] = 'written'
            return ([(g, 'unwind', None)] if only in (None, 'garbage') else []) + ([(s, 'ret', UNIT)] if only != 'garbage' else [])
        for s, k, r in ex.call_value(s0, args[0], [Agg('Layout', (SZ(m), AL(m))), m, UserFn('inner', inner)]):
            if k != 'ret':
                # what happens before the closure runs belongs to the first case
                if only in (None, s.ghost['stage']) or s.ghost['stage'] == 'written':
                    out.append((s, k, r))
                continue
            ex.oblige(s, z3.BoolVal(s.ghost['stage'] == 'written'), 'the emplacer runs the closure exactly once', 'mem')
            s.ghost['stage'] = 'placed'
            if only in (None, 'placed-panic'):
                out.append(user_panic(s))
            if only in (None, 'placed'):
                out.append((s, 'ret', UNIT))
        return out
    return Agg('Emplacable', (UserFn(tag, run),))

def consumer(st, tag='consumer', only=None):
    """Emplacer handed to pop/remove: takes the value, has it dropped in place, or ignores it; may panic before and after."""
    def run(ex, s0, args):
        lay, m, inner = args
        s0.ghost['taken'] = (m, lay)
        out = []
        if only in (None, 'ignored'):
            g = s0.clone()
            g.ghost['stage'] = 'ignored'
            out.append(user_panic(g))
            out.append((g, 'ret', UNIT))
        if only in (None, 'dropped'):
            # dropped in place
            d = s0.clone()
            d.ghost['stage'] = 'dropping'
            for s, k, r in ex.call_value(d, inner, [Raw('null', z3.IntVal(0))]):
                if k == 'ret':
                    s.ghost['stage'] = 'dropped'
                    out.append(user_panic(s))
                out.append((s, k, r))
        if only in (None, 'taken'):
            # moved out
            b = std.new_block(s0, SZ(m), AL(m), 'dest')
            s0.ghost['stage'] = 'taking'
            s0.ghost['dest'] = b
            for s, k, r in ex.call_value(s0, inner, [Raw(b, z3.IntVal(0))]):
                if k == 'ret':
                    s.ghost['stage'] = 'taken'
                    out.append(user_panic(s))
                out.append((s, k, r))
        return out
    return UserFn(tag, run)

# ------------------------------------------------------------------ unwrap_try_reserve_result
def _unwrap():
    def verify(v):
        for e in (ok(UNIT), err(Agg('TryReserveError', (Agg('TryReserveErrorKind', (), 'CapacityOverflow'),))),
                  err(Agg('TryReserveError', (Agg('TryReserveErrorKind', (Agg('Layout', (z3.Int('sz'), z3.Int('al'))), UNIT), 'AllocError'),)))):
            st = v.state()
            outs = v.run(st, [e])
            for s, k, r in outs:
                v.check(s, z3.BoolVal(k == ('ret' if e.var == 'Ok' else 'unwind')), 'returns exactly on Ok')
            v.check(st, z3.BoolVal(len(outs) > 0), 'does not hang')
    def apply_fn(ex, st, fr, c, a):
        if a[0].var == 'Ok':
            return [(st, 'ret', a[0].fs[0])]
        st.cause = 'reserve'
        return [(st, 'unwind', None)]
    Spec('unwrap_try_reserve_result', ['C05', 'C07'], verify, apply_fn)
_unwrap()

def inserted(v, s, vw, v1, i, m, val, props, what=''):
    """v1 is vw with the value (m, val) put at index i."""
    v.check(s, v1.n == vw.n + 1, what + 'one element more', props)
    elems_same(v, s, vw, v1, z3.IntVal(0), i, 0, props, what + 'elements before it stay')
    elems_same(v, s, vw, v1, simp(i + 1), simp(vw.n + 1), 1, props, what + 'elements behind it move up by one')
    b = z3.Int(fresh_name('b$'))
    ex = {'k': [i, simp(i - 1), simp(i + 1)], 'b': [b]}
    v.check(s, And(v1.size(i) == SZ(m), v1.rem(i) == frommeta(m), v1.meta(i) == m), what + 'size and metadata of the new element', props, extra=ex)
    if v1.mem is not None:
        v.check(s, z3.Implies(z3.And(b >= 0, b < SZ(m)), v1.mem(simp(v1.start(i) + b)) == val(b)), what + 'bytes of the new element', props, extra=ex)
    else:
        v.check(s, SZ(m) == 0, what + 'only a zero-sized value needs no buffer', props)

def kept_buffer(v, s, vw, v1, props, what=''):
    v.check(s, And(v1.bc == vw.bc, v1.vcap == vw.vcap, z3.BoolVal(same(v1.ptr, vw.ptr)), *([v1.a == vw.a] if vw.fl.unal else [])), what + 'capacities, align and buffer stay', props)

def insert_unchecked(fl, push):
    key = key_of(fl, 'push_unchecked' if push else 'insert_unchecked')
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            own, m, val = own_value(st)
            i = vw.n if push else z3.Int('index')
            if not push:
                st.assume(i >= 0, i <= vw.n)
            sz = pad(SZ(m), vw.a) if fl.unal else SZ(m)
            st.assume(vw.n < vw.vcap, vw.bc - vw.blen >= sz)
            if fl.unal:
                st.assume(AL(m) <= vw.a)
            for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [own, fl.wrap(SZ(m))]):
                if k != 'ret':
                    v.fail(s, 'no panic'); continue
                v1 = view1(fl, v, s)
                inserted(v, s, vw, v1, i, m, val, ['C01', 'C02'])
                kept_buffer(v, s, vw, v1, ['C01', 'C05'])
                wf_goals(v, s, v1)
                v.check(s, z3.BoolVal(not any(e[0].startswith('drop') for e in s.events)), 'nothing is dropped', ['C04'])
                no_leak(v, s, v1, keep=(own.block,))
    def apply_fn(ex, st, fr, c, a):
        raise Unsupported(key)
    Spec(key, ['C01', 'C02', 'C03', 'C14'], verify, parts=LIVE)

def insert_with(fl, push):
    key = key_of(fl, 'push_with' if push else 'insert_with_unchecked')
    PV = ['C01', 'C02', 'C08']
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            i = vw.n if push else z3.Int('index')
            if not push:
                st.assume(i >= 0, i <= vw.n)
            for s, k, r in v.run(st, [ref] + ([] if push else [i]) + [emplacable(st, only=v.part and v.part['user'])]):
                v1 = view1(fl, v, s)
                stage = s.ghost.get('stage')
                m, val = s.ghost['new']
                if stage == 'placed':
                    v.check(s, z3.BoolVal(k == 'ret' or s.cause == 'user'), 'no panic of its own', ['C08', 'C01'])
                    inserted(v, s, vw, v1, i, m, val, PV if k != 'ret' else ['C01', 'C02'], '' if k == 'ret' else 'panic after: ')
                else:
                    v.check(s, z3.BoolVal(k == 'unwind'), 'returns only with the element in place', ['C01'])
                    v.check(s, z3.BoolVal((s.cause == 'user' and stage in ('before', 'garbage')) or (s.cause == 'reserve' and stage == 'before')), 'panics only when user code or the reservation does', ['C05', 'C08'])
                    all_same(v, s, vw, v1, ['C02', 'C08'] if s.cause == 'user' else ['C02', 'C05'], f'panic ({s.cause}, {stage}): the elements stay')
                wf_goals(v, s, v1, ('C03',) if k == 'ret' else ('C03', 'C08'), '' if k == 'ret' else 'panic: ')
                v.check(s, And(v1.vcap >= vw.vcap, v1.bc >= vw.bc), 'capacity does not shrink', ['C05'])
                if fl.unal:
                    v.check(s, v1.a >= vw.a, 'align does not shrink', ['C05'])
                v.check(s, z3.BoolVal(not any(e[0].startswith('drop') for e in s.events)), 'no element is dropped', ['C04', 'C08'])
                no_leak(v, s, v1)
    Spec(key, ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C14'], verify, parts=EMP)

def removed(v, s, vw, v1, i, props, what=''):
    v.check(s, v1.n == vw.n - 1, what + 'one element less', sorted(set(props) | {'C04'}))
    elems_same(v, s, vw, v1, z3.IntVal(0), i, 0, props, what + 'elements before it stay')
    elems_same(v, s, vw, v1, i, simp(vw.n - 1), -1, props, what + 'elements behind it move down by one',
               at=lambda k: simp(vw.start(simp(k + 1)) - vw.start(simp(i + 1)) + vw.start(i)))

def remove_into(fl, pop):
    key = key_of(fl, 'pop_into_unchecked' if pop else 'remove_into_unchecked')
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            i = simp(vw.n - 1) if pop else z3.Int('index')
            st.assume(i >= 0, i < vw.n)
            for s, k, r in v.run(st, [ref] + ([] if pop else [i]) + [consumer(st, only=v.part and v.part['user'])]):
                v1 = view1(fl, v, s)
                stage = s.ghost.get('stage')
                if stage is None:
                    v.fail(s, 'the emplacer is called'); continue
                P = ['C01', 'C02', 'C08'] if k == 'unwind' else ['C01', 'C02']
                w = 'panic: ' if k == 'unwind' else ''
                if k == 'unwind':
                    v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C08', 'C01'])
                removed(v, s, vw, v1, i, P, w)
                kept_buffer(v, s, vw, v1, ['C01', 'C06'], w)
                wf_goals(v, s, v1, ('C03',) if k == 'ret' else ('C03', 'C08'), w)
                m, lay = s.ghost['taken']
                ex = {'k': [i, simp(i - 1), simp(i + 1)]}
                v.check(s, And(m == vw.meta(i), lay.fs[0] == vw.size(i), lay.fs[1] == AL(vw.meta(i))), 'layout and metadata of the removed value', ['C01', 'C02', 'C03'], extra=ex)
                drops = [e for e in s.events if e[0].startswith('drop')]
                if stage in ('dropped', 'dropping'):
                    v.check(s, z3.BoolVal(len(drops) == 1), 'the removed value is dropped once', ['C04'])
                    if len(drops) == 1:
                        _, blk, off, dm = drops[0]
                        v.check(s, And(z3.BoolVal(blk == vw.block), dm == vw.meta(i), off == (vw.start(i) if blk is not None else vw.thin.off)), 'it is the removed value that is dropped', ['C04'], extra=ex)
                else:
                    v.check(s, z3.BoolVal(not drops), 'nothing is dropped', ['C04'])
                if stage == 'taken':
                    b = z3.Int(fresh_name('b$'))
                    D = s.mem[s.ghost['dest']]
                    if vw.mem is not None:
                        v.check(s, z3.Implies(z3.And(b >= 0, b < vw.size(i)), D(b) == vw.mem(simp(vw.start(i) + b))), 'the value is moved out with its bytes', ['C01', 'C02'], extra={**ex, 'b': [b]})
                no_leak(v, s, v1, keep=(s.ghost.get('dest'),))
    Spec(key, ['C01', 'C02', 'C03', 'C04', 'C08', 'C14'], verify, parts=CON)

for fl in (UN, ALI):
    for push in (True, False):
        insert_unchecked(fl, push)
        insert_with(fl, push)
        remove_into(fl, push)
