"""Contracts of what the macros and with_emplacable_for stand on (property C15; with_emplacable_for also C12 and C04)."""
import re, z3
from logic import *
from values import *
from program import head
from spec import Spec, unwrapv
import std, exe, sized, mir, empl, prod
from std import R, rx, model, ret, unwind
from empl import pick, clo_of, start, drops, user_emplacable
from ops import own_value, fresh_meta, user_panic
from prod import USES, counted, common, taken_bytes, one_drop

# ------------------------------------------------------------------ with_emplacable_for
def the_fn(v, name, inside=None):
    l = [f for f in v.prog.fns if f.key and f.name.split('::')[-1] == name and '{closure' not in f.name and (inside is None or inside in f.name)]
    if len(l) != 1:
        raise Unsupported(f'lost anchor: {name}: {len(l)} functions')
    v.ex.root = l[0]
    v.ex.scope_mod = l[0].name + '::'
    return l[0]

def closure():
    """The emplacer gets the layout, the metadata and the bytes of the borrowed value, or drops it in place; nothing else happens to it."""
    def verify(v):
        st = start(v)
        own, m, mem = own_value(st)
        fn = the_fn(v, 'with_emplacable_closure')
        for s, k, r in v.run(st, [Fat(Raw(own.block, z3.IntVal(0)), m)], fn=fn):
            if k != 'ret':
                v.fail(s, 'making the closure does not panic', ['C12']); continue
            v.check(s, z3.BoolVal(not drops(s)), 'making the closure drops nothing', ['C12'])
            for s, k, r in v.ex.call_value(s, r, [counted(s, v.part['user'])]):
                stage = common(v, s, k)
                taken_bytes(v, s, m, mem)
                if stage in ('dropped', 'dropping'):
                    one_drop(v, s, own.block, z3.IntVal(0), m)
                else:
                    v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', prod.P)
                v.check(s, z3.BoolVal(s.blocks[own.block].live), 'the value stays where it was', ['C12'])
    Spec('with_emplacable_closure', ['C12', 'C15', 'C04'], verify, parts=USES)
closure()

PW = ['C12', 'C15', 'C04']
def for_value():
    """The callback gets an emplacable of the value, its result is handed back, and whatever the callback did, the value is
    consumed once: by the emplacable, or (callback panicking before it ran it) by being dropped. K2: callback panicking after."""
    def verify(v):
        st = start(v)
        own, m, mem = own_value(st)
        tok = Opaque('result')
        def cb(ex, s0, args):
            s0.ghost['cbs'] = s0.ghost.get('cbs', 0) + 1
            early = user_panic(s0)
            early[0].ghost['stage'], early[0].ghost['cb'] = 'unused', 'panicked'
            out = [early]
            g = s0.clone()
            g.ghost['stage'] = 'unused'
            if v.part['user'] == 'ignored':
                out.append((g, 'ret', tok))       # the callback forgets the emplacable
            for s, k, r in ex.call_value(s0, clo_of(args[0]), [counted(s0, v.part['user'])]):
                p = s.clone()
                p.ghost['cb'], p.cause = 'panicked', 'user' if k == 'ret' else s.cause
                out.append((p, 'unwind', None))
                if k == 'ret':
                    out.append((s, k, tok))
            return out
        fn = the_fn(v, 'with_emplacable_for')
        for s, k, r in v.run(st, [own, UserFn('callback', cb)], fn=fn):
            v.check(s, z3.BoolVal(s.ghost.get('cbs', 0) == 1), 'the callback runs exactly once', ['C15'])
            stage = s.ghost.get('stage')
            if stage != 'unused':
                v.check(s, z3.BoolVal(s.ghost.get('calls', 0) == 1), 'the emplacer is called exactly once', ['C12'])
                taken_bytes(v, s, m, mem)
            d = drops(s)
            if k == 'ret':
                v.check(s, z3.BoolVal(r is tok), 'the result of the callback is returned', ['C15'])
                if stage == 'dropped':
                    one_drop(v, s, own.block, z3.IntVal(0), m)
                else:
                    v.check(s, z3.BoolVal(not drops(s)), 'the value is not dropped here', PW)
                continue
            v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when user code does', ['C15'])
            if s.ghost.get('cb') == 'panicked' and stage in ('unused', 'ignored'):
                one_drop(v, s, own.block, z3.IntVal(0), m)
            if s.ghost.get('cb') != 'panicked' and stage == 'dropped':
                one_drop(v, s, own.block, z3.IntVal(0), m)
            if s.ghost.get('cb') != 'panicked' and stage != 'dropped':
                v.check(s, z3.BoolVal(not drops(s)), 'the value is not dropped here', PW)
            # K2: the callback panicked after the emplacable had consumed the value
    Spec('with_emplacable_for', PW, verify, parts=USES)
for_value()

# ------------------------------------------------------------------ std: boxes in a given allocator
@model('Cell::new')
def _(ex, st, fr, c, a):
    return ret(st, Agg('Cell', (a[0],)))
@model('Cell::as_ptr')
def _(ex, st, fr, c, a):
    x = ex.read(st, ex.deref(a[0])).fs[0]
    if not (isinstance(x, Agg) and x.name == 'MaybeUninit' and isinstance(x.fs[0], Own)):
        raise Unsupported('address of what is in this cell')
    return ret(st, Raw(x.fs[0].block, z3.IntVal(0)))
@rx(r'<Layout as PartialEq>::(eq|ne)$')
def _(ex, st, fr, c, a):
    x, y = (ex.read(st, ex.deref(r)) for r in a[:2])
    g = And(x.fs[0] == y.fs[0], x.fs[1] == y.fs[1])
    return ret(st, g if c.method == 'eq' else z3.Not(g))

def allocator(ex, st, alloc, method, args):
    """Calls <&A as Allocator>::method of the crate."""
    from program import parse_callee
    cell = ('alloc', fresh_name('a$'))
    st.store[cell] = alloc
    fr = exe.Frame(mir.Fn('box', [], '()'), {'T': 'S'})
    return ex.dispatch(fr, st, parse_callee(f'<&ImplementationDetailDoNotUse<S> as Allocator>::{method}'), [Ref(cell)] + args)

@model('Box::new_in')
def _(ex, st, fr, c, a):
    """Memory from the allocator (none for a zero-sized value), the value moved into it; allocation failure aborts."""
    x = a[0]
    if not isinstance(x, Own) or x.meta is None:
        raise Unsupported(f'Box::new_in of {x!r}')
    m, out = x.meta, []
    def done(s, p):
        s.ghost.update({k: w for k, w in [(('id', p.block), s.ghost.get(('id', x.block)))] if w is not None})
        s.blocks[x.block] = Block(s.blocks[x.block].size, s.blocks[x.block].align, False)
        out.append((s, 'ret', Agg('Box', (Agg('Unique', (p, PHANTOM)), a[1]))))
    for s, zero in ex.split(st, SZ(m) == 0):
        if zero:
            s.ghost['zst'] = x.block
            done(s, std.dangling(s, AL(m)))
            continue
        for s2, k, r in allocator(ex, s, a[1], 'allocate', [Agg('Layout', (SZ(m), AL(m)))]):
            if k != 'ret':
                std.drop_user(ex, s2, Fat(Raw(x.block, z3.IntVal(0)), m))
                out.append((s2, k, r))
                continue
            if r.var != 'Ok':
                continue
            p, n = r.fs[0].thin, r.fs[0].meta
            if p.block in (None, 'null'):
                ex.oblige(s2, z3.BoolVal(False), 'the allocator returns memory', 'alloc')
                continue
            b = s2.blocks[p.block]
            ex.oblige(s2, And(z3.BoolVal(b.live and p.block != x.block), p.off >= 0, p.off + SZ(m) <= b.size, AL(m) <= b.align, dv(AL(m), p.off), n >= SZ(m)),
                      'the allocator returns memory of the layout of the value', 'alloc')
            old, src, off = s2.mem[p.block], s2.mem[x.block], p.off
            s2.mem[p.block] = lambda o, old=old, src=src, off=off: z3.If(z3.And(simp(o) >= off, simp(o) < off + SZ(m)), src(simp(o - off)), old(o))
            done(s2, p)
    return out

@rx(r'<Box as Drop>::drop$')
def _(ex, st, fr, c, a):
    """Gives the memory back to the allocator (unless the value is zero-sized); the value itself has been moved out."""
    b = ex.read(st, ex.deref(a[0]))
    p = b.fs[0].fs[0]
    out = []
    for s, zero in ex.split(st, SZ(p.meta) == 0):
        if zero:
            out.append((s, 'ret', UNIT))
        else:
            out += allocator(ex, s, b.fs[1], 'deallocate', [p.thin, Agg('Layout', (SZ(p.meta), AL(p.meta)))])
    return out

def load_hook(ex, st, p):
    """Moving an unsized value out of its box: it stays where it is."""
    if not isinstance(p, Fat):
        raise Unsupported(f'read through {p!r}')
    if p.thin.block is None:
        b = st.ghost.get('zst')
        ex.oblige(st, And(z3.BoolVal(b is not None), SZ(p.meta) == 0), 'moved out of a valid pointer', 'mem')
        return Own(b, p.meta)
    k = st.blocks[p.thin.block]
    ex.oblige(st, And(z3.BoolVal(k.live), p.thin.off == 0, SZ(p.meta) <= k.size, AL(p.meta) <= k.align), 'moved out of live memory of its layout', 'mem')
    return Own(p.thin.block, p.meta)

def unsizing(v, st, own, m):
    """S is a sized type that coerces to T: its value seen as a T has metadata m (and the size and alignment of S)."""
    v.ex.talign['S'] = (AL(m), SZ(m))
    st.ghost['storage'] = m
    st.ghost['load'] = load_hook
    st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p.thin if isinstance(p, Fat) else p, m)

def new_storage(v, st):
    l = [c for k, cs in v.prog.const_by_key.items() for c in cs if k.endswith('ImplementationDetailDoNotUse>::NEW') or k.endswith('ImplementationDetailDoNotUse::NEW')]
    if len(l) != 1:
        raise Unsupported(f'lost anchor: ImplementationDetailDoNotUse::NEW: {len(l)} constants')
    outs = [o for o in v.ex.run_fn(l[0], [], st) if o[1] == 'ret']
    if len(outs) != 1:
        raise Unsupported('constant NEW')
    st.store[('arg', 'alloc')] = outs[0][2]
    return Ref(('arg', 'alloc'))

def box_unsize():
    """The value is moved, as it is, into the storage; the result points at it with the metadata of the unsized type."""
    def verify(v):
        st = start(v)
        own, m, mem = own_value(st)
        unsizing(v, st, own, m)
        fn = the_fn(v, 'do_not_use_box_unsize')
        a = new_storage(v, st)
        for s, k, r in v.run(st, [own, a], fn=fn):
            if k != 'ret':
                v.fail(s, 'does not panic', ['C15']); continue
            v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', ['C15', 'C04'])
            p = r.fs[0].fs[0]
            good = isinstance(p, Fat)
            v.check(s, p.meta == m if good else z3.BoolVal(False), 'metadata of the unsized type', ['C15'])
            if not good: continue
            if p.thin.block is None:
                v.check(s, And(SZ(m) == 0, p.thin.off > 0, dv(AL(m), p.thin.off)), 'dangling only for a zero-sized value', ['C15'])
                continue
            b = z3.Int(fresh_name('b$'))
            st0 = s.store[('arg', 'alloc')].fs[0].fs[0].fs[0]
            v.check(s, And(z3.BoolVal(p.thin.block == st0.block and s.blocks[st0.block].live), p.thin.off == 0), 'the value is in the storage', ['C15'])
            v.check(s, z3.Implies(z3.And(b >= 0, b < SZ(m)), s.mem[p.thin.block](b) == mem(b)), 'bytes of the value', ['C15'], extra={'b': [b]})
    Spec('do_not_use_box_unsize', ['C15'], verify)
box_unsize()

# ------------------------------------------------------------------ insert_unsize, push_unsize: unsize! and then insert, push
import wrap
wrap.insert(wrap.UV('push_unsize'), True, unsizing, ('ali', 'unal'), ['C15'])
wrap.insert(wrap.UV('insert_unsize'), False, unsizing, ('ali', 'unal'), ['C15'])

# ------------------------------------------------------------------ wrapping and unwrapping of closures
class Droppy:
    """A value whose destruction is recorded."""
    def on_drop(self, ex, st):
        st.events.append(('drop', 'closure', z3.IntVal(0), None))
        return [(st, 'ret', UNIT)]

def passthrough(name, param, retty, arg, want, props):
    """Moves its argument into, or out of, the wrapper: no panic, nothing dropped or run."""
    method = name.split('::')[1]
    def verify(v):
        st = start(v)
        fn = pick(v, method, param, retty)
        a = arg(st)
        for s, k, r in v.run(st, [a], fn=fn):
            v.check(s, z3.BoolVal(k == 'ret'), 'does not panic', props)
            v.check(s, z3.BoolVal(not drops(s)), 'nothing is dropped', props)
            if k == 'ret':
                v.check(s, z3.BoolVal(bool(want(s, a, r))), 'what was given comes back', props)
    Spec(name, props, verify)
passthrough('Emplacable::from_fn', 'F', 'Emplacable<T>', lambda st: Droppy(), lambda s, a, r: r.name == 'Emplacable' and clo_of(r) is a, ['C12', 'C13'])
passthrough('Emplacable::into_fn', 'Emplacable<T>', 'F', lambda st: empl.mk_emp(Droppy()), lambda s, a, r: r is clo_of(a), ['C12', 'C13'])
def _fn(st):
    st.store[('arg', 0)] = Droppy()
    return Ref(('arg', 0))
def _emplacer(st):
    st.store[('arg', 0)] = Agg('Emplacer', (Droppy(),))
    return Ref(('arg', 0))
passthrough('Emplacer::from_fn', '&mut dyn FnMut<>', '&mut Emplacer<T>', _fn, lambda s, a, r: same(r, a), ['C12', 'C13'])
passthrough('Emplacer::into_fn', '&mut Emplacer<T>', '&mut dyn FnMut<>', _emplacer, lambda s, a, r: same(r, Ref(a.cell, (('f', 0),))), ['C12', 'C13'])

# ------------------------------------------------------------------ by_value_str!: a box of the buffer
@model('Box::from_raw_in')
def _(ex, st, fr, c, a):
    return ret(st, Agg('Box', (Agg('Unique', (a[0], PHANTOM)), a[1])))

@prod.over_fat('[]::as_mut_ptr', 'slice::as_mut_ptr', '[]::as_ptr', 'slice::as_ptr')
def _(ex, st, fr, c, a):
    return ret(st, a[0].thin)

def fake_box():
    def verify(v):
        st = start(v)
        n = z3.Int('LEN')
        st.assume(n >= 0, n <= IMAX)
        v.ex.consts = {'LEN': n}
        b = std.new_block(st, n, z3.IntVal(1), 'buffer')
        mem = st.mem[b]
        st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p, n) if isinstance(p, Raw) and '[' in ty else p
        fn = the_fn(v, 'fake_box_str')
        for s, k, r in v.run(st, [Raw(b, z3.IntVal(0))], fn=fn):
            if k != 'ret':
                v.fail(s, 'does not panic', ['C15']); continue
            p = r.fs[0].fs[0]
            good = isinstance(p, Fat) and isinstance(p.thin, Raw)
            v.check(s, And(z3.BoolVal(good and p.thin.block == b), *([p.thin.off == 0, p.meta == n] if good else [])), 'points at the buffer, with its length', ['C15'])
            v.check(s, z3.BoolVal(not drops(s) and s.mem[b] is mem and s.blocks[b].live), 'the buffer is left as it is', ['C15'])
    Spec('fake_box_str', ['C15'], verify)
fake_box()

def allocator_stubs():
    def verify(v):
        for what in ('NonAllocator', 'ImplementationDetailDoNotUse'):
            l = [f for f in v.prog.fns if f.key and f.name.endswith('::deallocate') and what in f.params[0][1]]
            if len(l) != 1:
                raise Unsupported(f'lost anchor: deallocate of {what}')
            st = start(v)
            b = std.new_block(st, z3.Int('size'), z3.Int('al'), 'memory')
            mem = st.mem[b]
            st.store[('arg', 0)] = Opaque('allocator')
            for s, k, r in v.run(st, [Ref(('arg', 0)), Raw(b, z3.IntVal(0)), Agg('Layout', (z3.Int('size'), z3.Int('al')))], fn=l[0]):
                v.check(s, z3.BoolVal(k == 'ret' and s.blocks[b].live and s.mem[b] is mem and not drops(s)), f'{what}: giving the memory back does nothing', ['C15'])
    Spec('deallocate of the fake allocators', ['C15'], verify)
allocator_stubs()

# ------------------------------------------------------------------ PushToUnsizedVec (unsize_vec!, unsized_vec!): push and push_with
def forwards(name, param, method):
    def verify(v):
        st, ref, p = wrap.setup(v)
        l = [f for f in v.prog.fns if f.key and f.name.endswith('::push_to_unsized_vec') and shape_of(f) == param]
        if len(l) != 1:
            raise Unsupported(f'lost anchor: {name}: {len(l)} functions')
        v.ex.root, v.ex.scope_mod = l[0], l[0].name + '::'
        if param == 'T':
            own, m, x = wrap.own_value(v, st)
            arg = own
        else:
            arg, x = wrap.emp()
        for s, k, r in v.run(st, [arg, ref], fn=l[0]):
            q = wrap.view(s, ref)
            if k == 'ret' or s.ghost.get('stage') == 'placed':
                wrap.was_inserted(v, s, p, q, p.n, x, ['C15'] + (['C01'] if k == 'ret' else []))
            else:
                wrap.kept(v, s, p, q, ['C15'], 'panic: ')
    Spec(name, ['C15', 'C01'], verify, parts=wrap.FLAVOURS)
from empl import shape
def shape_of(f):
    return shape(f.params[0][1])
forwards('push_to_unsized_vec of T', 'T', 'push')
forwards('push_to_unsized_vec of an emplacable', 'Emplacable<T>', 'push_with')

# ------------------------------------------------------------------ what the macros expand to (vc/probe/lib.rs: one use of a macro per function)
PROBE = ['C15']
@model('sink')
def _(ex, st, fr, c, a):
    st.ghost['sunk'] = st.ghost.get('sunk', ()) + (a[0],)
    return ret(st, z3.BoolVal(True))

def probe(v, name):
    l = [f for f in v.prog.fns if f.crate == 'probe' and f.name == name]
    if len(l) != 1:
        raise Unsupported(f'lost anchor: {name}')
    v.ex.root, v.ex.scope_mod = l[0], l[0].name + '::'
    return l[0]

def probe_unsize():
    def verify(v):
        st = start(v)
        own, m, mem = own_value(st)
        x = z3.Int('value')
        st.ghost[('id', own.block)] = x
        unsizing(v, st, own, m)
        for s, k, r in v.run(st, [own], fn=probe(v, 'probe_unsize')):
            if k != 'ret':
                v.fail(s, 'does not panic'); continue
            sunk = s.ghost.get('sunk', ())
            v.check(s, z3.BoolVal(len(sunk) == 1 and not drops(s)), 'one value comes out, nothing is dropped')
            v.check(s, z3.BoolVal(not s.ghost.get('heap')), 'no heap memory is used')
            if len(sunk) != 1: continue
            o = sunk[0]
            v.check(s, And(z3.BoolVal(isinstance(o, Own) and s.ghost.get(('id', o.block)) is x and (s.blocks[o.block].live or o.block == own.block)), o.meta == m), 'the value comes out, with the metadata of the unsized type')
            b = z3.Int(fresh_name('b$'))
            v.check(s, z3.Implies(z3.And(b >= 0, b < SZ(m)), s.mem[o.block](b) == mem(b)), 'bytes of the value', extra={'b': [b]})
            v.check(s, z3.Or(SZ(m) == 0, And(s.blocks[o.block].align == AL(m), s.blocks[o.block].size >= SZ(m))), 'memory of the layout of the value')
    Spec('unsize! (vc/probe)', PROBE, verify, kinds=('mem',))
probe_unsize()

class Lit:
    """A string literal: its bytes in static memory."""
@model('str::len', '{str}::len')
def _(ex, st, fr, c, a):
    return ret(st, z3.IntVal(len(literal(a[0]))))
@model('str::as_ptr', '{str}::as_ptr')
def _(ex, st, fr, c, a):
    if isinstance(a[0], Fat):
        return ret(st, a[0].thin)
    d = literal(a[0])
    def mem(o):
        r = z3.IntVal(0)
        for i, x in enumerate(d):
            r = z3.If(simp(o) == i, z3.IntVal(x), r)
        return r
    return ret(st, Raw(std.new_block(st, z3.IntVal(len(d)), z3.IntVal(1), 'literal', mem), z3.IntVal(0)))
def literal(x):
    if not (isinstance(x, Opaque) and re.fullmatch(r'str:"[\w ]*"', x.tag)):
        raise Unsupported(f'string {x!r}')
    return x.tag[5:-1].encode()

def probe_str():
    text = b'proof'
    def verify(v):
        st = start(v)
        n = z3.IntVal(len(text))
        v.ex.consts = {'LEN': n}
        def buffer(ex, s, k):
            return Own(std.new_block(s, k, z3.IntVal(1), 'buffer'), None)
        st.ghost['repeat'] = buffer
        st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p.thin, n) if isinstance(p, Fat) and p.meta is None and '[' in ty else p
        st.ghost['load'] = lambda ex, s, p: Own(p.thin.block, p.meta)
        def drop(ex, s, x, loc):
            return [(s, 'ret', UNIT)] if x.name == 'Box' and isinstance(x.fs[1], Agg) and x.fs[1].name == 'NonAllocator' else None
        st.ghost['drop_agg'] = drop
        for s, k, r in v.run(st, [], fn=probe(v, 'probe_by_value_str')):
            if k != 'ret':
                v.fail(s, 'does not panic'); continue
            sunk = s.ghost.get('sunk', ())
            v.check(s, z3.BoolVal(len(sunk) == 1 and not s.ghost.get('heap') and not drops(s)), 'one value comes out, no heap memory is used')
            if len(sunk) != 1: continue
            o = sunk[0]
            v.check(s, o.meta == n if z3.is_expr(o.meta) else z3.BoolVal(False), 'length of the string')
            v.check(s, And(*[s.mem[o.block](z3.IntVal(i)) == c for i, c in enumerate(text)]), 'bytes of the string')
    Spec('by_value_str! (vc/probe)', PROBE, verify, kinds=('mem',))
probe_str()

def probe_vec(name, n, kind, parts):
    def verify(v):
        st, _, _ = wrap.setup(v)
        base = st.ghost['drop_agg']
        def hook(ex, s, x, loc):
            if x.name == 'UnsizedVec':
                p = wrap.PV(x.fs[0])
                s.events.append(('dropvec', p))
                return std.fork_unwind(ex, s)
            return base(ex, s, x, loc)
        st.ghost['drop_agg'] = hook
        args, ids = [], []
        for i in range(n):
            if kind == 'emp':
                e, x = wrap.emp(f'emp{i}')
                args.append(e)
            else:
                m = z3.Const(f'meta{i}', Meta)
                std.meta_facts(None, st, m)
                aT, sT = v.ex.talign['T']
                if v.part == 'ali': st.assume(AL(m) == aT)
                if v.part == 'sized': st.assume(AL(m) == aT, SZ(m) == sT)
                b, x = std.new_block(st, SZ(m), AL(m), 'value'), z3.Int(f'new{i}')
                st.ghost[('id', b)] = x
                args.append(Own(b, m))
            ids.append(x)
        if n > 1:
            st.assume(z3.Distinct(*ids))
        for s, k, r in v.run(st, args, fn=probe(v, name)):
            gone = []                   # what was destroyed or used up
            for e in s.events:
                if e[0] == 'drop': gone.append(s.ghost[('id', e[1])])
                if e[0] == 'drop_emp': gone.append(wrap.emp_id(v.ex, s, e[1]))
            vecs = [e[1] for e in s.events if e[0] == 'dropvec']
            used = [e for e in s.events if e[0] == 'used']
            if k == 'ret':
                v.check(s, z3.BoolVal(not gone and not vecs), 'nothing is dropped')
                q = wrap.view(s, r)
                v.check(s, And(q.n == n, *[q.c.get(z3.IntVal(i)) == x for i, x in enumerate(ids)]), 'the elements, in the order of the arguments')
                for g in wrap.facts(v.ex, s, q, v.part):
                    v.check(s, g, 'well-formed')
                continue
            v.check(s, z3.BoolVal(s.cause in ('user', 'reserve')), 'panics only when user code does or memory runs out')
            v.check(s, z3.BoolVal(len(vecs) <= 1), 'panic: the vector is dropped at most once')
            gone += [wrap.emp_id(v.ex, s, Agg('Emplacable', (e[1],))) for e in used] if kind == 'emp' else []
            if kind == 'emp':
                v.check(s, z3.BoolVal(sorted(map(str, gone)) == sorted(map(str, ids))), 'panic: each emplacable is used or dropped, once')
            else:
                kept = n - len(gone)
                v.check(s, z3.BoolVal(len(set(map(str, gone))) == len(gone) and len(vecs) == (1 if n else 0)), 'panic: each value is dropped once')
                if vecs:
                    v.check(s, And(vecs[0].n == kept, *[vecs[0].c.get(z3.IntVal(i)) == ids[i] for i in range(kept)]), 'panic: the values pushed so far are dropped with the vector')
                    v.check(s, z3.BoolVal(sorted(map(str, gone)) == sorted(map(str, ids[kept:]))), 'panic: the values not pushed are dropped')
    Spec(f'{name} (vc/probe)', PROBE, verify, parts=parts, kinds=('mem',))
U = ('unal', 'ali')
for _n in (0, 1, 3):
    probe_vec(f'probe_unsize_vec_{_n}', _n, 'value', U)
    probe_vec(f'probe_unsized_vec_{_n}', _n, 'emp', wrap.FLAVOURS)
probe_vec('probe_unsized_vec_3_values', 3, 'value', wrap.FLAVOURS)
