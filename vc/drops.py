"""Contracts of Drop for the two hand-written vectors and of their empty values."""
import z3
from logic import *
from values import *
from views import *
from spec import Spec
from vecs import *

def subst_ev(e, it, k):
    return tuple(z3.substitute(x, (it, k)) if is_z(x) else x for x in e)

def flat_drops(v, s, vw, upto):
    """Checks that the destructor events of the path are exactly those of elements 0..upto, in order."""
    seq = []         # (first index, count, event as function of the index)
    pos = z3.IntVal(0)
    for e in s.events:
        if e[0] == 'loop':
            _, it, n, evs = e
            ds = [x for x in evs if x[0].startswith('drop')]
            if not ds:
                continue
            if len(ds) != 1:
                v.fail(s, 'one destructor call per element', ['C04'])
                continue
            seq.append((pos, n, (lambda d, it: lambda i: subst_ev(d, it, i))(ds[0], it)))
            pos = simp(pos + n)
        elif e[0] == 'drop':
            seq.append((pos, z3.IntVal(1), (lambda d: lambda i: d)(e)))
            pos = simp(pos + 1)
    v.check(s, pos == upto, 'as many destructor calls as elements', ['C04'] if True else None)
    for first, n, f in seq:
        i = z3.Int(fresh_name('i$'))
        k = simp(first + i)
        _, blk, off, m = f(i)
        ex = {'k': [k, simp(k - 1), simp(k + 1)], 'i': [i]}
        inr = z3.And(i >= 0, i < n)
        want = vw.start(k) if vw.block is not None else vw.thin.off
        v.check(s, z3.Implies(inr, And(z3.BoolVal(blk == vw.block), off == want, m == vw.meta(k))), 'every element is destroyed in its place, in order', ['C04'], extra=ex)
    return pos

def drop_vec(fl):
    key = f'<{fl.name} as Drop>::drop'
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            base = len(st.events)
            if fl.unal:
                v.ex.hints['fns'] = [('start', vw.start), ('end', vw.end)]
            for s, k, r in v.run(st, [ref]):
                if k == 'ret':
                    flat_drops(v, s, vw, vw.n)
                    if vw.block is not None:
                        v.check(s, z3.BoolVal(not s.blocks[vw.block].live), 'the buffer is released', ['C04', 'C07'])
                    v.check(s, z3.BoolVal(not any(b.live for b in s.blocks.values())), 'no memory is left allocated', ['C04', 'C07'])
                    v.check(s, z3.BoolVal([e[0] for e in s.events].count('dropvec') == 1 and [e for e in s.events if e[0] == 'dropvec'][0][1].c is vw.vec.c), 'the element table is released', ['C04'])
                else:
                    v.check(s, z3.BoolVal(s.cause == 'user'), 'panics only when a destructor does', ['C08'])
                    # the destructor of the last one listed panicked; those before it ran, none twice
                    pos = flat_drops_prefix(v, s, vw)
    Spec(key, ['C04', 'C07', 'C08', 'C03', 'C14'], verify, parts=LIVE)

def flat_drops_prefix(v, s, vw):
    n = len([e for e in s.events])
    cnt = z3.IntVal(0)
    for e in s.events:
        if e[0] == 'loop' and any(x[0] == 'drop' for x in e[3]):
            cnt = simp(cnt + e[2])
        elif e[0] == 'drop':
            cnt = simp(cnt + 1)
    v.check(s, cnt <= vw.n, 'panic: no element is destroyed twice', ['C08', 'C04'])
    flat_drops(v, s, vw, cnt)

def empty(fl, name):
    """The constants NEW_ALIGN_1 and NEW_ALIGN_PTR: well-formed, empty, without allocation."""
    key = key_of(fl, name)
    def verify(v):
        st = v.state()
        aT = None
        if not fl.unal:
            aT = z3.Int('alignT')
            st.assume(pw(aT))
            v.ex.talign['T'] = (aT, None)
            st.ghost['talign'] = aT
        c = v.prog.const_by_key.get(key)
        if not c or len(c) != 1:
            raise Unsupported(f'lost anchor: no constant {key}')
        for s, k, r in v.ex.run_fn(c[0], [], st, tenv={}):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            s.store[('vec', 0)] = r
            vw = view1(fl, v, s)
            v.check(s, And(vw.n == 0, vw.bc == 0, z3.BoolVal(vw.block is None)), 'empty, without memory', ['C01', 'C05', 'C07'])
            v.check(s, pw(vw.a), 'the align is valid', ['C03', 'C14'])
            v.check(s, And(vw.thin.off > 0, dv(vw.a, vw.thin.off)) if isinstance(vw.thin, Raw) and vw.thin.block is None else z3.BoolVal(False), 'dangling pointer aligned', ['C03'])
            if fl.unal:
                v.check(s, vw.a == (1 if name == 'NEW_ALIGN_1' else 8), 'starting align', ['C06', 'C05'])
    Spec(key, ['C01', 'C03', 'C05'], verify)

for fl in (UN, ALI):
    drop_vec(fl)
    empty(fl, 'NEW_ALIGN_1')
    empty(fl, 'NEW_ALIGN_PTR')
