"""Contract of from_sized: a Vec<S> becomes a vector of T by unsizing every element in place."""
import z3
from logic import *
from values import *
from views import *
from spec import Spec
from vecs import *
from sized import SVec
import std

def from_sized(fl):
    key = key_of(fl, 'from_sized')
    PV = ['C10', 'C01', 'C02']
    def verify(v):
        for live in (True, False):
            if v.part is not None and v.part['live'] != live:
                continue
            st = v.state()
            aS, sS, n, cap = z3.Ints('alignS sizeS n cap')
            aT = None
            v.ex.talign['S'] = (aS, sS)
            st.assume(pw(aS), sS >= 0, sS <= IMAX, dv(aS, sS), n >= 0, n <= cap, cap <= UMAX, z3.Implies(sS == 0, cap == UMAX))
            bc = mul(cap, sS)
            # Vec<S> never holds more than isize::MAX bytes, counted in whole aligned layouts
            st.assume(bc >= 0, bc <= IMAX - (aS - 1))
            if not fl.unal:
                aT = aS              # every value of an Aligned type has its align
                v.ex.talign['T'] = (aT, None)
                st.ghost['talign'] = aT
            mU = z3.Const('metaU', Meta)
            st.assume(SZ(mU) == sS, AL(mU) == aS, asmeta(frommeta(mU), sS) == mU)
            st.ghost['unsize'] = lambda ex, s, p, ty: Fat(p.thin if isinstance(p, Fat) else p, mU)
            if live:
                st.assume(bc > 0)
                blk = std.new_block(st, bc, aS, 'buf')
                uv = SVec(n, cap, blk)
            else:
                st.assume(bc == 0)
                blk = None
                uv = SVec(n, cap, None, aS)
            mem0 = st.mem.get(blk)
            v.ex.small = [n]
            for s, k, r in v.run(st, [uv]):
                if k != 'ret':
                    # the element table could not be allocated
                    v.check(s, z3.BoolVal(s.cause == 'reserve'), 'panics only when memory runs out', ['C10', 'C05'])
                    continue
                s.store[('vec', 0)] = r
                v1 = view1(fl, v, s)
                kk = z3.Int(fresh_name('k$'))
                ex = {'k': [kk, simp(kk - 1), simp(kk + 1)]}
                inr = z3.And(kk >= 0, kk < n)
                v.check(s, v1.n == n, 'as many elements', PV)
                v.check(s, z3.Implies(inr, And(v1.start(kk) == mul(kk, sS), v1.size(kk) == sS)), 'every element stays where it is', PV, extra=ex)
                v.check(s, z3.Implies(inr, v1.meta(kk) == mU), 'every element has the metadata of the unsized pointer', PV, extra=ex)
                v.check(s, And(z3.BoolVal(v1.block == blk), v1.bc == bc, v1.a == aS), 'buffer, byte capacity and align are taken over', ['C10', 'C05', 'C07'])
                if live:
                    v.check(s, z3.BoolVal(v1.mem is mem0), 'no byte of an element changes', PV)
                wf_goals(v, s, v1)
                v.check(s, z3.BoolVal(not any(e[0].startswith('drop') or e[0] in ('alloc', 'free') for e in s.events)), 'nothing is dropped, allocated or freed', ['C04', 'C10', 'C07'])
    Spec(key, ['C10', 'C03', 'C14'], verify, parts=LIVE)

for fl in (UN, ALI):
    from_sized(fl)
