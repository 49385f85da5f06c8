"""Contracts of the iterators of the two hand-written vectors: every method from every reachable iterator state.
An iterator with elements lo..hi left yields element lo from the front and hi-1 from the back."""
import z3
from logic import *
from values import *
from views import *
from spec import Spec
from vecs import *

P9 = ['C09']

def find_path(v, want, path=()):
    """Paths of the parts of a structured value that satisfy `want`."""
    if want(v):
        return [path]
    if isinstance(v, Agg):
        return [p for i, x in enumerate(v.fs) for p in find_path(x, want, path + (('f', i),))]
    return []

def is_int(x): return is_z(x) and x.sort() == I

class ItShape:
    """Where an iterator of the vector keeps its range and the offset of its front."""
    def __init__(self, ex, fl, it):
        self.ex = ex
        r = find_path(it, lambda x: isinstance(x, Agg) and x.name == 'Iter')
        o = find_path(it, lambda x: isinstance(x, Agg) and x.name in ('ValidSize', 'ValidSizeUnaligned'))
        if len(r) != 1 or len(o) != 1:
            raise Unsupported('lost anchor: fields of the iterator')
        self.r, self.o = r[0], o[0]
    def get(self, it, p):
        for q in p:
            it = self.ex.proj(it, q)
        return it
    def rng(self, it): return self.get(it, self.r)
    def off(self, it): return leafint(self.get(it, self.o))
    def make(self, fl, it, lo, hi, off):
        it = self.ex.update(it, self.r, self.rng(it).with_(1, lo).with_(2, hi))
        return self.ex.update(it, self.o, fl.wrap(off))

def fresh_iter(v, fl, mut):
    """[(state, cell ref of an iterator in an arbitrary reachable state, view, lo, hi, shape)]"""
    for live, st, ref, vw in setups(v, fl):
        fn = v.prog.by_key.get(key_of(fl, 'iter_mut' if mut else 'iter'))
        if not fn:
            raise Unsupported('lost anchor: iter')
        for s, k, it in v.ex.run_fn(fn[0], [ref], st):
            if k != 'ret':
                continue
            sh = ItShape(v.ex, fl, it)
            lo, hi, off = z3.Ints('lo hi front')
            s.assume(lo >= 0, lo <= hi, hi <= vw.n, off >= 0, z3.Implies(lo < hi, off == vw.start(lo)))
            s.store[('it', 0)] = sh.make(fl, it, lo, hi, off)
            yield s, Ref(('it', 0)), vw, lo, hi, sh

def it_state(v, s, vw, sh, lo, hi, what=''):
    """The iterator has elements lo..hi left and is in a reachable state."""
    it = s.store[('it', 0)]
    r = sh.rng(it)
    ex = {'k': [lo, hi, simp(lo - 1), simp(hi - 1)]}
    v.check(s, And(r.fs[1] == lo, r.fs[2] == hi), what + 'elements left', P9, extra=ex)
    v.check(s, z3.Implies(lo < hi, sh.off(it) == vw.start(lo)), what + 'offset of the front', P9, extra=ex)

def opt_elem(v, s, vw, r, cond, i, what=''):
    """r is Some(element i) exactly if cond."""
    if r.var == 'None':
        v.check(s, z3.Not(cond), what + 'None only when nothing is left', P9)
    else:
        v.check(s, cond, what + 'Some only when something is left', P9)
        elem_ref_ok(v, s, vw, i, r.fs[0], P9, what)

def method(fl, mut, trait, m, body, byval=False, more=()):
    name = fl.iters[1 if mut else 0]
    def verify(v):
        for s0, ref, vw, lo, hi, sh in fresh_iter(v, fl, mut):
            args = list(more)
            s0.assume(*[z3.And(x >= 0, x <= UMAX) for x in args])
            a0 = s0.store[('it', 0)] if byval else ref
            for s, k, r in v.run(s0, [a0] + args):
                if k != 'ret':
                    v.fail(s, 'no panic', P9); continue
                body(v, s, vw, lo, hi, sh, r, *args)
    Spec(f'<{name} as {trait}>::{m}', P9 + ['C03'], verify, parts=LIVE)

def _next(v, s, vw, lo, hi, sh, r):
    opt_elem(v, s, vw, r, lo < hi, lo)
    it_state(v, s, vw, sh, *((simp(lo + 1), hi) if r.var == 'Some' else (lo, hi)))
def _next_back(v, s, vw, lo, hi, sh, r):
    opt_elem(v, s, vw, r, lo < hi, simp(hi - 1))
    it_state(v, s, vw, sh, *((lo, simp(hi - 1)) if r.var == 'Some' else (lo, hi)))
def _nth(v, s, vw, lo, hi, sh, r, n):
    opt_elem(v, s, vw, r, n < hi - lo, simp(lo + n))
    if r.var == 'Some':
        it_state(v, s, vw, sh, simp(lo + n + 1), hi)
    else:
        it = s.store[('it', 0)]
        v.check(s, sh.rng(it).fs[1] == sh.rng(it).fs[2], 'nothing is left after running past the end', P9)
def _last(v, s, vw, lo, hi, sh, r):
    opt_elem(v, s, vw, r, lo < hi, simp(hi - 1))
def _len(v, s, vw, lo, hi, sh, r):
    v.check(s, r == hi - lo, 'number of elements left', P9)
def _hint(v, s, vw, lo, hi, sh, r):
    v.check(s, And(r.fs[0] == hi - lo, r.fs[1].fs[0] == hi - lo) if r.fs[1].var == 'Some' else z3.BoolVal(False), 'exact bounds', P9)

def whole(fl, mut):
    """iter / iter_mut start with all elements."""
    m = 'iter_mut' if mut else 'iter'
    def verify(v):
        for live, st, ref, vw in setups(v, fl):
            for s, k, r in v.run(st, [ref]):
                if k != 'ret':
                    v.fail(s, 'no panic', P9); continue
                sh = ItShape(v.ex, fl, r)
                s.store[('it', 0)] = r
                it_state(v, s, vw, sh, z3.IntVal(0), vw.n)
                v.check(s, z3.BoolVal(isinstance(sh.rng(r).fs[0], Ref) and sh.rng(r).fs[0].cell == ref.cell), 'it walks the table of this vector', P9)
    Spec(key_of(fl, m), P9, verify, parts=LIVE)

for fl in (UN, ALI):
    for mut in (False, True):
        whole(fl, mut)
        method(fl, mut, 'Iterator', 'next', _next)
        method(fl, mut, 'DoubleEndedIterator', 'next_back', _next_back)
        method(fl, mut, 'Iterator', 'nth', _nth, more=(z3.Int('nth'),))
        method(fl, mut, 'Iterator', 'last', _last, byval=True)
        method(fl, mut, 'Iterator', 'count', _len, byval=True)
        method(fl, mut, 'Iterator', 'size_hint', _hint)
        method(fl, mut, 'ExactSizeIterator', 'len', _len)
