"""The abstract view of the two hand-written vectors: a sequence of elements (bytes, metadata) laid out in one block."""
import z3, itertools
from logic import *
from values import *
import std

class Flavor:
    def __init__(self, unal):
        self.unal = unal
        self.name = 'UnalignedVecInner' if unal else 'AlignedVecInner'
        self.path = 'src/inner/unaligned.rs' if unal else 'src/inner/aligned.rs'
        self.iters = ('UnalignedIter', 'UnalignedIterMut') if unal else ('AlignedIter', 'AlignedIterMut')
    def wrap(self, x):
        return vsu(x) if self.unal else vs(x)
    def fields(self, prog):
        f = prog.struct_fields(self.name, self.path)
        e = prog.struct_fields('ElementInfo', self.path)
        if f is None or e is None:
            raise Unsupported('lost anchor: struct definitions')
        f, e = [n for n, _ in f], [n for n, _ in e]
        want = {'ptr', 'byte_capacity', 'elems_info', '_marker'} | ({'align'} if self.unal else set())
        if set(f) != want or set(e) != {'metadata', 'end_offset'}:
            raise Unsupported(f'lost anchor: fields of {self.name}')
        return f, e

UN, ALI = Flavor(True), Flavor(False)

class View:
    """n elements; element k occupies [start(k), end(k)) of the block and has remainder rem(k)."""
    def __init__(self, fl, prog):
        self.fl, self.prog = fl, prog
    def step(self, x):
        return pad(x, self.a) if self.fl.unal else x
    def start(self, k):
        k = simp(k)
        if self.startf is not None:
            return self.startf(k)
        if is_const_int(k):
            return z3.IntVal(0) if k.as_long() == 0 else self.step(self.end(simp(k - 1)))
        e = self.step(self.end(simp(k - 1)))
        return z3.If(k == 0, z3.IntVal(0), e)
    def size(self, k):
        return self.end(k) - self.start(k)
    def meta(self, k):
        return asmeta(self.rem(k), self.size(k))
    @property
    def blen(self):
        return self.start(self.n)

def struct_val(fl, prog, ptr, bc, vec, a):
    f, e = fl.fields(prog)
    vals = {'ptr': ptr, 'byte_capacity': fl.wrap(bc), 'elems_info': Agg('ManuallyDrop', (vec,)), 'align': va(a) if a is not None else None, '_marker': PHANTOM}
    return Agg(fl.name, [vals[n] for n in f])

def elem_info(fl, prog, rem, end):
    f, e = fl.fields(prog)
    vals = {'metadata': rem, 'end_offset': fl.wrap(end)}
    return Agg('ElementInfo', [vals[n] for n in e])

def leafint(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v

def view_of(fl, prog, st, ref, a_T=None):
    """View of the vector at `ref` in state st."""
    from exe import Exec
    val = st.store[ref.cell] if isinstance(ref, Ref) else ref
    if isinstance(ref, Ref):
        for k, i in ref.path:
            val = val.fs[i]
    if not (isinstance(val, Agg) and val.name == fl.name):
        raise Unsupported(f'not a {fl.name}: {val!r}')
    f, e = fl.fields(prog)
    g = dict(zip(f, val.fs))
    v = View(fl, prog)
    v.val = val
    v.ptr = g['ptr']
    v.bc = leafint(g['byte_capacity'])
    vec = g['elems_info'].fs[0]
    v.vec = vec
    v.n, v.vcap = vec.len, vec.cap
    v.a = leafint(g['align']) if fl.unal else a_T
    im, ie = e.index('metadata'), e.index('end_offset')
    v.end = lambda k: leafint(vec.c.get(simp(k)).fs[ie])
    v.rem = lambda k: vec.c.get(simp(k)).fs[im]
    v.startf = None
    g0 = st.ghost.get(('view', id(vec.c)))
    if g0 is not None and (not fl.unal or same(g0[1], v.a)):
        v.startf = g0[2]
    p = v.ptr
    if isinstance(p, Fat):
        p = p.thin
    v.thin = p
    v.block = p.block if isinstance(p, Raw) else None
    if v.block is not None:
        v.mem = st.mem[v.block]
    else:
        v.mem = None
    return v

def wf_facts(v, st=None):
    """Well-formedness as assumptions: facts and schemas over a view with named functions."""
    n, a = v.n, v.a
    out = [n >= 0, n <= v.vcap, v.vcap <= IMAX, pw(a), v.bc >= 0, v.start(z3.IntVal(0)) == 0]
    if v.fl.unal:
        out += [dv(a, v.bc), v.bc <= IMAX, dv(a, v.bc - v.start(n))]
    else:
        out += [pad(v.bc, a) <= IMAX, v.bc <= IMAX - (a - 1)]
    inr = lambda k, hi: z3.And(k >= 0, k < hi)
    out.append(Schema('k', lambda k: z3.Implies(inr(k, n), And(
        v.start(k) <= v.end(k), v.end(k) <= v.start(k + 1), v.start(k + 1) == v.step(v.end(k)), v.start(k) >= 0, v.start(k + 1) <= v.bc,
        dv(a, v.start(k)), dv(a, v.start(k + 1)))), 'wf'))
    out.append(Schema('k', lambda k: z3.Implies(inr(k, n), meta_ok(v, k)), 'wf-meta'))
    # consequence of the above by induction on j - i
    out.append(Schema('kk', lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j <= n), z3.And(v.end(i) <= v.start(j), v.start(i) <= v.start(j))), 'mono'))
    return out

def meta_ok(v, k):
    m = v.meta(k)
    r = [SZ(m) == v.size(k), pw(AL(m)), dv(AL(m), SZ(m))]
    r.append(AL(m) <= v.a if v.fl.unal else AL(m) == v.a)
    if not v.fl.unal:
        r.append(dv(v.a, v.size(k)))
    return And(*r)

_vn = itertools.count()

def fresh_view(fl, prog, st, ex, tag='', a_T=None, live=None, n=None, vcap=None, bc=None, a=None, rem=None, end=None, start=None, block=None, ptr=None):
    """A symbolic vector value satisfying WF. live: True (block), False (no block)."""
    j = next(_vn)
    c = lambda b: z3.Int(f'{b}{tag}#{j}') if not st.loops else st.fresh(b + tag)
    n = c('n') if n is None else n
    vcap = c('vcap') if vcap is None else vcap
    bc = c('bytecap') if bc is None else bc
    if fl.unal:
        a = c('align') if a is None else a
    else:
        a = a_T
    end = end or st.fresh_fn('end' + tag, I, I, kind='k')
    rem = rem or st.fresh_fn('rem' + tag, I, Rem, kind='k')
    start = start or st.fresh_fn('start' + tag, I, I, kind='k')
    content = Content(get0=lambda k: elem_info(fl, prog, rem(k), end(k)))
    vec = VecV(n, vcap, content)
    if live:
        st.assume(bc > 0)
        if block is None:
            block = std.new_block(st, bc, a, 'buf')
        p = Raw(block, z3.IntVal(0))
    else:
        st.assume(bc == 0)
        p = std.dangling(st, a)
    val = struct_val(fl, prog, p, bc, vec, a)
    st.ghost[('view', id(content))] = (content, a, start)
    v = view_of(fl, prog, st, val, a_T)
    st.assume(*wf_facts(v))
    st.ghost[('wf', id(content))] = (content, v.n, v.bc, v.a, v.block)
    return val, v

def wf_goals(V, st, v, props=('C03',), tag=''):
    """Checks well-formedness of a view in state st."""
    k = z3.Int(fresh_name('k$'))
    inr = z3.And(k >= 0, k < v.n)
    ex = {'k': [k, k - 1, k + 1]}
    P = list(props)
    V.check(st, z3.And(v.n >= 0, v.n <= v.vcap), tag + 'length within capacity', P)
    V.check(st, z3.And(pw(v.a), v.bc >= 0, v.bc <= IMAX, *([dv(v.a, v.bc)] if v.fl.unal else [v.bc <= IMAX - (v.a - 1)])), tag + 'byte capacity and align are valid', sorted(set(P + ['C14', 'C07'])))
    V.check(st, z3.Implies(inr, z3.And(v.start(k) <= v.end(k), v.start(k + 1) <= v.bc)), tag + 'elements lie one after another inside the buffer', P, extra=ex)
    V.check(st, z3.Implies(inr, meta_ok(v, k)), tag + 'size, metadata and alignment of every element', P, extra=ex)
    if v.block is None:
        V.check(st, And(v.bc == 0, And(v.thin.off > 0, dv(v.a, v.thin.off)) if isinstance(v.thin, Raw) and v.thin.block is None else z3.BoolVal(False)), tag + 'no buffer only without byte capacity; dangling pointer is aligned', sorted(set(P + ['C07'])))
    else:
        b = st.blocks[v.block]
        V.check(st, And(z3.BoolVal(b.live), v.thin.off == 0, b.size == v.bc, b.align == v.a, v.bc > 0), tag + 'buffer is live and allocated with exactly this capacity and align', sorted(set(P + ['C07'])))

def same_elem(v0, k0, v1, k1, b=None):
    """Element k1 of v1 is element k0 of v0."""
    f = [v1.size(k1) == v0.size(k0), v1.rem(k1) == v0.rem(k0)]
    if b is not None:
        m0 = v0.mem if v0.mem is not None else (lambda o: z3.IntVal(0))
        m1 = v1.mem if v1.mem is not None else (lambda o: z3.IntVal(0))
        if v0.mem is not None or v1.mem is not None:
            f.append(z3.Implies(z3.And(b >= 0, b < v0.size(k0)), m1(simp(v1.start(k1) + b)) == m0(simp(v0.start(k0) + b))))
    return And(*f)

def elems_same(V, st, v0, v1, lo, hi, shift, props, what, at=None):
    """Elements [lo, hi) of v1 are elements [lo - shift ..] of v0 (index k in v1 corresponds to k - shift in v0)."""
    k, b = z3.Int(fresh_name('k$')), z3.Int(fresh_name('b$'))
    k0 = simp(k - shift)
    ex = {'k': [k, simp(k - 1), simp(k + 1), k0, simp(k0 - 1), simp(k0 + 1)], 'b': [b]}
    inr = z3.And(k >= lo, k < hi)
    # a guess where the elements lie (used only when it is proved)
    via = [(z3.Implies(inr, v1.start(k) == at(k)), ex)] if at else []
    V.check(st, z3.Implies(inr, same_elem(v0, k0, v1, k)), what + ': sizes and metadata', props, extra=ex, via=via)
    V.check(st, z3.Implies(z3.And(inr, b >= 0, b < v0.size(k0)), same_elem(v0, k0, v1, k, b)), what + ': bytes', props, extra=ex, via=via)

# ------------------------------------------------------------------ ghost re-layout
def relayout(v, st, na):
    """Offsets of the same elements laid out for alignment na (recursively defined ghost functions)."""
    key = ('relay', v.fl.name, id(v.vec.c), na.get_id())
    if key in st.ghost:
        return st.ghost[key][1:]
    nstart = st.fresh_fn('nstart', I, I, kind='k')
    nend = st.fresh_fn('nend', I, I, kind='k')
    inr = lambda k: z3.And(k >= 0, k < v.n)
    st.assume(nstart(z3.IntVal(0)) == 0)
    st.assume(Schema('k', lambda k: z3.Implies(inr(k), z3.And(nend(k) == nstart(k) + v.size(k), nstart(k + 1) == pad(nend(k), na),
                                                              nstart(k) >= 0, dv(na, nstart(k)), nend(k) >= nstart(k), nstart(k + 1) >= nend(k), dv(na, nstart(k + 1)))), 'relay'))
    st.assume(Schema('kk', lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j <= v.n), z3.And(nend(i) <= nstart(j), nstart(i) <= nstart(j))), 'relay-mono'))
    # raising the align moves elements right, lowering it left (induction on k)
    st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k <= v.n, v.a <= na), z3.And(nstart(k) >= v.start(k), dv(v.a, nstart(k) - v.start(k)))), 'relay-up'))
    st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k <= v.n, v.a >= na), z3.And(nstart(k) <= v.start(k), dv(na, nstart(k) - v.start(k)))), 'relay-down'))
    st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < v.n, v.a <= na), z3.And(nend(k) >= v.end(k), nstart(k + 1) - nstart(k) >= v.start(k + 1) - v.start(k))), 'relay-up-step'))
    st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < v.n, v.a >= na), z3.And(nend(k) <= v.end(k), nstart(k + 1) - nstart(k) <= v.start(k + 1) - v.start(k))), 'relay-down-step'))
    # there is one layout of these sizes for an align: laying out for the align they came from gives the old offsets (induction on k)
    o = st.ghost.get(('origin', id(v.vec.c)))
    if o is not None and same(o[1].a, na) and same(o[1].n, v.n):
        st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k <= v.n), nstart(k) == o[1].start(k)), 'relay-back'))
        st.assume(Schema('k', lambda k: z3.Implies(z3.And(k >= 0, k < v.n), nend(k) == o[1].end(k)), 'relay-back'))
    st.ghost[key] = (v.vec.c, nstart, nend)
    return nstart, nend
