"""Contracts: registry, verification of one function, leaf (arithmetic) contracts."""
import time, z3, traceback, sys, os
from logic import *
from values import *
from program import parse_callee, head
import exe, std, deps
from exe import Exec, Frame, Obligation

class Registry:
    def __init__(self):
        self.specs = {}        # function key -> Spec
        self.all = []
    def add(self, spec):
        for k in spec.keys:
            self.specs[k] = spec
        self.all.append(spec)
    def lookup(self, ex, callee, fn, args):
        if ex.no_contracts:
            return None
        key = fn.key if fn is not None and fn.key else callee.key
        s = self.specs.get(key) or self.specs.get(callee.key)
        if s is None or s.apply_fn is None or (fn is not None and fn is ex.root):
            return None
        if s.guard is not None and not s.guard(ex, args):
            return None
        if s.key == ex.root_key:
            return None
        return s
    def by_fn(self, fn):
        s = self.specs.get(fn.key)
        if s is None or s.apply_fn is None:
            return None
        return s

REG = Registry()

class Spec:
    """One function under contract. verify(V) states and checks the contract against the body;
    apply_fn(ex, st, fr, callee, args) is the same contract as seen by callers (None: callers inline the body)."""
    def __init__(self, name, props, verify, apply_fn=None, keys=None, guard=None, what='', parts=(None,), cost=1, kinds=('arith', 'mem', 'layout', 'alloc')):
        self.name, self.key = name, (keys or [name])[0]
        self.keys = keys or [name]
        self.props, self.verify, self.apply_fn, self.guard, self.what = props, verify, apply_fn, guard, what
        self.kinds = kinds
        self.parts, self.cost = tuple(parts), cost      # cases verified one by one; rough cost in seconds
        REG.add(self)
    def apply(self, ex, st, fr, callee, args):
        return self.apply_fn(ex, st, fr, callee, args)

KIND_PROPS = {
    'arith': ['C14'],
    'mem': ['C03'],
    'layout': ['C14', 'C07'],
    'alloc': ['C07'],
}

class V:
    """Verification of one spec."""
    def __init__(self, prog, spec, budget=240):
        self.prog, self.spec = prog, spec
        self.part = None
        self.ex = Exec(prog, REG, std.Models(), spec.name)
        self.ex.no_contracts = False
        self.ex.root = None
        self.ex.root_key = spec.key
        self.ex.deadline = time.time() + budget
        self.undecided = []
    def fn(self, key=None):
        l = self.prog.by_key.get(key or self.spec.key)
        if not l:
            raise Unsupported(f'lost anchor: no function {key or self.spec.key}')
        f = l[0]
        self.ex.root = f
        self.ex.scope_mod = f.name + '::'
        return f
    def state(self):
        return State()
    def run(self, st, args, fn=None, tenv=None):
        fn = fn or self.fn()
        return self.ex.run_fn(fn, args, st, tenv=tenv)
    def check(self, st, goal, what, props=None, rounds=3, extra=None, via=()):
        n = len(self.ex.obls)
        self.ex.oblige(st, goal, what, 'post', rounds=rounds, extra=extra, via=via)
        for o in self.ex.obls[n:]:
            o.props = props or self.spec.props
    def fail(self, st, what, props=None):
        """The path must be infeasible."""
        self.check(st, z3.BoolVal(False), what, props)

def execute(prog, spec, budget=240, part=None):
    """Symbolic execution of one function under its contract -> (V, error or None); obligations are left to solve."""
    v = V(prog, spec, budget)
    v.part = part
    try:
        spec.verify(v)
    except Unsupported as e:
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
        return v, f'{spec.name}: {e}'
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception, RecursionError) as e:
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
        return v, f'{spec.name}: engine: {type(e).__name__}: {e}'
    return v, None

def obl_props(spec, o):
    return deps.close(spec.name, o.props if o.props is not None else set(KIND_PROPS.get(o.kind, [])) | set(spec.props))

RANK = {'valid': 0, 'unknown': 1, 'invalid': 2}

def fold(results):
    """Obligations of all paths, by name."""
    obls = {}
    for name, kind, props, status, detail in results:
        cur = obls.setdefault((name, kind), dict(name=name, kind=kind, props=props, status='valid', detail='', n=0))
        cur['n'] += 1
        if RANK[status] > RANK[cur['status']]:
            cur['status'], cur['detail'] = status, detail
    return list(obls.values())

def run_spec(prog, spec, budget=240):
    """-> dict (single process)"""
    t = time.time()
    c0, s0 = STAT['checks'], STAT['time']
    res, errs = [], []
    for part in spec.parts:
        v, err = execute(prog, spec, budget, part)
        if err:
            errs.append(err)
        for o in v.ex.obls:
            o.solve()
        res += [(f'{spec.name}: {o.name}', o.kind, obl_props(spec, o), o.status, o.detail) for o in v.ex.obls]
    return dict(spec=spec.name, obls=fold(res), error=errs[0] if errs else None, time=time.time() - t, checks=STAT['checks'] - c0, solver=STAT['time'] - s0)

# ------------------------------------------------------------------ leaf contracts
def invariant(st, kind, x, ta):
    if kind == 'usize': st.assume(x >= 0, x <= UMAX)
    elif kind == 'vsu': st.assume(x >= 0, x <= IMAX)
    elif kind == 'align': st.assume(pw(x))
    elif kind == 'vs': st.assume(x >= 0, x <= IMAX - (ta - 1))

def wrapv(kind, x):
    return {'usize': lambda: x, 'vsu': lambda: vsu(x), 'align': lambda: va(x), 'vs': lambda: vs(x)}[kind]()

def unwrapv(v):
    while isinstance(v, Agg) and v.name in ('ValidSize', 'ValidSizeUnaligned', 'ValidAlign'):
        v = v.fs[0]
    return v

def match(v, want, wrap=True):
    """Formula: result value v equals the wanted (plain ints / Option / Layout) value; None if shapes differ."""
    v = unwrapv(v)
    if is_z(v) and is_z(want):
        return v == want
    if isinstance(v, Agg) and isinstance(want, Agg):
        if v.var != want.var or len(v.fs) != len(want.fs) or (v.var is None and v.name != want.name):
            return None
        parts = [match(a, b) for a, b in zip(v.fs, want.fs)]
        if any(p is None for p in parts):
            return None
        return And(*parts) if parts else z3.BoolVal(True)
    if isinstance(v, Raw) and isinstance(want, Raw) and v.block == want.block:
        return v.off == want.off
    return None

def rewrap(v, kind):
    if kind is None:
        return v
    if isinstance(v, Agg) and v.name == 'Option':
        return Agg('Option', [rewrap(x, kind) for x in v.fs], v.var)
    return wrapv(kind, v)

def leaf(key, args, cases, pre=None, res=None, props=('C14',), byref=()):
    """args: kinds; cases(ta, *xs) -> [(condition, value)], mutually exclusive and exhaustive; ta: align of T."""
    name = key
    def verify(v):
        fn = v.fn()
        st = v.state()
        ta = z3.Int('alignT')
        st.assume(pw(ta))
        v.ex.talign['T'] = (ta, z3.Int('sizeT'))
        v.ex.contracts_off = True
        xs = [z3.Int(f'x{i}') for i in range(len(args))]
        vals = []
        for i, (k, x) in enumerate(zip(args, xs)):
            invariant(st, k, x, ta)
            w = wrapv(k, x)
            if i in byref:
                st.store[('arg', i)] = w
                w = Ref(('arg', i))
            vals.append(w)
        if pre:
            st.assume(*pre(ta, *xs))
        cs = cases(ta, *xs)
        for s, k, r in v.run(st, vals, fn, tenv={}):
            if k != 'ret':
                v.fail(s, 'no panic')
                continue
            alts = []
            for cond, want in cs:
                m = match(r, want)
                if m is not None:
                    alts.append(z3.And(cond, m))
            v.check(s, z3.Or(*alts) if alts else z3.BoolVal(False), 'result')
    def apply_fn(ex, st, fr, c, a):
        xs = []
        for i, x in enumerate(a):
            if i in byref:
                x = ex.read(st, ex.deref(x))
            xs.append(unwrapv(x))
        ta = None
        if 'ValidSize::' in key and 'Unaligned' not in key:
            env = ex.callee_tenv(fr, c, None)
            ta = ex.align_of(st, fr, env.get('T', 'T'))
        if pre:
            for p in pre(ta, *xs):
                ex.oblige(st, p, f'{key}: precondition', 'arith')
        out = []
        rest = st
        cs = cases(ta, *xs)
        if all(is_z(w) for _, w in cs) or all(isinstance(w, Agg) and w.var == 'Some' and is_z(w.fs[0]) for _, w in cs):
            # one value, no case split
            val = cs[-1][1] if is_z(cs[-1][1]) else cs[-1][1].fs[0]
            for cond, want in cs[-2::-1]:
                val = z3.If(cond, want if is_z(want) else want.fs[0], val)
            return [(rest, 'ret', rewrap(val if is_z(cs[-1][1]) else some(val), res))]
        for i, (cond, want) in enumerate(cs):
            if i == len(cs) - 1:
                out.append((rest, 'ret', rewrap(want, res)))
                break
            nxt = None
            for s, t in ex.split(rest, cond):
                if t:
                    out.append((s, 'ret', rewrap(want, res)))
                else:
                    nxt = s
            if nxt is None:
                break
            rest = nxt
        # remember the defining facts of the results
        return out
    return Spec(name, list(props), verify, apply_fn, keys=[key])

T1 = z3.BoolVal(True)
def opt(c, v):
    return [(c, some(v)), (z3.Not(c), NONE)]

MAXT = lambda ta: IMAX - (ta - 1)
leaf('ValidSize::new_unchecked', ['usize'], lambda ta, x: [(T1, x)], pre=lambda ta, x: [x <= MAXT(ta)], res='vs')
leaf('ValidSize::new', ['usize'], lambda ta, x: opt(x <= MAXT(ta), x), res='vs')
leaf('ValidSize::new_squished', ['usize'], lambda ta, x: [(x <= MAXT(ta), x), (x > MAXT(ta), MAXT(ta))], res='vs')
leaf('ValidSize::get', ['vs'], lambda ta, x: [(T1, x)])
leaf('ValidSize::checked_add', ['vs', 'vs'], lambda ta, x, y: opt(x + y <= MAXT(ta), x + y), res='vs')
leaf('ValidSize::unchecked_add', ['vs', 'vs'], lambda ta, x, y: [(T1, x + y)], pre=lambda ta, x, y: [x + y <= MAXT(ta)], res='vs')
leaf('ValidSize::unchecked_sub', ['vs', 'vs'], lambda ta, x, y: [(T1, x - y)], pre=lambda ta, x, y: [x >= y], res='vs')
leaf('ValidSize::as_layout', ['vs'], lambda ta, x: [(T1, Agg('Layout', (x, ta)))], props=('C14', 'C07'))
leaf('ValidSize::as_unaligned', ['vs'], lambda ta, x: [(T1, x)], res='vsu')
leaf('ValidSizeUnaligned::new_unchecked', ['usize'], lambda ta, x: [(T1, x)], pre=lambda ta, x: [x <= IMAX], res='vsu')
leaf('ValidSizeUnaligned::new', ['usize'], lambda ta, x: opt(x <= IMAX, x), res='vsu')
leaf('ValidSizeUnaligned::get', ['vsu'], lambda ta, x: [(T1, x)])
leaf('ValidSizeUnaligned::max_for_align', ['align'], lambda ta, a: [(T1, IMAX - (a - 1))], res='vsu')
leaf('ValidSizeUnaligned::new_padded_to', ['usize', 'align'], lambda ta, x, a: opt(pad(x, a) <= IMAX, pad(x, a)), res='vsu')
leaf('ValidSizeUnaligned::new_squished_to', ['usize', 'align'], lambda ta, x, a: [(x <= IMAX - (a - 1), x), (x > IMAX - (a - 1), IMAX - (a - 1))], res='vsu')
leaf('ValidSizeUnaligned::checked_add', ['vsu', 'vsu'], lambda ta, x, y: opt(x + y <= IMAX, x + y), res='vsu')
leaf('ValidSizeUnaligned::unchecked_add', ['vsu', 'vsu'], lambda ta, x, y: [(T1, x + y)], pre=lambda ta, x, y: [x + y <= IMAX], res='vsu')
leaf('ValidSizeUnaligned::unchecked_sub', ['vsu', 'vsu'], lambda ta, x, y: [(T1, x - y)], pre=lambda ta, x, y: [x >= y], res='vsu')
leaf('ValidSizeUnaligned::checked_pad_to', ['vsu', 'align'], lambda ta, x, a: opt(pad(x, a) <= IMAX, pad(x, a)), res='vsu')
leaf('ValidSizeUnaligned::unchecked_pad_to', ['vsu', 'align'], lambda ta, x, a: [(T1, pad(x, a))], pre=lambda ta, x, a: [pad(x, a) <= IMAX], res='vsu')
leaf('ValidSizeUnaligned::checked_add_pad', ['vsu', 'usize', 'align'],
     lambda ta, x, y, a: [(z3.And(x + y <= UMAX, pad(x + y, a) <= IMAX), some(pad(x + y, a))), (z3.Or(x + y > UMAX, pad(x + y, a) > IMAX), NONE)], res='vsu')
leaf('ValidSizeUnaligned::as_layout_with_align_unchecked', ['vsu', 'align'], lambda ta, x, a: [(T1, Agg('Layout', (x, a)))],
     pre=lambda ta, x, a: [pad(x, a) <= IMAX], props=('C14', 'C07'))
leaf('ValidAlign::new', ['usize'], lambda ta, x: opt(pw(x), x), res='align', props=('C14', 'C03'))
leaf('ValidAlign::new_unckecked', ['usize'], lambda ta, x: [(T1, x)], pre=lambda ta, x: [pw(x)], res='align', props=('C14', 'C03'))
leaf('ValidAlign::get', ['align'], lambda ta, a: [(T1, a)], props=('C14', 'C03'))
leaf('ValidAlign::as_usize', ['align'], lambda ta, a: [(T1, a)], props=('C14', 'C03'))
leaf('ValidAlign::minus_1', ['align'], lambda ta, a: [(T1, a - 1)])
leaf('ValidAlign::dangling_thin', ['align'], lambda ta, a: [(T1, Raw(None, a))], props=('C14', 'C03'))
leaf('<usize as From>::from', ['align'], lambda ta, a: [(T1, a)])
ORD = lambda x, y: [(x < y, z3.IntVal(-1)), (x == y, z3.IntVal(0)), (x > y, z3.IntVal(1))]
leaf('<ValidAlign as Ord>::cmp', ['align', 'align'], lambda ta, x, y: ORD(x, y), byref=(0, 1))
leaf('<ValidAlign as PartialOrd>::partial_cmp', ['align', 'align'], lambda ta, x, y: [(c, some(o)) for c, o in ORD(x, y)], byref=(0, 1))
leaf('<ValidAlign as PartialEq>::eq', ['align', 'align'], lambda ta, x, y: [(T1, x == y)], byref=(0, 1))
leaf('<ValidSize as Ord>::cmp', ['vs', 'vs'], lambda ta, x, y: ORD(x, y), byref=(0, 1))
leaf('<ValidSize as PartialOrd>::partial_cmp', ['vs', 'vs'], lambda ta, x, y: [(c, some(o)) for c, o in ORD(x, y)], byref=(0, 1))
leaf('<ValidSize as PartialEq>::eq', ['vs', 'vs'], lambda ta, x, y: [(T1, x == y)], byref=(0, 1))
leaf('<ValidSizeUnaligned as Ord>::cmp', ['vsu', 'vsu'], lambda ta, x, y: ORD(x, y), byref=(0, 1))
leaf('<ValidSizeUnaligned as PartialOrd>::partial_cmp', ['vsu', 'vsu'], lambda ta, x, y: [(c, some(o)) for c, o in ORD(x, y)], byref=(0, 1))
leaf('<ValidSizeUnaligned as PartialEq>::eq', ['vsu', 'vsu'], lambda ta, x, y: [(T1, x == y)], byref=(0, 1))
def _decompose():
    def verify(v):
        st = v.state()
        sz, al = z3.Ints('sz al')
        st.assume(sz >= 0, pw(al), pad(sz, al) <= IMAX)
        for s, k, r in v.run(st, [Agg('Layout', (sz, al))]):
            if k != 'ret':
                v.fail(s, 'no panic'); continue
            v.check(s, And(unwrapv(r.fs[0]) == sz, unwrapv(r.fs[1]) == al), 'result')
    def apply_fn(ex, st, fr, c, a):
        st.assume(a[0].fs[0] >= 0, pw(a[0].fs[1]), pad(a[0].fs[0], a[0].fs[1]) <= IMAX, a[0].fs[0] <= IMAX)
        return [(st, 'ret', tup(vsu(a[0].fs[0]), va(a[0].fs[1])))]
    Spec('decompose', ['C14', 'C03'], verify, apply_fn, keys=['decompose'])
_decompose()
