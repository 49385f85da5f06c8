"""The assertion language: Z3 integers, a theory of padding/alignment given by ground lemmas
(proved separately in lemmas.py), universally quantified facts ("schemas") that are
instantiated over the ground terms of an obligation, and the prover entry point."""
import ctypes, functools, itertools, time, os, subprocess
import z3

W = 2 ** 64
IMAX = 2 ** 63 - 1
UMAX = 2 ** 64 - 1
I, B = z3.IntSort(), z3.BoolSort()
Rem = z3.DeclareSort('Rem')
Meta = z3.DeclareSort('Meta')
Val = z3.DeclareSort('Val')
pad = z3.Function('pad', I, I, I)          # pad(x, a): least multiple of a not below x
dv = z3.Function('dv', I, I, B)            # dv(a, x): a divides x
pw = z3.Function('pw', I, B)               # a is a power of two (1 .. 2^63)
mul = z3.Function('mul', I, I, I)          # products of two unknowns
SZ = z3.Function('size_of_meta', Meta, I)  # size of the value a pointer with this metadata refers to
AL = z3.Function('align_of_meta', Meta, I)
asmeta = z3.Function('as_metadata', Rem, I, Meta)
frommeta = z3.Function('from_metadata', Meta, Rem)

_n = itertools.count()

def fresh_name(base):
    return f'{base}!{next(_n)}'

# Functions whose first argument is an element index / loop iteration / byte offset inside an element.
KIND = {}

def elem_fn(base, *sorts, kind='k'):
    f = z3.Function(fresh_name(base), *sorts)
    KIND[f.name()] = kind
    return f

class Schema:
    """forall args (of the given kinds). body(args)"""
    __slots__ = ('kinds', 'body', 'tag')
    def __init__(self, kinds, body, tag=''):
        self.kinds, self.body, self.tag = kinds, body, tag

STAT = dict(checks=0, time=0.0, cvc5_ok=0, cvc5_none=0, cvc5_time=0.0)
# Thorough tier: what Z3 finds unsatisfiable is given to cvc5 as well.
CROSS = os.environ.get('VC_CVC5', '')

def cvc5_says(smt2, limit=5):
    t0 = time.time()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={limit * 1000}', '-'], input='(set-logic ALL)\n' + smt2, capture_output=True, text=True, timeout=limit + 5)
        a = r.stdout.strip().split('\n')[0]
        return a if a in ('sat', 'unsat') else 'unknown'
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'
    finally:
        STAT['cvc5_time'] += time.time() - t0

def cross(s):
    """The second opinion on an unsatisfiable set of ground assertions: False only if cvc5 has a model."""
    a = cvc5_says(s.to_smt2())
    if a == 'sat':
        return False
    STAT['cvc5_ok' if a == 'unsat' else 'cvc5_none'] += 1
    return True

def simp(x):
    return z3.simplify(x, som=True, arith_lhs=False)

def is_const_int(x):
    return z3.is_int_value(x)

def linear(e):
    """Integer term -> ({atom_id: (atom, coeff)}, const) or None."""
    res, const = {}, 0
    stack = [(e, 1)]
    while stack:
        t, c = stack.pop()
        if z3.is_int_value(t):
            const += c * t.as_long()
            continue
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                for a in t.children():
                    stack.append((a, c))
                continue
            if k == z3.Z3_OP_SUB:
                ch = t.children()
                stack.append((ch[0], c))
                for a in ch[1:]:
                    stack.append((a, -c))
                continue
            if k == z3.Z3_OP_UMINUS:
                stack.append((t.children()[0], -c))
                continue
            if k == z3.Z3_OP_MUL:
                ch = t.children()
                if z3.is_int_value(ch[0]) and len(ch) == 2:
                    stack.append((ch[1], c * ch[0].as_long()))
                    continue
        i = t.get_id()
        a, k0 = res.get(i, (t, 0))
        res[i] = (t, k0 + c)
    return {i: v for i, v in res.items() if v[1] != 0}, const

# Calls that cannot fail on well-formed terms: no error query after each of them.
for _f in ('Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg',
           'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_is_app', 'Z3_is_eq_ast', 'Z3_to_app', 'Z3_get_decl_name', 'Z3_get_symbol_kind', 'Z3_get_arity',
           'Z3_is_eq_sort', 'Z3_is_numeral_ast', 'Z3_app_to_ast', 'Z3_func_decl_to_ast', 'Z3_sort_to_ast'):
    _g = getattr(z3.z3core, _f, None)
    if _g is not None and _g.__defaults__ and hasattr(_g.__defaults__[0], 'Check'):
        _g.__defaults__[0].Check = lambda *a: None

# What is known about a term, by its id; every term with an entry is kept alive, so that ids are not reused.
NOTES, NODES, ITE_AT, FACTS, KEEP = {}, {}, {}, {}, []

def _own(t, i):
    """What this application itself contributes: a list of (table, key, term)."""
    d = t.decl()
    nm = d.name()
    if d.arity() == 0:
        if t.sort() == I:
            for pre, kk in (('b$', 'b'), ('k$', 'k'), ('it$', 'i')):
                if nm.startswith(pre):
                    return [(kk, i, t)]
        elif t.sort() == Meta:
            return [('m', i, t)]
        return []
    out = []
    if nm in ('pad', 'dv', 'pw', 'mul'):
        out.append((nm, i, t))
    else:
        k = KIND.get(nm)
        if k:
            for kk, c in zip(k, t.children()):
                if kk != '.':
                    c = simp(c) if not z3.is_const(c) else c
                    out.append((kk, c.get_id(), c))
    if t.sort() == Meta:
        out.append(('m', i, t))
    return out

# Terms are walked by address: one wrapper object per term would cost most of the run.
_P = ctypes.c_void_p
def _raw(name, res, *args):
    addr = ctypes.cast(getattr(z3.z3core, name).__defaults__[0].f, _P).value
    return functools.partial(ctypes.PYFUNCTYPE(res, _P, *args)(addr), z3.main_ctx().ref().value)
_id, _kind, _nargs = _raw('Z3_get_ast_id', ctypes.c_uint, _P), _raw('Z3_get_ast_kind', ctypes.c_int, _P), _raw('Z3_get_app_num_args', ctypes.c_uint, _P)
_arg, _decl, _dkind = _raw('Z3_get_app_arg', _P, _P, ctypes.c_uint), _raw('Z3_get_app_decl', _P, _P), _raw('Z3_get_decl_kind', ctypes.c_uint, _P)
_sort = _raw('Z3_get_sort', _P, _P)
DECLS = {}

def _wrap(p):
    return z3.z3._to_expr_ref(z3.z3types.Ast.from_buffer_copy(_P(p)), z3.main_ctx())

def _node(p, i):
    """(what it contributes, its arguments, 1 if it is an if-then-else) of the term at address p."""
    k = _kind(p)
    if k == z3.Z3_NUMERAL_AST or k != z3.Z3_APP_AST:
        return (), (), False
    d = _decl(p)
    dk = DECLS.get(d)
    if dk is None:
        dk = DECLS[d] = _dkind(d)
        KEEP.append(z3.FuncDeclRef(z3.z3types.FuncDecl.from_buffer_copy(_P(d)), z3.main_ctx()))
    n = _nargs(p)
    own = ()
    if dk == z3.Z3_OP_UNINTERPRETED:
        own = _own(_wrap(p), i)
    elif n == 0 or dk == z3.Z3_OP_ITE:
        if _sort(p) == META:
            own = [('m', i, _wrap(p))] if n == 0 else ()
    return own, tuple([_arg(p, j) for j in range(n)]), dk == z3.Z3_OP_ITE

META = Meta.ast.value if hasattr(Meta.ast, 'value') else Meta.ast

def notes(e):
    """The terms of interest below e, in the order of a depth-first walk; each subterm once."""
    e0 = e.get_id()
    r = NOTES.get(e0)
    if r is None:
        KEEP.append(e)
        r, seen, st = [], set(), [e.as_ast().value]
        while st:
            p = st.pop()
            i = _id(p)
            if i in seen:
                continue
            seen.add(i)
            o = NODES.get(i)
            if o is None:
                o = NODES[i] = _node(p, i)
            if o[0]:
                r.extend(o[0])
            st.extend(o[1])
        NOTES[e0] = r
    return r

class Collector:
    """Ground terms of interest in a set of assertions."""
    def __init__(self):
        self.seen = set()
        self.pads, self.dvs, self.pws, self.muls = {}, {}, {}, {}
        self.ix = {'k': {}, 'i': {}, 'b': {}, 'm': {}, 'o': {}}
        self.tab = {'pad': self.pads, 'dv': self.dvs, 'pw': self.pws, 'mul': self.muls, **self.ix}

    def add_ix(self, kind, t):
        t = simp(t) if not (z3.is_const(t)) else t
        self.ix[kind].setdefault(t.get_id(), t)

    def walk(self, e):
        i = e.get_id()
        if i in self.seen:
            return
        self.seen.add(i)
        for tab, j, t in notes(e):
            self.tab[tab].setdefault(j, t)

def _ite_branches(e):
    """Terms obtained by resolving the if-then-elses of e one way or the other (at most 6)."""
    out = []
    def go(t, d):
        ite = _find_ite(t)
        if ite is None or d > 4 or len(out) > 6:
            out.append(t)
            return
        c, a, b = ite.children()
        go(z3.substitute(t, (ite, a)), d + 1)
        go(z3.substitute(t, (ite, b)), d + 1)
    go(e, 0)
    return out

def _find_ite(t):
    """The first if-then-else of a depth-first walk of t."""
    KEEP.append(t)
    st, seen = [t.as_ast().value], set()
    while st:
        p = st.pop()
        i = _id(p)
        if i in seen:
            continue
        seen.add(i)
        o = NODES.get(i)
        if o is None:
            o = NODES[i] = _node(p, i)
        if o[2]:
            return _wrap(p)
        st.extend(o[1])
    return None

def has_ite(t):
    i = t.get_id()
    r = ITE_AT.get(i)
    if r is None:
        r = ITE_AT[i] = _find_ite(t) is not None
    return r

class Instantiator:
    def __init__(self, schemas, add, extra=None, cache=True):
        self.col = Collector()
        self.schemas = schemas
        self.add = add
        self.done = set()
        self.nschema = 0
        self.cache = FACTS if cache else {}
        for kind, ts in (extra or {}).items():
            for t in ts:
                self.col.add_ix(kind, t)

    def feed(self, e):
        self.col.walk(e)

    def round(self, budget=4000):
        """One round of instantiation; returns the number of new facts."""
        self.new = []
        c = self.col
        # ite-free variants of pad arguments
        for i, p in list(c.pads.items()):
            if ('ite', i) in self.done:
                continue
            self.done.add(('ite', i))
            if has_ite(p):
                for v in branches(p):
                    c.walk(v)
        ks = list(c.ix['k'].values())
        its = list(c.ix['i'].values())
        bs = list(c.ix['b'].values())
        ms = list(c.ix['m'].values())
        doms = {'k': ks, 'i': its, 'b': bs, 'm': ms, 'o': list(c.ix['o'].values())}
        for si, s in enumerate(self.schemas):
            for tup in itertools.product(*[doms[k] for k in s.kinds]):
                key = ('s', si) + tuple(t.get_id() for t in tup)
                if key in self.done:
                    continue
                self.nschema += 1
                if self.nschema > budget:
                    break
                self.done.add(key)
                ck = (id(s),) + key[2:]
                c0 = self.cache.get(ck)
                if c0 is None:
                    f = s.body(*tup)
                    c0 = self.cache[ck] = (None if z3.is_true(f) else f, s, tup)
                f = c0[0]
                if f is not None:
                    self.add(f)
                    self.new.append(f)
        self.pad_lemmas()
        for f in self.new:
            c.walk(f)
        return len(self.new)

    def pad_lemmas(self):
        c, done, new, add = self.col, self.done, self.new, self.add
        def lem(key, mk, *args):
            if key in done:
                return
            done.add(key)
            fs = FACTS.get(key)
            if fs is None:
                fs = FACTS[key] = [f for f in mk(*args) if not z3.is_true(f)]
            for f in fs:
                add(f)
                new.append(f)
        pads = [(i, p) + part(p) for i, p in c.pads.items()]
        dall = [(i, d) + part(d) for i, d in c.dvs.items()]
        aligns = {}
        for _, p, x, xi, a, ai in pads:
            aligns[ai] = a
        for _, d, a, ai, x, xi in dall:
            aligns[ai] = a
        for t in list(c.pws.values()):
            a, ai = part(t)
            aligns[ai] = a
        for i, a in aligns.items():
            lem(('pw', i), align_facts, a)
        al = list(aligns.items())
        # facts about multiples are carried to other aligns only where these are used
        padal = {ai for _, p, x, xi, a, ai in pads}
        known = {(ai, xi) for _, d, a, ai, x, xi in dall}
        for ai, a in al:
            for bi, b in al:
                if ai != bi:
                    lem(('al', ai, bi), _AL2, a, b)
        for pi, p, x, xi, a, ai in pads:
            lem(('p1', pi), _P1, p, x, a)
        for pi, p, x, xi, a, ai in pads:
            for qi, q, y, yi, b, bi in pads:
                if pi == qi:
                    continue
                if pi < qi and ai == bi:
                    lem(('p4', pi, qi), pad_diff, p, q, x, y, a)
                # a multiple of b is a multiple of the smaller a
                if ai != bi:
                    lem(('p5', ai, qi), _P5, a, b, q, y)
                # least: a multiple not below x is not below pad(x)
                lem(('p6', pi, qi), _P6, p, q, x, y, a, b)
        for di, d, a, ai, x, xi in dall:
            if has_ite(x):
                if ('dvs', di) not in done:
                    done.add(('dvs', di))
                    for v in branches(d):
                        c.walk(v)
                continue
            lem(('dvs', di), dv_facts, d, a, x, xi)
        # multiples that are known: dv(a,y) and y >= x gives y >= pad(x,a); differences of multiples of a are 0 or >= a
        for di, d, a, ai, y, yi in dall:
            if z3.is_int_value(y) or has_ite(y):
                continue
            for pi, p, x, xi, a2, a2i in pads:
                if a2i == ai:
                    lem(('p7', di, pi), _P7, d, y, p, x, a)
            lem(('p8', di), _P8, d, y, a)
            for bi, b in al:
                if bi != ai and (bi in padal or (bi, yi) in known):
                    lem(('p9', di, bi), _P9, d, y, a, b)
        muls = [(i, m) + part(m) for i, m in c.muls.items()]
        for mi, m, x, xi, y, yi in muls:
            lem(('m1', mi), _M1, m, x, y)
            for ai, a in al:
                lem(('m3', mi, ai), _M3, m, y, a)
        for mi, m, x, xi, y, yi in muls:
            for ni, n, u, ui, v, vi in muls:
                if mi != ni and yi == vi:
                    lem(('m4', mi, ni), _M4, m, n, x, u, y)
                elif mi != ni and len(muls) <= 12:
                    lem(('m5', mi, ni), _M5, m, n, x, u, y, v)

_subst = _raw('Z3_substitute_vars', _P, _P, ctypes.c_uint, ctypes.POINTER(_P))

LEMMAS = {}

def lemma(name, mk):
    """A lemma over variables, built once and instantiated by substitution; a parameter named d is a proposition.
    In every instance p is pad(x,a), q is pad(y,b) (pad(y,a) without b), d is dv(a,y), e and m are y-x and x-y, and the product
    lemmas have m = x*y and n = u*v (u*y without v). lemmas.py proves each of them under these definitions."""
    names = mk.__code__.co_varnames[:mk.__code__.co_argcount]
    LEMMAS[name] = (names, mk)
    n = len(names)
    fs = [(f, f.as_ast().value) for f in mk(*[z3.Var(i, B if v == 'd' else I) for i, v in enumerate(names)])]
    arr = _P * n
    def inst(*args):
        av = arr(*[t.as_ast().value for t in args])
        return [z3.BoolRef(z3.z3types.Ast.from_buffer_copy(_P(_subst(v, n, av))), z3.main_ctx()) for _, v in fs]
    return inst

_And, _Or, _Imp, _IV = z3.And, z3.Or, z3.Implies, z3.IntVal
_PW = lemma('PW', lambda a: [_Imp(pw(a), _And(a >= 1, a <= 2 ** 63, dv(a, _IV(0)), dv(a, a), dv(a, _IV(2 ** 63))))])
_AL2 = lemma('AL2', lambda a, b: [_Imp(_And(pw(a), pw(b), a < b), _And(2 * a <= b, dv(a, b)))])
_P1 = lemma('P1', lambda p, x, a: [_Imp(_And(pw(a), x >= 0), _And(x <= p, p <= x + a - 1, dv(a, p), p >= 0)), _Imp(_And(pw(a), x >= 0, dv(a, x)), p == x)])
_P4 = lemma('P4', lambda p, q, x, y, a, e, m: [_Imp(_And(pw(a), x >= 0, y >= 0, _Or(dv(a, e), dv(a, m))), q - p == e)])
_P5 = lemma('P5', lambda a, b, q, y: [_Imp(_And(pw(a), pw(b), a <= b, y >= 0), dv(a, q))])
_P6 = lemma('P6', lambda p, q, x, y, a, b: [_Imp(_And(pw(a), pw(b), x >= 0, y >= 0, a <= b, q >= x), q >= p)])
_P7 = lemma('P7', lambda d, y, p, x, a: [_Imp(_And(pw(a), x >= 0, d, y >= x), y >= p)])
_P8 = lemma('P8', lambda d, y, a: [_Imp(_And(pw(a), d, y > 0), y >= a), _Imp(_And(pw(a), d, y < 2 ** 63), y + a <= 2 ** 63)])
_P9 = lemma('P9', lambda d, y, a, b: [_Imp(_And(pw(a), pw(b), b <= a, d), dv(b, y))])
_M1 = lemma('M1', lambda m, x, y: [_Imp(_And(x >= 0, y >= 0), m >= 0), _Imp(x == 0, m == 0), _Imp(y == 0, m == 0), _Imp(x == 1, m == y), _Imp(y == 1, m == x),
                            _Imp(_And(x >= 1, y >= 0), m >= y), _Imp(_And(x >= 0, y >= 1), m >= x)])
_M3 = lemma('M3', lambda m, y, a: [_Imp(_And(pw(a), dv(a, y)), dv(a, m))])
_M4 = lemma('M4', lambda m, n, x, u, y: [_Imp(_And(x <= u, y >= 0), m <= n), _Imp(u == x + 1, n == m + y)])
_M5 = lemma('M5', lambda m, n, x, u, y, v: [_Imp(_And(x <= u, y == v, y >= 0), m <= n)])

def align_facts(a):
    if not is_const_int(a):
        return _PW(a)
    n = a.as_long()
    return [pw(a) == z3.BoolVal(0 < n <= 2 ** 63 and n & (n - 1) == 0)] + _PW(a)

def pad_diff(p, q, x, y, a):
    d = simp(y - x)
    return [] if has_ite(d) else _P4(p, q, x, y, a, d, simp(-d))

def dv_facts(d, a, x, xi):
    """dv(a, sum c_i t_i) follows from dv(a, t_i)."""
    if z3.is_int_value(a) and a.as_long() <= 0:
        return
    mons, k = linear(simp(x))
    if len(mons) == 1 and k == 0 and list(mons.values())[0][1] == 1:
        t = list(mons.values())[0][0]
        if t.get_id() != xi:
            yield dv(a, t) == d
        return
    prem = []
    for t, co in mons.values():
        prem.append(dv(a, t))
    if k:
        if z3.is_int_value(a):
            prem.append(z3.BoolVal(k % a.as_long() == 0))
        else:
            prem.append(dv(a, _IV(k)))
    yield _Imp(_And(pw(a), *prem), d)
    # and the other way round: if all but one are multiples, so is the last
    if len(mons) <= 3:
        for j, (t, co) in enumerate(mons.values()):
            if abs(co) == 1:
                yield _Imp(_And(pw(a), d, *[q for i2, q in enumerate(prem) if i2 != j]), dv(a, t))

_assert = _raw('Z3_solver_assert', None, _P, _P)

def adder(s):
    """s.add for one formula, without the conversions of s.add."""
    sv = s.solver.value
    return lambda f: _assert(sv, f.as_ast().value)

PARTS = {}

def part(t):
    """The arguments of t with their ids."""
    r = PARTS.get(t.get_id())
    if r is None:
        KEEP.append(t)
        r = ()
        for x in t.children():
            r += (x, x.get_id())
        PARTS[t.get_id()] = r
    return r

def branches(t):
    """Terms obtained by resolving the if-then-elses of t, as they are and simplified."""
    k = ('ite', t.get_id())
    r = FACTS.get(k)
    if r is None:
        KEEP.append(t)
        r = FACTS[k] = [w for v in _ite_branches(t) for w in (v, simp(v))]
    return r

TIMEOUT = int(os.environ.get('VC_TIMEOUT_MS', '6000'))

def prove(pc, schemas, goal, rounds=3, timeout=None, extra=None, want_model=True, budget=4000, second=True):
    """-> ('valid'|'invalid'|'unknown', model text)"""
    t0 = time.time()
    STAT['checks'] += 1
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    s.set('random_seed', 0)
    ng = z3.Not(goal)
    facts = list(pc) + [ng]
    add = adder(s)
    for f in facts:
        add(f)
    inst = Instantiator([x for x in schemas if 'o' not in x.kinds], add, extra)
    for f in facts:
        inst.feed(f)
    res = None
    try:
        for r in range(rounds + 1):
            if r > 0:
                n = inst.round(budget)
                if n == 0 and r > 1:
                    break
            res = s.check()
            if res == z3.unsat:
                if CROSS and second and not cross(s):
                    return 'unknown', 'cvc5 has a model of what Z3 finds unsatisfiable'
                return 'valid', ''
            if res == z3.unknown and r == rounds:
                return 'unknown', s.reason_unknown()
        if res == z3.sat:
            if os.environ.get('VC_DEBUG_MODEL'):
                return 'invalid', str(s.model())
            return 'invalid', short_model(s.model()) if want_model else ''
        return 'unknown', s.reason_unknown()
    finally:
        STAT['time'] += time.time() - t0

def short_model(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append(f'{d.name()} = {m[d]}')
    return ', '.join(sorted(out)[:40])

def feasible(pc, schemas, cond, rounds=1, timeout=600):
    """False only if pc and cond are contradictory."""
    r, _ = prove(pc, schemas, z3.Not(cond), rounds=rounds, timeout=timeout, want_model=False, budget=300, second=CROSS == 'all')
    return r != 'valid'

def And(*xs):
    xs = [x for x in xs if not (z3.is_true(x))]
    return z3.And(*xs) if len(xs) != 1 else xs[0]

# ------------------------------------------------------------------ counterexamples
LONG = (70,)
DOMAINS = ((1, 2, 4, 8), (1, 2, 4096, 2 ** 62, 2 ** 63))

def consts_of(es):
    seen, out, st = set(), {}, list(es)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().arity() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            st.extend(t.children())
    return out

def confirm(pc, schemas, goal, small=(), extra=None, limit=40):
    """A model of pc and not goal in which padding, divisibility and powers of two mean what they say, for short
    arrays (the terms in `small` are at most 3) with every quantified fact instantiated at all their indices.
    -> (True, description) | (False, reason)"""
    t0 = time.time()
    STAT['checks'] += 1
    why = 'no model found'
    facts = list(pc) + [z3.Not(goal)]
    cs = consts_of(facts)
    als = {}
    for f in facts:
        st, seen = [f], set()
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().name() in ('pw',) and z3.is_const(t.children()[0]) and not z3.is_int_value(t.children()[0]):
                    als[t.children()[0].decl().name()] = t.children()[0]
                st.extend(t.children())
    smalls = [t for t in small if z3.is_const(t) and not z3.is_int_value(t)]
    ks = [t for n, t in cs.items() if t.sort() == I and (n.startswith(('k$', 'index', 'it$')))]
    try:
        for dom in DOMAINS:
            if dom is DOMAINS[0] or not smalls:
                A = list(als.values())
                for ns in itertools.product((1, 2, 3, 0), repeat=len(smalls)):
                    mx = max(ns) if ns else 2
                    for av in itertools.product(dom if len(A) <= 2 else (dom[0], dom[2]), repeat=len(A)):
                        for kv in itertools.product(range(mx + 1), repeat=len(ks)):
                            if time.time() - t0 > limit:
                                return False, why + ' in the time given'
                            sub = list(zip(smalls, map(z3.IntVal, ns))) + list(zip(A, map(z3.IntVal, av))) + list(zip(ks, map(z3.IntVal, kv)))
                            r = _model(facts, schemas, sub, dom, mx if smalls else None, extra)
                            if isinstance(r, tuple):
                                return r
                            if r != 'unsat':
                                why = r
                                if not ks:
                                    continue
            else:
                r = _model(facts + [n <= 2 for n in smalls], schemas, [], dom, 2, extra)
                if isinstance(r, tuple):
                    return r
                if r != 'unsat':
                    why = r
        if why == 'no model found' and 0 < len(smalls) <= 2:
            # nothing short: long ones
            A = list(als.values())
            for n in LONG:
                for av in itertools.product((1, 8), repeat=len(A)) if len(A) <= 2 else [(1,) * len(A)]:
                    for kv in itertools.product((0, n - 1), repeat=len(ks)) if len(ks) <= 2 else [(0,) * len(ks)]:
                        if time.time() - t0 > limit:
                            return False, why + ' in the time given'
                        sub = list(zip(smalls, [z3.IntVal(n)] * len(smalls))) + list(zip(A, map(z3.IntVal, av))) + list(zip(ks, map(z3.IntVal, kv)))
                        r = _model(facts, schemas, sub, DOMAINS[0], n, extra)
                        if isinstance(r, tuple):
                            return r
        return False, why
    finally:
        STAT['time'] += time.time() - t0

def _model(facts, schemas, sub, dom, mx, extra, timeout=3000):
    su = (lambda f: z3.simplify(z3.substitute(f, *sub))) if sub else (lambda f: f)
    facts = [su(f) for f in facts]
    if any(z3.is_false(f) for f in facts):
        return 'unsat'
    s = z3.Solver()
    s.set('timeout', timeout)
    idx = {}
    if mx is not None:
        idx = {'k': [z3.IntVal(i) for i in range(-1, mx + 1)], 'i': [z3.IntVal(i) for i in range(mx + 1)], 'b': []}
    for k, ts in (extra or {}).items():
        idx[k] = list(idx.get(k, [])) + [su(t) for t in ts]
    fixed = [Schema(x.kinds, (lambda b: lambda *a: su(b(*a)))(x.body), x.tag) for x in schemas]
    inst = Instantiator(fixed, s.add, idx, cache=False)
    inst.pad_lemmas = lambda: None
    for f in facts:
        s.add(f)
        inst.feed(f)
    if s.check() == z3.unsat:
        return 'unsat'
    for r in range(3):
        if not inst.round(3000):
            break
        if s.check() == z3.unsat:
            return 'unsat'
    c = inst.col
    done = set()
    for _ in range(6):
        al = {}
        n0 = len(done)
        def by_align(a, dflt, mk):
            if z3.is_int_value(a):
                return mk(a.as_long())
            e = dflt
            for v in dom:
                e = z3.If(a == v, mk(v), e)
            return e
        for p in list(c.pads.values()):
            if p.get_id() in done:
                continue
            done.add(p.get_id())
            x, a = p.children()
            al[a.get_id()] = a
            e = by_align(a, p == x, lambda v: p == ((x + (v - 1)) / v) * v)
            s.add(z3.Implies(x >= 0, e)); c.walk(e)
        for d in list(c.dvs.values()):
            if d.get_id() in done:
                continue
            done.add(d.get_id())
            a, x = d.children()
            al[a.get_id()] = a
            e = by_align(a, d == (x == 0), lambda v: d == (x % v == 0))
            s.add(e); c.walk(e)
        for w in list(c.pws.values()):
            if w.get_id() in done:
                continue
            done.add(w.get_id())
            a = w.children()[0]
            if z3.is_int_value(a):
                v = a.as_long()
                s.add(w == z3.BoolVal(v > 0 and v & (v - 1) == 0 and v <= 2 ** 63))
            else:
                al[a.get_id()] = a
                s.add(w == z3.Or(*[a == v for v in dom]))
        for m in list(c.muls.values()):
            if m.get_id() in done:
                continue
            done.add(m.get_id())
            x, y = m.children()
            s.add(m == x * y)
        for i, a in al.items():
            if not z3.is_int_value(a):
                s.add(z3.Or(*[a == v for v in dom]))
        if len(done) == n0:
            break
    r = s.check()
    if r == z3.sat:
        fx = ', '.join(f'{k} = {v}' for k, v in sub)
        return True, (fx + ', ' if fx else '') + short_model(s.model())
    return 'unsat' if r == z3.unsat else s.reason_unknown()
