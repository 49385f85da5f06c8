"""Proofs of the arithmetic lemmas that logic.py instantiates (pad_lemmas, bit_and_mask).
pad(x,a) is by definition the least multiple of a not below x, dv(a,x) is divisibility, pw(a) says a = 2^e, 0 <= e <= 63.
Each lemma is proved for every exponent separately (linear integer arithmetic with a constant divisor),
the bit-level one over 64-bit bit-vectors."""
import z3, time
from logic import I, LEMMAS, pad as PAD, dv as DV, pw as PW

def padc(x, a):
    q = (x + (a - 1)) / a           # z3 integer division, a > 0: floor
    return q * a

def dvc(a, x):
    return x % a == 0

def check(name, s, goal, out):
    s.push()
    s.add(z3.Not(goal))
    r = s.check()
    s.pop()
    out.append((name, 'valid' if r == z3.unsat else ('invalid' if r == z3.sat else 'unknown'), '' if r == z3.unsat else (str(s.model()) if r == z3.sat else 'timeout')))

def run_one(e):
    """All single-modulus lemmas for a = 2^e, and the two-modulus ones for b = 2^e' with e' > e via b = a*c."""
    out = []
    a = 2 ** e
    x, y, q = z3.Ints('x y q')
    s = z3.Solver()
    s.set('timeout', 20000)
    p = padc(x, a)
    check(f'pad({a}): bounds', s, z3.Implies(x >= 0, z3.And(x <= p, p <= x + a - 1, dvc(a, p), p >= 0)), out)
    check(f'pad({a}): fixed on multiples', s, z3.Implies(z3.And(x >= 0, dvc(a, x)), p == x), out)
    check(f'pad({a}): least', s, z3.Implies(z3.And(x >= 0, dvc(a, y), y >= x), y >= p), out)
    check(f'pad({a}): shift', s, z3.Implies(z3.And(x >= 0, y >= 0, dvc(a, y - x)), padc(y, a) - p == y - x), out)
    check(f'pad({a}): the multiple in (y-{a}, y] is pad(y-{a}+1)', s, z3.Implies(z3.And(y - (a - 1) >= 0, dvc(a, x), x <= y, y - x <= a - 1), x == padc(y - (a - 1), a)), out)
    check(f'dv({a}): linear', s, z3.Implies(z3.And(dvc(a, x), dvc(a, y)), z3.And(dvc(a, x + y), dvc(a, x - y), dvc(a, -x))), out)
    k = z3.Int('k')
    check(f'dv({a}): positive multiple', s, z3.Implies(z3.And(dvc(a, y), y > 0), y >= a), out)
    check(f'dv({a}): multiple below 2^63', s, z3.Implies(z3.And(dvc(a, y), y < 2 ** 63), y + a <= 2 ** 63), out)
    check(f'dv({a}): 0, a, 2^63', s, z3.And(dvc(a, z3.IntVal(0)), dvc(a, z3.IntVal(a)), dvc(a, z3.IntVal(2 ** 63))), out)
    # a divides b = 2^f (f > e): every multiple of b is a multiple of a, 2a <= b
    for f in range(e + 1, 64):
        b = 2 ** f
        if not (2 * a <= b and b % a == 0):
            out.append((f'pw {a} {b}', 'invalid', ''))
    c = z3.Int('c')
    # y = b*m with b = a*c': y is a multiple of a.  Exponent by exponent:
    for f in (range(e + 1, 64)):
        b = 2 ** f
        check(f'dv: multiple of {b} is a multiple of {a}', s, z3.Implies(dvc(b, y), dvc(a, y)), out)
    # bit level
    w = z3.BitVec('w', 64)
    m = z3.BitVecVal(a - 1, 64)
    r = w & ~m
    sb = z3.Solver()
    sb.set('timeout', 20000)
    sb.add(z3.Not(z3.And(z3.ULE(r, w), z3.ULE(w - r, m), (r & m) == 0)))
    rr = sb.check()
    out.append((f'w & !({a}-1) is the multiple of {a} in (w-{a}, w]', 'valid' if rr == z3.unsat else 'invalid', ''))
    return out

def monotone():
    """The two-modulus pad lemmas follow from the single-modulus ones: stated with pad, dv uninterpreted."""
    out = []
    pad = z3.Function('pad', I, I, I)
    dv = z3.Function('dv', I, I, z3.BoolSort())
    x, y, a, b = z3.Ints('x y a b')
    s = z3.Solver()
    s.set('timeout', 20000)
    def facts(x, a):
        return z3.And(x <= pad(x, a), pad(x, a) <= x + a - 1, dv(a, pad(x, a)))
    def least(x, a, y):
        return z3.Implies(z3.And(dv(a, y), y >= x), y >= pad(x, a))
    s.add(x >= 0, y >= 0, a >= 1, b >= 1)
    s.add(facts(x, a), facts(y, b), least(x, a, pad(y, b)))
    down = z3.Implies(z3.And(a <= b, dv(b, pad(y, b))), dv(a, pad(y, b)))   # dv: multiple of b is a multiple of a
    s.add(down)
    check('pad: monotone in both arguments', s, z3.Implies(z3.And(x <= y, a <= b), pad(x, a) <= pad(y, b)), out)
    check('pad: a multiple of the larger align is one of the smaller', s, z3.Implies(a <= b, dv(a, pad(y, b))), out)
    check('pad: least among multiples of a larger align', s, z3.Implies(z3.And(a <= b, pad(y, b) >= x), pad(y, b) >= pad(x, a)), out)
    # products
    u, v, w_ = z3.Ints('u v w')
    s2 = z3.Solver(); s2.set('timeout', 20000)
    check('mul: sign and order', s2, z3.Implies(z3.And(u >= 0, v >= 0), u * v >= 0), out)
    check('mul: at least the factor', s2, z3.Implies(z3.And(u >= 1, v >= 0), u * v >= v), out)
    check('mul: step', s2, (u + 1) * v == u * v + v, out)
    t_, a_ = z3.Ints('t a')
    check('mul: multiples', s2, z3.Implies(v == a_ * t_, u * v == a_ * (u * t_)), out)
    check('mul: monotone', s2, z3.Implies(z3.And(u <= w_, v >= 0), u * v <= w_ * v), out)
    check('mul: monotone step', s2, z3.Implies(z3.And(u + 1 <= w_, v >= 0), u * v + v <= w_ * v), out)
    return out

def instantiated(e, full=False):
    """The very formulas logic.py instantiates, with pad, dv and pw as defined above, for a = 2^e and b = 2^f (every f if full; what
    the two-modulus formulas say follows for the others from monotone() below)."""
    out = []
    s = z3.Solver()
    s.set('timeout', 20000)
    v0, v1 = z3.Var(0, I), z3.Var(1, I)
    x, y, u = z3.Ints('x y u')
    for name, (names, mk) in LEMMAS.items():
        if name[0] == 'M':
            if e == 0 and name != 'M3':     # products do not depend on the align; M3 is 'mul: multiples' below
                v = z3.Int('v') if 'v' in names else y
                val = dict(x=x, y=y, u=u, v=v, m=x * y, n=u * v)
                check(f'instances of {name}', s, z3.And(*mk(*[val[n] for n in names])), out)
            continue
        a = 2 ** e
        for f in ([e] if 'b' not in names else range(64) if full else sorted({0, max(e - 1, 0), e, min(e + 1, 63), 63})):
            b = 2 ** f
            val = dict(a=z3.IntVal(a), b=z3.IntVal(b), x=x, y=y, p=padc(x, a), q=padc(y, b), d=dvc(a, y), e=y - x, m=x - y)
            g = z3.And(*mk(*[val[n] for n in names]))
            g = z3.substitute_funs(g, (DV, v1 % v0 == 0), (PW, z3.Or(*[v0 == 2 ** k for k in range(64)])))
            check(f'instances of {name} at {a}, {b}', s, z3.simplify(g), out)
    return out

def inductions():
    """The induction facts stated in views.py (mono, relay-mono, relay-up, relay-down, their steps, relay-back), from the one-step
    facts of well-formed vectors (wf) and of the ghost re-layout (relay): base and step of each."""
    import logic
    from logic import pad, dv, pw
    out = []
    def lemma(name, pc, goal, extra=None):
        st, d = logic.prove(pc, [], goal, rounds=4, timeout=20000)
        out.append((name, 'valid' if st == 'valid' else 'unknown', d))
    for unal in (True, False):
        fl = 'UnalignedVecInner' if unal else 'AlignedVecInner'
        a, na, n, i, j, k = z3.Ints('a na n i j k')
        start, end = z3.Function('start', I, I), z3.Function('end', I, I)
        ns, ne = z3.Function('nstart', I, I), z3.Function('nend', I, I)
        step = (lambda x, al: pad(x, al)) if unal else (lambda x, al: x)
        A, O, N, Im = z3.And, z3.Or, z3.Not, z3.Implies
        def wf(k):
            r = [start(k) <= end(k), end(k) <= start(k + 1), start(k + 1) == step(end(k), a), start(k) >= 0, dv(a, start(k)), dv(a, start(k + 1))]
            if not unal:
                r.append(dv(a, end(k) - start(k)))
            return Im(A(k >= 0, k < n), A(*r))
        base = [pw(a), pw(na), n >= 0, start(z3.IntVal(0)) == 0, ns(z3.IntVal(0)) == 0]
        mono = lambda s, e, i, j: A(e(i) <= s(j), s(i) <= s(j))
        lemma(f'{fl}: mono, base', base + [wf(i), i >= 0, i + 1 <= n], mono(start, end, i, i + 1))
        lemma(f'{fl}: mono, step', base + [wf(j), i >= 0, i < j, j + 1 <= n, mono(start, end, i, j)], mono(start, end, i, j + 1))
        # the ghost re-layout: its definition, and what follows by induction
        size = lambda k: end(k) - start(k)
        rdef = lambda k: Im(A(k >= 0, k < n), A(ne(k) == ns(k) + size(k), ns(k + 1) == pad(ne(k), na)))
        rinv = lambda k: A(ns(k) >= 0, dv(na, ns(k)))
        lemma(f'{fl}: relay, base', base, rinv(z3.IntVal(0)))
        lemma(f'{fl}: relay, step', base + [rdef(k), wf(k), k >= 0, k < n, rinv(k)], A(rinv(k + 1), ne(k) >= ns(k), ns(k + 1) >= ne(k)))
        relay = lambda k: Im(A(k >= 0, k < n), A(rdef(k), rinv(k), rinv(k + 1), ne(k) >= ns(k), ns(k + 1) >= ne(k)))
        lemma(f'{fl}: relay-mono, base', base + [relay(i), i >= 0, i + 1 <= n], mono(ns, ne, i, i + 1))
        lemma(f'{fl}: relay-mono, step', base + [relay(j), i >= 0, i < j, j + 1 <= n, mono(ns, ne, i, j)], mono(ns, ne, i, j + 1))
        up = lambda k: A(ns(k) >= start(k), dv(a, ns(k) - start(k)))
        down = lambda k: A(ns(k) <= start(k), dv(na, ns(k) - start(k)))
        dif = ns(k + 1) - ns(k), start(k + 1) - start(k)
        # padding a size by itself: the terms the step facts talk about
        ps = [pad(size(k), a) >= size(k), pad(size(k), na) >= size(k)]
        inr = [k >= 0, k < n]
        lemma(f'{fl}: relay-up, base', base, up(z3.IntVal(0)))
        lemma(f'{fl}: relay-up, step', base + inr + [relay(k), wf(k), a <= na, up(k)], up(k + 1))
        lemma(f'{fl}: relay-up-step', base + inr + [relay(k), wf(k), a <= na, up(k)] + ps, A(ne(k) >= end(k), dif[0] >= dif[1]))
        if unal:
            lemma(f'{fl}: relay-down, base', base, down(z3.IntVal(0)))
            lemma(f'{fl}: relay-down, step', base + inr + [relay(k), wf(k), a >= na, down(k)], down(k + 1))
            lemma(f'{fl}: relay-down-step', base + inr + [relay(k), wf(k), a >= na, down(k)] + ps, A(ne(k) <= end(k), dif[0] <= dif[1]))
        # back to the align the sizes came from: v is the re-layout of o, and na is the align of o
        os_, oe = z3.Function('ostart', I, I), z3.Function('oend', I, I)
        same_size = lambda k: Im(A(k >= 0, k < n), size(k) == oe(k) - os_(k))
        owf = lambda k: Im(A(k >= 0, k < n), os_(k + 1) == step(oe(k), na))
        lemma(f'{fl}: relay-back, base', base + [os_(z3.IntVal(0)) == 0], ns(z3.IntVal(0)) == os_(z3.IntVal(0)))
        if unal:
            lemma(f'{fl}: relay-back, step', base + inr + [relay(k), same_size(k), owf(k), ns(k) == os_(k)], A(ne(k) == oe(k), ns(k + 1) == os_(k + 1)))
    return out

def prove_all(pool, full):
    ls = pool.map(run_one, range(64), 1) + pool.starmap(instantiated, [(e, full) for e in range(64)], 1)
    return [x for l in ls for x in l] + monotone() + inductions()

if __name__ == '__main__':
    import sys
    from multiprocessing import Pool
    t = time.time()
    with Pool(8) as p:
        r = prove_all(p, 'full' in sys.argv)
    bad = [x for x in r if x[1] != 'valid']
    print(len(r), 'lemmas', len(bad), 'not proved', f'{time.time()-t:.1f}s')
    for b in bad[:20]:
        print(b)
