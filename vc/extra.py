"""Further std functions, so that code rewritten with them stays within reach."""
import z3
from logic import *
from values import *
import std
from std import R, rx, model, ret, unwind, some, NONE, ok, err, call1, deref1, vec_insert, vec

# ------------------------------------------------------------------ Option
@model('Option::or')
def _(ex, st, fr, c, a):
    return ret(st, a[0] if a[0].var == 'Some' else a[1])
@model('Option::or_else')
def _(ex, st, fr, c, a):
    return ret(st, a[0]) if a[0].var == 'Some' else call1(ex, st, a[1], [])
@model('Option::and')
def _(ex, st, fr, c, a):
    return ret(st, a[1] if a[0].var == 'Some' else NONE)
@model('Option::filter')
def _(ex, st, fr, c, a):
    if a[0].var == 'None':
        return ret(st, NONE)
    out = []
    for s, k, v in call1(ex, st, a[1], [std.temp(st, a[0].fs[0])]):
        if k != 'ret':
            out.append((s, k, None)); continue
        out += [(s2, 'ret', a[0] if t else NONE) for s2, t in ex.split(s, v)]
    return out
@model('Option::is_some_and', 'Option::is_none_or')
def _(ex, st, fr, c, a):
    if a[0].var == 'None':
        return ret(st, z3.BoolVal(c.method == 'is_none_or'))
    return call1(ex, st, a[1], [a[0].fs[0]])
@model('Option::replace')
def _(ex, st, fr, c, a):
    l = ex.deref(a[0])
    v = ex.read(st, l)
    ex.write(st, l, some(a[1]))
    return ret(st, v)
@model('Option::as_ref', 'Option::as_mut')
def _(ex, st, fr, c, a):
    r = a[0]
    if not isinstance(r, Ref):
        raise Unsupported(c.method)
    v = ex.read(st, ex.deref(r))
    return ret(st, NONE if v.var == 'None' else some(Ref(r.cell, r.path + (('f', 0),))))

# ------------------------------------------------------------------ Result
@model('Result::unwrap_or')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0] if a[0].var == 'Ok' else a[1])
@model('Result::unwrap_or_else')
def _(ex, st, fr, c, a):
    return ret(st, a[0].fs[0]) if a[0].var == 'Ok' else call1(ex, st, a[1], [a[0].fs[0]])
@model('Result::map_or')
def _(ex, st, fr, c, a):
    return ret(st, a[1]) if a[0].var != 'Ok' else call1(ex, st, a[2], [a[0].fs[0]])
@model('Result::map_or_else')
def _(ex, st, fr, c, a):
    return call1(ex, st, a[1] if a[0].var != 'Ok' else a[2], [a[0].fs[0]])
@model('Result::or_else')
def _(ex, st, fr, c, a):
    return ret(st, a[0]) if a[0].var == 'Ok' else call1(ex, st, a[1], [a[0].fs[0]])
@model('Result::and')
def _(ex, st, fr, c, a):
    return ret(st, a[1] if a[0].var == 'Ok' else a[0])
@model('Result::err')
def _(ex, st, fr, c, a):
    return ret(st, NONE if a[0].var == 'Ok' else some(a[0].fs[0]))

# ------------------------------------------------------------------ integers
@model('usize::abs_diff')
def _(ex, st, fr, c, a):
    return [(s, 'ret', simp(a[0] - a[1]) if t else simp(a[1] - a[0])) for s, t in ex.split(st, a[0] >= a[1])]
@model('usize::overflowing_add')
def _(ex, st, fr, c, a):
    return [(s, 'ret', Agg('(..)', (a[0] + a[1] if t else a[0] + a[1] - W, z3.BoolVal(not t)))) for s, t in ex.split(st, a[0] + a[1] < W)]
@model('usize::overflowing_sub')
def _(ex, st, fr, c, a):
    return [(s, 'ret', Agg('(..)', (a[0] - a[1] if t else a[0] - a[1] + W, z3.BoolVal(not t)))) for s, t in ex.split(st, a[0] >= a[1])]

# ------------------------------------------------------------------ orderings are the integers -1, 0, 1
def ordering(v):
    if isinstance(v, Agg) and v.name in ('Less', 'Equal', 'Greater') and not v.fs:
        return z3.IntVal({'Less': -1, 'Equal': 0, 'Greater': 1}[v.name])
    return v
@rx(r'<(core::cmp::|std::cmp::|cmp::)?Ordering as PartialEq>::(eq|ne)$')
def _(ex, st, fr, c, a):
    x, y = [ordering(deref1(ex, st, v)) for v in a]
    if not (is_z(x) and is_z(y)):
        raise Unsupported(f'comparison of orderings {x!r} {y!r}')
    return ret(st, x == y if c.method == 'eq' else x != y)
for _m, _t in (('is_eq', lambda o: o == 0), ('is_ne', lambda o: o != 0), ('is_lt', lambda o: o < 0), ('is_gt', lambda o: o > 0), ('is_le', lambda o: o <= 0), ('is_ge', lambda o: o >= 0)):
    def _mk(t):
        def f(ex, st, fr, c, a):
            return ret(st, t(a[0]))
        return f
    model('Ordering::' + _m)(_mk(_t))
@model('Ordering::reverse')
def _(ex, st, fr, c, a):
    return ret(st, simp(-a[0]))
@model('Ordering::then')
def _(ex, st, fr, c, a):
    return ret(st, z3.If(a[0] == 0, a[1], a[0]))
@model('Ordering::then_with')
def _(ex, st, fr, c, a):
    out = []
    for s, t in ex.split(st, a[0] == 0):
        out += call1(ex, s, a[1], []) if t else [(s, 'ret', a[0])]
    return out

# ------------------------------------------------------------------ places
@model('mem::replace')
def _(ex, st, fr, c, a):
    if not isinstance(a[0], Ref):
        raise Unsupported('mem::replace here')
    l = ex.deref(a[0])
    v = ex.read(st, l)
    ex.write(st, l, a[1])
    return ret(st, v)
@model('mem::swap')
def _(ex, st, fr, c, a):
    if not (isinstance(a[0], Ref) and isinstance(a[1], Ref)):
        raise Unsupported('mem::swap here')
    l, m = ex.deref(a[0]), ex.deref(a[1])
    v, w = ex.read(st, l), ex.read(st, m)
    ex.write(st, l, w)
    ex.write(st, m, v)
    return ret(st)

# ------------------------------------------------------------------ tables
@model('Vec::with_capacity')
def _(ex, st, fr, c, a):
    out = []
    for s, k, v in R['Vec::new'](ex, st, fr, c, []):
        p = s.clone()
        p.cause = 'reserve'
        cap = s.fresh('veccap')
        s.assume(cap >= a[0], cap <= (IMAX if 'ElementInfo' in ''.join(c.targs or []) + c.text else UMAX))
        out += [(s, 'ret', VecV(v.len, cap, v.c, v.tag)), (p, 'unwind', None)]
    return out
@rx(r'<Option as PartialEq>::(eq|ne)$')
def _(ex, st, fr, c, a):
    x, y = deref1(ex, st, a[0]), deref1(ex, st, a[1])
    if x.var != y.var:
        return ret(st, z3.BoolVal(c.method == 'ne'))
    if x.var == 'None':
        return ret(st, z3.BoolVal(c.method == 'eq'))
    p, q = ordering(x.fs[0]), ordering(y.fs[0])
    if not (is_z(p) and is_z(q)):
        raise Unsupported('comparison of options')
    return ret(st, p == q if c.method == 'eq' else p != q)
