"""Symbolic values and states."""
import z3, itertools
from logic import *

class Unsupported(Exception):
    pass

_uid = itertools.count()

# Sizes and alignments on x86-64, the target checked.
PRIM = {'bool': 1, 'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}

class Agg:
    """Struct, tuple, enum variant (var = variant name), or one of the engine's records."""
    __slots__ = ('name', 'var', 'fs')
    def __init__(self, name, fs, var=None):
        self.name, self.fs, self.var = name, tuple(fs), var
    def __repr__(self):
        return f'{self.name}{"::" + self.var if self.var else ""}({", ".join(map(repr, self.fs))})'
    def with_(self, i, v):
        fs = list(self.fs)
        fs[i] = v
        return Agg(self.name, fs, self.var)

UNIT = Agg('()', ())

class Ref:
    """Reference or raw pointer to a place in the store."""
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)
    def __repr__(self):
        return f'&{self.cell}{self.path}'

class Raw:
    """Thin pointer into a memory block; block None: an integer address (dangling), 'null'."""
    __slots__ = ('block', 'off')
    def __init__(self, block, off):
        self.block, self.off = block, off
    def __repr__(self):
        return f'Raw({self.block}, {self.off})'

class Fat:
    """Wide (or typed) pointer to a user value."""
    __slots__ = ('thin', 'meta')
    def __init__(self, thin, meta):
        self.thin, self.meta = thin, meta
    def __repr__(self):
        return f'Fat({self.thin}, {self.meta})'

class Own:
    """A user value held by value: it lives in its own memory block."""
    __slots__ = ('block', 'meta')
    def __init__(self, block, meta):
        self.block, self.meta = block, meta
    def __repr__(self):
        return f'Own({self.block})'

class Clo:
    __slots__ = ('fn', 'caps')
    def __init__(self, fn, caps):
        self.fn, self.caps = fn, tuple(caps)
    def __repr__(self):
        return f'Clo({self.fn.name.split("::")[-1]})'

class FnItem:
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return f'FnItem({self.name})'

class UserFn:
    """Abstract callable: run(ex, st, args) -> outcomes."""
    __slots__ = ('name', 'run', 'data')
    def __init__(self, name, run, data=None):
        self.name, self.run, self.data = name, run, data
    def __repr__(self):
        return f'UserFn({self.name})'

class Opaque:
    """A value nothing is known about (formatting arguments, error payloads)."""
    __slots__ = ('tag',)
    def __init__(self, tag):
        self.tag = tag
    def __repr__(self):
        return f'Opaque({self.tag})'

class Dead:
    def __repr__(self):
        return 'Dead'
DEAD = Dead()

class Content:
    """Contents of a growable array: base(k) overridden by writes."""
    __slots__ = ('get0', 'prev', 'idx', 'val', 'kind')
    def __init__(self, get0=None, prev=None, idx=None, val=None, kind='base'):
        self.get0, self.prev, self.idx, self.val, self.kind = get0, prev, idx, val, kind
    def get(self, k):
        if self.kind == 'base':
            return self.get0(k)
        if self.kind == 'set':
            c = simp(k == self.idx)
            if z3.is_true(c):
                return self.val
            r = self.prev.get(k)
            if z3.is_false(c):
                return r
            return merge(c, self.val, r)
        raise Unsupported('content')
    def set(self, k, v):
        return Content(prev=self, idx=k, val=v, kind='set')

class VecV:
    """std Vec by value: length, capacity, contents."""
    __slots__ = ('len', 'cap', 'c', 'tag')
    def __init__(self, len, cap, c, tag=''):
        self.len, self.cap, self.c, self.tag = len, cap, c, tag
    def __repr__(self):
        return f'VecV({self.len})'

def is_z(x):
    return isinstance(x, z3.ExprRef)

def same(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.sort() == b.sort() and (a.eq(b) or z3.is_true(z3.simplify(a == b)))
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.name == b.name and a.var == b.var and len(a.fs) == len(b.fs) and all(map(same, a.fs, b.fs))
    if isinstance(a, Raw):
        return a.block == b.block and same(a.off, b.off)
    if isinstance(a, Fat):
        return same(a.thin, b.thin) and same(a.meta, b.meta)
    if isinstance(a, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(same_p(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, Clo):
        return a.fn is b.fn and all(map(same, a.caps, b.caps))
    if isinstance(a, VecV):
        return a.c is b.c and same(a.len, b.len) and same(a.cap, b.cap)
    if isinstance(a, Own):
        return a.block == b.block
    if isinstance(a, FnItem):
        return a.name == b.name
    return a == b

def same_p(x, y):
    return x[0] == y[0] and (same(x[1], y[1]) if is_z(x[1]) or is_z(y[1]) else x[1] == y[1])

def merge(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if is_z(a) and is_z(b):
        return z3.If(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.fs) == len(b.fs):
        return Agg(a.name, [merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.var)
    if isinstance(a, Raw) and isinstance(b, Raw) and a.block == b.block:
        return Raw(a.block, z3.If(c, a.off, b.off))
    if isinstance(a, Fat) and isinstance(b, Fat):
        return Fat(merge(c, a.thin, b.thin), merge(c, a.meta, b.meta))
    raise Unsupported(f'merging {a!r} and {b!r}')

def children(v):
    """(rebuild, children) of a structured value; None for leaves."""
    if isinstance(v, Agg):
        return (lambda ch: Agg(v.name, ch, v.var)), v.fs
    if isinstance(v, Raw):
        return (lambda ch: Raw(v.block, ch[0])), (v.off,)
    if isinstance(v, Fat):
        return (lambda ch: Fat(*ch)), (v.thin, v.meta)
    if isinstance(v, Clo):
        return (lambda ch: Clo(v.fn, ch)), v.caps
    return None

def compatible(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.name == b.name and a.var == b.var and len(a.fs) == len(b.fs)
    if isinstance(a, Raw):
        return a.block == b.block
    if isinstance(a, Clo):
        return a.fn is b.fn
    return True

class Block:
    __slots__ = ('size', 'align', 'live', 'unit')
    def __init__(self, size, align, live=True, unit=1):
        self.size, self.align, self.live, self.unit = size, align, live, unit

class State:
    __slots__ = ('store', 'mem', 'blocks', 'pc', 'schemas', 'events', 'ghost', 'cause', 'loops', 'log')
    def __init__(self):
        self.store, self.mem, self.blocks = {}, {}, {}
        self.pc, self.schemas, self.events = [], [], []
        self.ghost = {}
        self.cause = None        # why the path is unwinding
        self.loops = ()          # iteration constants of the enclosing loops
        self.log = ()
    def clone(self):
        s = State()
        s.store, s.mem, s.blocks = dict(self.store), dict(self.mem), dict(self.blocks)
        s.pc, s.schemas, s.events = list(self.pc), list(self.schemas), list(self.events)
        s.ghost = dict(self.ghost)
        s.cause, s.loops, s.log = self.cause, self.loops, self.log
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, Schema):
                self.schemas.append(f)
            elif not z3.is_true(f):
                self.pc.append(f)
        return self
    def fresh(self, base, sort=I):
        """Fresh constant; inside loops, a function of the iteration."""
        n = fresh_name(base)
        if self.loops:
            f = z3.Function(n, *[I] * len(self.loops), sort)
            KIND[n] = 'i' * len(self.loops)
            return f(*self.loops)
        return z3.Const(n, sort)
    def fresh_fn(self, base, *sorts, kind):
        """Fresh function (kind: one letter per argument)."""
        n = fresh_name(base)
        f = z3.Function(n, *[I] * len(self.loops), *sorts)
        KIND[n] = 'i' * len(self.loops) + kind
        loops = self.loops
        return lambda *a: f(*loops, *a)

# --- enums ---------------------------------------------------------------
DISCR = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'CapacityOverflow': 0, 'AllocError': 1}
VARIANTS = {('Option', 0): 'None', ('Option', 1): 'Some', ('Result', 0): 'Ok', ('Result', 1): 'Err'}

def some(v): return Agg('Option', (v,), 'Some')
NONE = Agg('Option', (), 'None')
def ok(v): return Agg('Result', (v,), 'Ok')
def err(v): return Agg('Result', (v,), 'Err')
def tup(*xs): return Agg('(..)', xs)
PHANTOM = Agg('PhantomData', ())
def vs(x): return Agg('ValidSize', (x, PHANTOM))
def vsu(x): return Agg('ValidSizeUnaligned', (vs(x),))
def va(x): return Agg('ValidAlign', (x,))
