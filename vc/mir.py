"""Parser for rustc's textual MIR (--emit=mir, -Zmir-opt-level=0)."""
import re

class MirError(Exception):
    pass

OPEN, CLOSE = '([{<', ')]}>'

def skip_string(s, i):
    """s[i] == '"': index after the closing quote."""
    i += 1
    while s[i] != '"':
        i += 2 if s[i] == '\\' else 1
    return i + 1

def match(s, i):
    """Index of the bracket closing the one at s[i]."""
    d = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.index("'", i + 2)
            i = j + 1
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            if c == '>' and s[i - 1] in '-=':
                i += 1
                continue
            d -= 1
            if d == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:100])

def split_top(s, sep=','):
    """Splits at top-level separators."""
    res, d, i, st = [], 0, 0, 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            res.append(s[st:i].strip())
            i += len(sep)
            st = i
            continue
        i += 1
    last = s[st:].strip()
    if last:
        res.append(last)
    return res

def find_top(s, sub):
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if d == 0 and s.startswith(sub, i):
            return i
        if c == '"':
            i = skip_string(s, i)
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            d -= 1
        i += 1
    return -1

def place(s):
    p, i = _place(s, 0)
    if i != len(s):
        raise MirError('place: ' + s)
    return p

def _place(s, i):
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        p, i = (int(m.group(1)), ()), m.end()
    elif s[i] == '(':
        e = match(s, i)
        if s[i + 1] == '*':
            (l, pr), j = _place(s, i + 2)
            if j != e:
                raise MirError('place: ' + s)
            p = (l, pr + (('deref',),))
        else:
            (l, pr), j = _place(s, i + 1)
            rest = s[j:e]
            m = re.match(r'\.(\d+): (.*)$', rest, re.S)
            if m:
                p = (l, pr + (('field', int(m.group(1)), m.group(2)),))
            elif rest.startswith(' as '):
                p = (l, pr + (('variant', rest[4:].strip()),))
            else:
                raise MirError('place: ' + s)
        i = e + 1
    elif s[i] == '*':
        (l, pr), j = _place(s, i + 1)
        return (l, pr + (('deref',),)), j
    else:
        raise MirError('place: ' + s)
    while i < len(s) and s[i] == '[':
        e = match(s, i)
        inner = s[i + 1:e]
        m = re.match(r'_(\d+)$', inner)
        if m:
            p = (p[0], p[1] + (('index', int(m.group(1))),))
        else:
            m = re.match(r'(-?\d+) of (\d+)$', inner)
            if not m:
                raise MirError('index: ' + s)
            p = (p[0], p[1] + (('constidx', int(m.group(1))),))
        i = e + 1
    return p, i

def operand(s):
    s = s.strip()
    if s.startswith('copy '):
        return ('copy', place(s[5:]))
    if s.startswith('move '):
        return ('move', place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'_\d+$', s):
        return ('copy', place(s))
    if re.match(r'[\w<]', s):
        return ('fnitem', s)
    raise MirError('operand: ' + s)

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}

def rvalue(s):
    s = s.strip()
    m = re.match(r'&(raw (?:mut|const) |fake (?:shallow |deep )?|mut )?', s)
    if s.startswith('&'):
        k = (m.group(1) or '').strip()
        return ('ref', k, place(s[m.end():]))
    m = re.match(r'(\w+)\(', s)
    if m and m.end() - 1 and match(s, m.end() - 1) == len(s) - 1:
        n = m.group(1)
        inner = s[m.end():-1]
        if n in BINOPS:
            a = split_top(inner)
            return ('bin', n, operand(a[0]), operand(a[1]))
        if n in UNOPS:
            return ('un', n, operand(inner))
        if n == 'discriminant':
            return ('discr', place(inner))
        if n == 'Len':
            return ('len', place(inner))
        if n in ('SizeOf', 'AlignOf'):
            return ('nullary', n, inner)
    if s.startswith('deref_copy '):
        return ('use', ('copy', place(s[len('deref_copy '):])))
    if s.startswith(('copy ', 'move ', 'const ')):
        i = find_top(s, ' as ')
        if i >= 0 and s.endswith(')'):
            # op as T (Kind)
            j = len(s) - 1
            # matching '(' of the trailing kind
            d = 0
            k = j
            while True:
                if s[k] == ')':
                    d += 1
                elif s[k] == '(':
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            return ('cast', operand(s[:i]), s[i + 4:k].strip(), s[k + 1:j])
        return ('use', operand(s))
    if s.startswith('('):
        if match(s, 0) == len(s) - 1:
            return ('tuple', [operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        i = find_top(inner, ';')
        if i >= 0:
            return ('repeat', operand(inner[:i]), inner[i + 1:].strip())
        return ('array', [operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        e = match(s, 0)
        name = s[:e + 1]
        rest = s[e + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1].strip()):
                n, _, o = x.partition(':')
                caps.append((n.strip(), operand(o)))
        return ('closure', name, caps)
    m = re.match(r'\*(const|mut) (.*?) from \((.*)\)$', s)
    if m:
        a = split_top(m.group(3))
        return ('fatptr', operand(a[0]), operand(a[1]))
    # aggregates: path, path(..), path { .. }
    if s.endswith('}'):
        # last top-level ' {'
        d = 0
        k = len(s) - 1
        while True:
            if s[k] == '}':
                d += 1
            elif s[k] == '{':
                d -= 1
                if d == 0:
                    break
            k -= 1
        name = s[:k].strip()
        fs = []
        for x in split_top(s[k + 1:-1].strip()):
            n, _, o = x.partition(':')
            fs.append((n.strip(), operand(o)))
        return ('adt', name, fs)
    if s.endswith(')'):
        d = 0
        k = len(s) - 1
        while True:
            if s[k] == ')':
                d += 1
            elif s[k] == '(':
                d -= 1
                if d == 0:
                    break
            k -= 1
        return ('adt', s[:k].strip(), [(str(i), operand(x)) for i, x in enumerate(split_top(s[k + 1:-1]))])
    if re.match(r'[\w:<{]', s):
        return ('adt', s, [])
    raise MirError('rvalue: ' + s)

def _targets(s):
    """'[return: bb1, unwind: bb2]' | 'unwind continue' | 'bb3' | '[return: bb4, unwind continue]' -> (ret, unwind)"""
    s = s.strip().rstrip(';')
    ret, uw = None, 'continue'
    if s.startswith('['):
        parts = split_top(s[1:-1])
    else:
        parts = [s]
    for p in parts:
        m = re.match(r'(?:return|success): bb(\d+)$', p)
        if m:
            ret = int(m.group(1))
            continue
        m = re.match(r'bb(\d+)$', p)
        if m:
            ret = int(m.group(1))
            continue
        m = re.match(r'unwind(?:: bb(\d+)| (\S+))$', p)
        if not m:
            raise MirError('targets: ' + s)
        uw = int(m.group(1)) if m.group(1) else m.group(2)
    return ret, uw

def statement(s):
    """-> ('nop',) | ('assign', place, rvalue) | terminators"""
    if s.startswith('StorageDead('):
        return ('dead', int(s[len('StorageDead(_'):-1]))
    if s.startswith(('StorageLive', 'nop', 'FakeRead', 'PlaceMention', 'Retag', 'AscribeUserType', 'ConstEvalCounter', 'Coverage', 'BackwardIncompatibleDropHint')):
        return ('nop',)
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s in ('resume', 'unwind_resume') or s.startswith('resume'):
        return ('resume',)
    if s.startswith('unwind_terminate') or s.startswith('terminate'):
        return ('terminate',)
    if s.startswith('goto -> bb'):
        return ('goto', int(s[len('goto -> bb'):]))
    if s.startswith('switchInt('):
        e = match(s, len('switchInt'))
        op = operand(s[len('switchInt('):e])
        ts = []
        body = s[s.index('[', e):]
        for x in split_top(body[1:-1]):
            k, _, b = x.partition(': bb')
            ts.append((None if k == 'otherwise' else int(k), int(b)))
        return ('switch', op, ts)
    if s.startswith('drop('):
        e = match(s, 4)
        ret, uw = _targets(s[s.index('->', e) + 2:])
        return ('drop', place(s[5:e]), ret, uw)
    if s.startswith('assert('):
        e = match(s, 6)
        a = split_top(s[7:e])
        c = a[0]
        neg = c.startswith('!')
        ret, uw = _targets(s[s.index('->', e) + 2:])
        return ('assert', operand(c[1:] if neg else c), not neg, a[1] if len(a) > 1 else '', ret, uw)
    if s.startswith('assume('):
        return ('assume', operand(s[7:-1]))
    m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('setdiscr', place(m.group(1)), int(m.group(2)))
    m = re.match(r'deinit\(', s, re.I)
    if m:
        return ('nop',)
    i = find_top(s, ' = ')
    if i < 0:
        raise MirError('statement: ' + s)
    dst, rhs = place(s[:i]), s[i + 3:]
    k = rfind_arrow(rhs)
    if k is not None:
        call, tg = rhs[:k].rstrip(), rhs[k + 2:]
        # call expression: callee(args)
        d, j = 0, len(call) - 1
        if call[j] != ')':
            raise MirError('call: ' + s)
        while True:
            if call[j] == ')':
                d += 1
            elif call[j] == '(':
                d -= 1
                if d == 0:
                    break
            elif call[j] == '"':
                j -= 1
                while not (call[j] == '"' and call[j - 1] != '\\'):
                    j -= 1
            j -= 1
        callee, args = call[:j].strip(), call[j + 1:-1]
        ret, uw = _targets(tg)
        if re.match(r'(copy|move) ', callee):
            callee = operand(callee)
        return ('call', dst, callee, [operand(x) for x in split_top(args)], ret, uw)
    return ('assign', dst, rvalue(rhs))

def rfind_arrow(s):
    """Top-level ' -> ' that introduces the targets of a call."""
    m = None
    for m in re.finditer(r' -> (?=\[|unwind|bb\d)', s):
        pass
    if m is None:
        return None
    return m.start() + 1

class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.locals = {}
        self.blocks = {}
        self.cleanup = set()
        self.debug = {}
        self.crate = None
        self.text = ''
        self._parsed = {}
        self.promoted = {}

    def block(self, b):
        """Parsed statements of block b (lazily)."""
        r = self._parsed.get(b)
        if r is None:
            r = [statement(x) for x in self.blocks[b]]
            r = [x for x in r if x[0] != 'nop']
            # a diverging call prints its unwind target alone
            if r and r[-1][0] == 'call' and r[-1][4] in self.cleanup and b not in self.cleanup:
                t = r[-1]
                r[-1] = t[:4] + (None, t[4])
            self._parsed[b] = r
        return r

def parse(text, crate):
    """-> (functions by name (list; names may repeat), constants by name)"""
    fns, consts = [], {}
    owner = None
    i = 0
    lines = text.split('\n')
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('fn ') or l.startswith(('const ', 'static ')) and l.endswith('{'):
            st = i
            while lines[i] != '}':
                i += 1
            body = lines[st + 1:i]
            f = _item(l, body, crate)
            if f is not None:
                m = re.fullmatch(r'(.*)::promoted\[(\d+)\]', f.name)
                if m is None:
                    owner = f
                elif owner is not None and owner.name == m.group(1):
                    # the promoted constants of a body follow it
                    owner.promoted[int(m.group(2))] = f
                if l.startswith('fn '):
                    fns.append(f)
                else:
                    consts[f.name] = f
        i += 1
    return fns, consts

def _item(header, body, crate):
    if header.startswith('fn '):
        h = header[3:]
        # name up to the '(' that starts "(_1:" or "()"
        m = re.search(r'\((?=_1: |\) ->)', h)
        if not m:
            return None
        e = match(h, m.start())
        name = h[:m.start()]
        params = []
        for p in split_top(h[m.end():e]):
            a, _, t = p.partition(': ')
            params.append((int(a[1:]), t))
        r = h[e + 1:].strip()
        ret = r[3:].rstrip('{').strip() if r.startswith('->') else '()'
    else:
        h = header.split(' ', 1)[1]
        i = find_colon(h)
        name, ret, params = h[:i], h[i + 2:h.rindex(' = {')], []
    f = Fn(name, params, ret)
    f.crate = crate
    f.locals.update(params)
    cur = None
    buf = ''
    for l in body:
        s = l.strip()
        if cur is None:
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', s)
            if m:
                f.debug.setdefault(m.group(1), m.group(2))
                continue
        m = re.match(r'bb(\d+)(?: \(cleanup\))?: \{$', s)
        if m and cur is None:
            cur = int(m.group(1))
            f.blocks[cur] = []
            if 'cleanup' in s:
                f.cleanup.add(cur)
            continue
        if cur is not None:
            if s == '}' and not buf:
                cur = None
                continue
            buf = (buf + ' ' + s) if buf else s
            if s.endswith(';'):
                f.blocks[cur].append(buf[:-1])
                buf = ''
    f.text = header + '\n' + '\n'.join(body)
    return f

def find_colon(h):
    d = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c in OPEN:
            d += 1
        elif c in CLOSE and not (c == '>' and h[i - 1] in '-='):
            d -= 1
        elif d == 0 and h.startswith(': ', i):
            return i
        i += 1
    raise MirError('const: ' + h)
