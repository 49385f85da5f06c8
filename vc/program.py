"""The code under proof: MIR of both crates plus the impl headers of the source, and name resolution."""
import re, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mir

def strip_generics(s):
    """Removes <...> groups (and a preceding ::) that are generic arguments, keeping <impl ..> and leading <A as B>."""
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if c == '<':
            e = mir.match(s, i)
            inner = s[i + 1:e]
            if inner.startswith('impl ') and (out.endswith('::') or not out):
                out += '{' + impl_ty(inner[5:]) + '}'
            else:
                if out.endswith('::'):
                    out = out[:-2]
            i = e + 1
            continue
        out += c
        i += 1
    return out

def impl_ty(t):
    """'usize' -> usize, '*mut T' -> *mut, '[T]' -> []"""
    return head(t)

def head(t):
    """Head symbol of a type."""
    t = t.strip()
    while True:
        t2 = re.sub(r"^(?:'\w+ |for<[^>]*> )", '', t)
        if t2 == t:
            break
        t = t2
    if t.startswith('&'):
        t = re.sub(r"^&(?:'\w+ )?(mut )?", lambda m: '&mut ' if m.group(1) else '&', t)
        if t.startswith('&mut '):
            return '&mut ' + head(t[5:])
        return '&' + head(t[1:])
    if t.startswith('*const '):
        return '*const'
    if t.startswith('*mut '):
        return '*mut'
    if t.startswith('['):
        return '[]' if mir.find_top(t[1:-1], ';') < 0 else '[;]'
    if t.startswith('('):
        return '()' if t == '()' else '(..)'
    if t.startswith('{closure'):
        return '{closure}'
    if t.startswith('dyn '):
        return 'dyn ' + head(t[4:])
    if t.startswith('impl '):
        return 'impl ' + head(t[5:])
    if t.startswith('for<'):
        return head(t[mir.match(t, 3) + 1:])
    if t.startswith('<'):
        e = mir.match(t, 0)
        inner = t[1:e]
        i = mir.find_top(inner, ' as ')
        rest = t[e + 1:]
        if i >= 0:
            return '<' + head(inner[:i]) + ' as ' + head(inner[i + 4:]) + '>' + strip_generics(rest)
        return '<' + head(inner) + '>' + rest
    t = strip_generics(t)
    t = re.sub(r'\(.*$', '', t)
    return t.split('::')[-1].strip()

class Callee:
    __slots__ = ('text', 'self_ty', 'trait', 'path', 'method', 'targs', 'key')
    def __repr__(self):
        return self.key

def parse_callee(text):
    c = Callee()
    c.text = text
    c.trait = c.self_ty = None
    c.targs = []
    rest = text
    if text.startswith('<') and not text.startswith('<impl '):
        e = mir.match(text, 0)
        inner = text[1:e]
        i = mir.find_top(inner, ' as ')
        if i >= 0:
            c.self_ty, c.trait = inner[:i].strip(), inner[i + 4:].strip()
        else:
            c.self_ty = inner
        rest = text[e + 1:]
        if rest.startswith('::'):
            rest = rest[2:]
    # generic arguments of the method
    segs = mir.split_top(rest, '::')
    flat = []
    for i, s in enumerate(segs):
        if s.startswith('<') and (not s.startswith('<impl ') or i and i == len(segs) - 1):
            c.targs = mir.split_top(s[1:-1])
            if flat and s is not segs[-1]:
                pass
            continue
        flat.append(s)
    c.method = flat[-1]
    c.path = flat[:-1]
    if c.trait is None and c.self_ty is None and c.path:
        # Type::<Args>::method: keep the type's text with its arguments
        j = text.rindex('::' + c.method) if ('::' + c.method) in text else -1
        c.self_ty = text[:j] if j >= 0 else None
        if segs[-1].startswith('<') and len(segs) > 2 and segs[-2] == c.method:
            pass
    h = [impl_ty(p[6:-1]) if p.startswith('<impl ') else p for p in c.path]
    if c.trait is not None:
        c.key = f'<{head(c.self_ty)} as {head(c.trait)}>::{c.method}'
    elif h:
        c.key = f'{h[-1]}::{c.method}'
    elif c.self_ty:
        c.key = f'{head(c.self_ty)}::{c.method}'
    else:
        c.key = c.method
    return c

class Program:
    def __init__(self, mirs, roots):
        """mirs: {crate: mir file}; roots: {crate: directory the source paths are relative to}"""
        self.fns, self.consts = [], {}
        self.roots = roots
        self.src = {}
        for crate, path in mirs.items():
            f, c = mir.parse(open(path).read(), crate)
            self.fns += f
            for n, x in c.items():
                self.consts[n] = x
        self.index()

    def source(self, path):
        if path not in self.src:
            for r in self.roots:
                p = os.path.join(r, path)
                if os.path.exists(p):
                    self.src[path] = open(p).read().split('\n')
                    break
            else:
                self.src[path] = None
        return self.src[path]

    def span(self, path, l1, c1, l2, c2):
        s = self.source(path)
        if s is None:
            return ''
        if l1 == l2:
            return s[l1 - 1][c1 - 1:c2 - 1]
        return ' '.join([s[l1 - 1][c1 - 1:]] + [x.strip() for x in s[l1:l2 - 1]] + [s[l2 - 1][:c2 - 1]])

    IMPL = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')

    def impl_of(self, name, params, ret):
        """(self head, trait head|None, prefix, rest) of the innermost impl in a function name."""
        ms = list(self.IMPL.finditer(name))
        if not ms:
            return None
        m = ms[-1]
        txt = self.span(m.group(1), *[int(m.group(i)) for i in (2, 3, 4, 5)]).strip()
        prefix, rest = name[:m.start()], name[m.end():]
        tr = None
        if txt.startswith(('impl', 'unsafe impl', 'default impl')):
            t = txt[txt.index('impl') + 4:].strip()
            if t.startswith('<'):
                t = t[mir.match(t, 0) + 1:].strip()
            t = re.split(r'\bwhere\b', t)[0].strip().rstrip('{').strip()
            if t.startswith('const '):
                t = t[6:]
            i = mir.find_top(t, ' for ')
            if i >= 0:
                tr, se = t[:i], t[i + 5:]
            else:
                se = t
            sh = head(se)
            if '$' in se:
                sh = None
            th = head(tr) if tr else None
        else:
            sh, th, se = None, head(txt), None   # derive
        if sh is None:
            p = params[0][1] if params else ret
            p = re.sub(r"^&(?:'\w+ )?(mut )?", '', p)
            sh = head(p)
            se = p
        return sh, th, prefix, rest, se

    def impl_text(self, f):
        """The source text of the header of the impl a function belongs to."""
        ms = list(self.IMPL.finditer(f.name))
        return self.span(ms[-1].group(1), *[int(ms[-1].group(i)) for i in (2, 3, 4, 5)]) if ms else ''

    def index(self):
        self.by_key, self.by_name, self.closures = {}, {}, {}
        self.order = {id(f): i for i, f in enumerate(self.fns)}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
            f.impl = None
            m = re.search(r'\{closure@[^}]*\}', f.params[0][1]) if f.params and '{closure#' in f.name.split('::')[-1] else None
            if m:
                self.closures.setdefault(m.group(0), []).append(f)
                f.key = None
                continue
            im = self.impl_of(f.name, f.params, f.ret)
            if im and im[3].startswith('::') and '::' not in im[3][2:]:
                sh, th, prefix, rest, se = im
                f.impl = im
                meth = rest[2:]
                f.key = f'<{sh} as {th}>::{meth}' if th else f'{sh}::{meth}'
                f.scope = prefix
            else:
                f.key = re.sub(r'^.*>::', '', f.name) if im else f.name
                f.scope = ''
                f.path = f.name
            self.by_key.setdefault(f.key, []).append(f)
        self.const_by_key = {}
        for n, c in self.consts.items():
            im = self.impl_of(n, c.params, c.ret)
            if im:
                sh, th, prefix, rest, se = im
                c.key = f'<{sh} as {th}>{rest}' if th else f'{sh}{rest}'
            else:
                c.key = n
            c.impl = im
            self.const_by_key.setdefault(c.key, []).append(c)

    def closure(self, loc, parent):
        """Function of the closure created in `parent`."""
        l = self.closures.get(loc)
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        i = self.order.get(id(parent), -1)
        sub = [f for f in l if f.name.startswith(parent.name + '::')]
        later = [f for f in (sub or l) if self.order[id(f)] > i]
        return min(later or l, key=lambda f: self.order[id(f)])

    def drop_glue(self, name, fn_scope=None):
        """Drop::drop of the type whose (last) name is `name`; several local types share names."""
        l = self.by_key.get(f'<{name} as Drop>::drop', [])
        return l

def _strip_comments(t):
    t = re.sub(r'//[^\n]*', '', t)
    return re.sub(r'/\*.*?\*/', '', t, flags=re.S)

def struct_fields(self, name, path):
    """[(field name, type)] of a braced struct, from the source file."""
    k = ('struct', name, path)
    if k in self.src:
        return self.src[k]
    for r in self.roots:
        p = os.path.join(r, path)
        if os.path.exists(p):
            break
    else:
        return None
    t = _strip_comments(open(p).read())
    m = re.search(r'\bstruct\s+' + re.escape(name) + r'\b', t)
    if not m:
        return None
    i = t.index('{', m.end())
    d, j = 0, i
    while True:
        if t[j] == '{': d += 1
        if t[j] == '}':
            d -= 1
            if d == 0: break
        j += 1
    out = []
    for part in mir.split_top(t[i + 1:j]):
        part = re.sub(r'#\[[^\]]*\]', '', part).strip()
        if not part:
            continue
        mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', part, re.S)
        if mm:
            out.append((mm.group(1), ' '.join(mm.group(2).split())))
    self.src[k] = out
    return out
Program.struct_fields = struct_fields
