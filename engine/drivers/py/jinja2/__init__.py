"""A stand-in for Jinja2, which is not installed: its template language as the
validator can use it, with Jinja's whitespace, scoping and lookup rules."""
import builtins
import re


class TemplateError(Exception):
    pass


class TemplateSyntaxError(TemplateError):
    pass


class UndefinedError(TemplateError):
    pass


class Undefined(object):
    def __init__(self, name=None):
        object.__setattr__(self, '_name', name)

    def _fail(self, *a, **k):
        raise UndefinedError("%r is undefined" % (object.__getattribute__(self, '_name'),))

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)
        self._fail()

    __call__ = __getitem__ = __lt__ = __le__ = __gt__ = __ge__ = _fail
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _fail
    __truediv__ = __mod__ = __neg__ = __pos__ = __int__ = __float__ = _fail

    def __str__(self):
        return ""

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return False

    def __eq__(self, o):
        return type(self) is type(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(type(self))


class StrictUndefined(Undefined):
    __str__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = Undefined._fail
    __hash__ = Undefined.__hash__


# ---- lexing ----

_OPEN = re.compile(r'\{(%|\{|#)([-+]?)')
_TOK = re.compile(r'''\s*(?:
  (?P<float>\d[\d_]*(?:\.\d+(?:[eE][+-]?\d+)?|[eE][+-]?\d+))
 |(?P<int>0[xX][0-9a-fA-F_]+|0[oO][0-7_]+|0[bB][01_]+|\d[\d_]*)
 |(?P<name>[^\W\d]\w*)
 |(?P<str>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")
 |(?P<op>\*\*|//|==|!=|<=|>=|[-+*/%~<>=()\[\]{},.:|])
)''', re.X | re.S)


def _tokens(s, end, pos):
    """Tokens of s[pos:] up to the closing mark; returns (tokens, strip, after)."""
    close = {'%': '%}', '{': '}}'}[end]
    out, depth = [], 0
    while True:
        m = re.compile(r'\s*').match(s, pos)
        p = m.end()
        if depth == 0:
            if s.startswith('-' + close, p):
                return out, '-', p + 3
            if s.startswith('+' + close, p):
                return out, '+', p + 3
            if s.startswith(close, p):
                return out, '', p + 2
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise TemplateSyntaxError("unexpected text %r" % s[p:p + 20])
        k = m.lastgroup
        t = m.group(k)
        if k == 'op':
            if t in '([{':
                depth += 1
            elif t in ')]}':
                depth -= 1
        out.append((k, t))
        pos = m.end()


def _split(src, env):
    """The template as ('data', text), ('var', tokens), ('block', tokens)."""
    src = re.sub(r'\r\n|\r|\n', '\n', src)
    if not env.keep_trailing_newline and src.endswith('\n'):
        src = src[:-1]
    out, pos, strip = [], 0, False
    while True:
        m = _OPEN.search(src, pos)
        data = src[pos:m.start() if m else len(src)]
        if strip:
            data = data.lstrip()
        if m and m.group(2) == '-':
            data = data.rstrip()
        elif m and m.group(1) != '{' and env.lstrip_blocks and m.group(2) != '+':
            line = data.rsplit('\n', 1)
            if line[-1].strip() == '' and (len(line) > 1 or pos == 0):
                data = data[:len(data) - len(line[-1])]
        if data:
            out.append(('data', data))
        if not m:
            return out
        strip = False
        if m.group(1) == '#':
            e = src.find('#}', m.end())
            if e < 0:
                raise TemplateSyntaxError("comment without end")
            strip = src[e - 1] == '-'
            pos = e + 2
            if env.trim_blocks and not strip and src.startswith('\n', pos):
                pos += 1
            continue
        toks, mark, pos = _tokens(src, m.group(1), m.end())
        strip = mark == '-'
        if m.group(1) == '{':
            out.append(('var', toks))
            continue
        if env.trim_blocks and mark == '' and src.startswith('\n', pos):
            pos += 1
        if toks and toks[0] == ('name', 'raw'):
            e = re.compile(r'\{%([-+]?)\s*endraw\s*([-+]?)%\}').search(src, pos)
            if not e:
                raise TemplateSyntaxError("raw without end")
            data = src[pos:e.start()]
            if strip:
                data = data.lstrip()
            if e.group(1) == '-':
                data = data.rstrip()
            out.append(('data', data))
            strip = e.group(2) == '-'
            pos = e.end()
            continue
        out.append(('block', toks))


# ---- parsing: every node becomes a closure over (env, ctx) ----

class _P(object):
    def __init__(self, toks, env):
        self.t, self.i, self.env = toks, 0, env

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][0] in ('op', 'name') and self.t[self.i][1] in vals

    def take(self, *vals):
        if self.peek(*vals):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, v):
        if not self.take(v):
            raise TemplateSyntaxError("expected %r at %r" % (v, self.t[self.i:self.i + 3]))

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] == 'name':
            self.i += 1
            return self.t[self.i - 1][1]
        raise TemplateSyntaxError("expected a name at %r" % (self.t[self.i:self.i + 3],))

    def done(self):
        if self.i != len(self.t):
            raise TemplateSyntaxError("unexpected %r" % (self.t[self.i:self.i + 3],))

    def tuple(self, cond=True, stop=()):
        f = self.expr() if cond else self.or_()
        if not self.peek(','):
            return f
        fs = [f]
        while self.take(','):
            if self.i == len(self.t) or self.peek(*stop):
                break
            fs.append(self.expr() if cond else self.or_())
        return lambda c: tuple(g(c) for g in fs)

    def expr(self):
        f = self.or_()
        while self.take('if'):
            g = self.or_()
            h = self.expr() if self.take('else') else (lambda c: Undefined())
            f = (lambda f, g, h: lambda c: f(c) if g(c) else h(c))(f, g, h)
        return f

    def or_(self):
        f = self.and_()
        while self.take('or'):
            f = (lambda f, g: lambda c: f(c) or g(c))(f, self.and_())
        return f

    def and_(self):
        f = self.not_()
        while self.take('and'):
            f = (lambda f, g: lambda c: f(c) and g(c))(f, self.not_())
        return f

    def not_(self):
        if self.take('not'):
            f = self.not_()
            return lambda c: not f(c)
        return self.cmp()

    OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
           '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
           'in': lambda a, b: a in b, 'notin': lambda a, b: a not in b}

    def cmp(self):
        f = self.add()
        ops = []
        while True:
            o = self.take('==', '!=', '<', '<=', '>', '>=', 'in')
            if not o and self.peek('not') and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('name', 'in'):
                self.i += 2
                o = 'notin'
            if not o:
                break
            ops.append((self.OPS[o], self.add()))
        if not ops:
            return f

        def run(c):
            a = f(c)
            r = True
            for o, g in ops:
                b = g(c)
                r = o(a, b)
                if not r:
                    return r
                a = b
            return r
        return run

    def add(self):
        f = self.concat()
        while True:
            o = self.take('+', '-')
            if not o:
                return f
            g = self.concat()
            f = (lambda f, g, o: (lambda c: f(c) + g(c)) if o == '+' else (lambda c: f(c) - g(c)))(f, g, o)

    def concat(self):
        f = self.mul()
        if not self.peek('~'):
            return f
        fs = [f]
        while self.take('~'):
            fs.append(self.mul())
        return lambda c: ''.join(str(g(c)) for g in fs)

    MUL = {'*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b}

    def mul(self):
        f = self.unary()
        while True:
            o = self.take('*', '/', '//', '%')
            if not o:
                return f
            f = (lambda f, g, o: lambda c: o(f(c), g(c)))(f, self.unary(), self.MUL[o])

    def unary(self, filters=True):
        if self.take('-'):
            f = self.unary(False)
            r = lambda c: -f(c)
        elif self.take('+'):
            f = self.unary(False)
            r = lambda c: +f(c)
        else:
            r = self.postfix(self.primary())
            if self.take('**'):
                r = (lambda f, g: lambda c: f(c) ** g(c))(r, self.unary(False))
        if filters:
            r = self.filters(r)
        return r

    def primary(self):
        if self.i >= len(self.t):
            raise TemplateSyntaxError("unexpected end of expression")
        k, v = self.t[self.i]
        self.i += 1
        if k == 'name':
            if v in ('true', 'True'):
                return lambda c: True
            if v in ('false', 'False'):
                return lambda c: False
            if v in ('none', 'None'):
                return lambda c: None
            return lambda c: c.get(v)
        if k == 'str':
            s = ''
            while True:
                s += v[1:-1].encode('ascii', 'backslashreplace').decode('unicode-escape')
                if self.i < len(self.t) and self.t[self.i][0] == 'str':
                    v = self.t[self.i][1]
                    self.i += 1
                    continue
                return lambda c: s
        if k == 'int':
            n = int(v.replace('_', ''), 0 if v[:2].lower() in ('0x', '0o', '0b') else 10)
            return lambda c: n
        if k == 'float':
            x = float(v.replace('_', ''))
            return lambda c: x
        if v == '(':
            if self.take(')'):
                return lambda c: ()
            f = self.tuple(True, (')',))
            self.need(')')
            return f
        if v == '[':
            fs = []
            while not self.take(']'):
                fs.append(self.expr())
                if not self.peek(']'):
                    self.need(',')
            return lambda c: [g(c) for g in fs]
        if v == '{':
            fs = []
            while not self.take('}'):
                a = self.expr()
                self.need(':')
                fs.append((a, self.expr()))
                if not self.peek('}'):
                    self.need(',')
            return lambda c: dict((a(c), b(c)) for a, b in fs)
        raise TemplateSyntaxError("unexpected %r" % v)

    def args(self):
        pos, kw, sp, skw = [], [], [], []
        while not self.take(')'):
            if self.take('*'):
                sp.append(self.expr())
            elif self.take('**'):
                skw.append(self.expr())
            elif self.t[self.i][0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
                n = self.name()
                self.i += 1
                kw.append((n, self.expr()))
            else:
                pos.append(self.expr())
            if not self.peek(')'):
                self.need(',')

        def run(c):
            a = [g(c) for g in pos]
            for g in sp:
                a.extend(g(c))
            k = dict((n, g(c)) for n, g in kw)
            for g in skw:
                k.update(g(c))
            return a, k
        return run

    def postfix(self, f):
        while True:
            if self.take('.'):
                if self.i < len(self.t) and self.t[self.i][0] == 'int':
                    n = int(self.t[self.i][1])
                    self.i += 1
                    f = (lambda f, n: lambda c: _item(f(c), n))(f, n)
                else:
                    f = (lambda f, n: lambda c: _attr(f(c), n))(f, self.name())
            elif self.take('['):
                lo = hi = st = None
                sl = False
                if not self.peek(':'):
                    lo = self.tuple(True, (']',))
                if self.take(':'):
                    sl = True
                    if not self.peek(':', ']'):
                        hi = self.expr()
                    if self.take(':') and not self.peek(']'):
                        st = self.expr()
                self.need(']')
                if sl:
                    f = (lambda f, lo, hi, st: lambda c: f(c)[slice(lo and lo(c), hi and hi(c), st and st(c))])(f, lo, hi, st)
                else:
                    f = (lambda f, lo: lambda c: _item(f(c), lo(c)))(f, lo)
            elif self.take('('):
                def call(f, a):
                    def run(c):
                        p, k = a(c)
                        return f(c)(*p, **k)
                    return run
                f = call(f, self.args())
            else:
                return f

    def filters(self, f):
        while True:
            if self.take('|'):
                f = self.filter(f)
            elif self.take('is'):
                neg = bool(self.take('not'))
                n = self.name()
                if n not in TESTS:
                    raise TemplateSyntaxError("no test named %r" % n)
                a = None
                if self.take('('):
                    a = self.args()
                elif self.i < len(self.t) and (self.t[self.i][0] != 'op' or self.t[self.i][1] in '([{') and not self.peek('else', 'or', 'and', 'if', 'is', 'not', 'in', 'recursive'):
                    g = self.postfix(self.primary())
                    a = lambda c: ([g(c)], {})

                def test(f, n, a, neg):
                    def run(c):
                        p, k = a(c) if a else ([], {})
                        return bool(TESTS[n](f(c), *p, **k)) != neg
                    return run
                f = test(f, n, a, neg)
            elif self.peek('('):
                return self.postfix(f)
            else:
                return f

    def filter(self, f):
        n = self.name()
        while self.take('.'):
            n += '.' + self.name()
        fn = self.env.filters.get(n)
        if fn is None:
            raise TemplateSyntaxError("no filter named %r" % n)
        a = self.args() if self.take('(') else None

        def run(c):
            p, k = a(c) if a else ([], {})
            return fn(f(c), *p, **k)
        return run


def _attr(o, n):
    try:
        return getattr(o, n)
    except AttributeError:
        pass
    try:
        return o[n]
    except (TypeError, LookupError, AttributeError):
        return Undefined(n)


def _item(o, n):
    try:
        return o[n]
    except (AttributeError, TypeError, LookupError):
        if isinstance(n, str):
            try:
                return getattr(o, n)
            except AttributeError:
                pass
        return Undefined(n)


class _Ctx(object):
    __slots__ = ('vars', 'up', 'env')

    def __init__(self, env, up, vars):
        self.env, self.up, self.vars = env, up, vars

    def get(self, n):
        c = self
        while c is not None:
            if n in c.vars:
                return c.vars[n]
            c = c.up
        if n in self.env.globals:
            return self.env.globals[n]
        return self.env.undefined(n)


class _Loop(object):
    def __init__(self, items):
        self._items, self.index0, self.length = items, -1, len(items)

    index = property(lambda s: s.index0 + 1)
    first = property(lambda s: s.index0 == 0)
    last = property(lambda s: s.index0 == s.length - 1)
    revindex = property(lambda s: s.length - s.index0)
    revindex0 = property(lambda s: s.length - s.index0 - 1)
    previtem = property(lambda s: s._items[s.index0 - 1] if s.index0 else Undefined('previtem'))
    nextitem = property(lambda s: s._items[s.index0 + 1] if not s.last else Undefined('nextitem'))

    def cycle(self, *a):
        return a[self.index0 % len(a)]


def _target(p):
    names = []
    par = p.take('(')
    while True:
        n = p.name()
        if p.take('.'):
            n = (n, p.name())
        names.append(n)
        if not p.take(','):
            break
    if par:
        p.need(')')

    def assign(c, v):
        vs = [v] if len(names) == 1 else list(v)
        if len(vs) != len(names):
            raise ValueError("cannot unpack")
        for n, x in zip(names, vs):
            if isinstance(n, tuple):
                setattr(c.get(n[0]), n[1], x)
            else:
                c.vars[n] = x
    return assign


class _Body(object):
    """A list of nodes; node(c, out) appends text."""

    def __init__(self, nodes):
        self.nodes = nodes

    def __call__(self, c, out):
        for n in self.nodes:
            n(c, out)

    def text(self, c):
        out = []
        self(c, out)
        return ''.join(out)


class _Tpl(object):
    def __init__(self, parts, env):
        self.parts, self.i, self.env = parts, 0, env

    def body(self, ends):
        """Parses up to a block whose word is in ends; returns (body, word, parser)."""
        nodes = []
        while self.i < len(self.parts):
            k, v = self.parts[self.i]
            self.i += 1
            if k == 'data':
                nodes.append((lambda s: lambda c, out: out.append(s))(v))
            elif k == 'var':
                p = _P(v, self.env)
                f = p.tuple()
                p.done()
                nodes.append((lambda f: lambda c, out: out.append(c.env.finish(f(c))))(f))
            else:
                p = _P(v, self.env)
                w = p.name()
                if w in ends:
                    return _Body(nodes), w, p
                h = getattr(self, 'do_' + w, None)
                if h is None:
                    raise TemplateSyntaxError("tag %r (not supported by this stand-in)" % w)
                nodes.append(h(p))
        if ends:
            raise TemplateSyntaxError("missing %s" % '/'.join(ends))
        return _Body(nodes), None, None

    def do_if(self, p):
        arms, other = [], None
        cond = p.tuple()
        p.done()
        while True:
            b, w, q = self.body(('elif', 'else', 'endif'))
            arms.append((cond, b))
            if w == 'elif':
                cond = q.tuple()
                q.done()
                continue
            if w == 'else':
                other, w, q = self.body(('endif',))
            break

        def run(c, out):
            for f, b in arms:
                if f(c):
                    return b(c, out)
            if other:
                other(c, out)
        return run

    def do_for(self, p):
        tgt = _target(p)
        p.need('in')
        it = p.tuple(False, ('if', 'recursive'))
        cond = p.expr() if p.take('if') else None
        p.done()
        b, w, _ = self.body(('else', 'endfor'))
        other = None
        if w == 'else':
            other, _, _ = self.body(('endfor',))

        def run(c, out):
            items = list(it(c))
            if cond:
                keep = []
                for x in items:
                    d = _Ctx(c.env, c, {})
                    tgt(d, x)
                    if cond(d):
                        keep.append(x)
                items = keep
            loop = _Loop(items)
            for i, x in enumerate(items):
                loop.index0 = i
                d = _Ctx(c.env, c, {'loop': loop})
                tgt(d, x)
                b(d, out)
            if not items and other:
                other(_Ctx(c.env, c, {}), out)
        return run

    def do_set(self, p):
        tgt = _target(p)
        if p.take('='):
            f = p.tuple()
            p.done()
            return lambda c, out: tgt(c, f(c))
        f = lambda c: c.cur
        flt = p.filters(lambda c: c.vars['%set'])
        p.done()
        b, _, _ = self.body(('endset',))

        def run(c, out):
            d = _Ctx(c.env, c, {})
            d.vars['%set'] = b.text(_Ctx(c.env, c, {}))
            tgt(c, flt(d))
        return run

    def do_filter(self, p):
        f = p.filter(lambda c: c.vars['%filter'])
        while p.take('|'):
            f = p.filter(f)
        p.done()
        b, _, _ = self.body(('endfilter',))

        def run(c, out):
            d = _Ctx(c.env, c, {})
            d.vars['%filter'] = b.text(_Ctx(c.env, c, {}))
            out.append(str(f(d)))
        return run

    def do_with(self, p):
        sets = []
        while p.i < len(p.t):
            t = p.name()
            p.need('=')
            sets.append((t, p.expr()))
            if not p.take(','):
                break
        p.done()
        b, _, _ = self.body(('endwith',))

        def run(c, out):
            b(_Ctx(c.env, c, dict((n, f(c)) for n, f in sets)), out)
        return run

    def do_macro(self, p):
        name = p.name()
        p.need('(')
        ps = []
        while not p.take(')'):
            n = p.name()
            ps.append((n, p.expr() if p.take('=') else None))
            if not p.peek(')'):
                p.need(',')
        p.done()
        b, _, _ = self.body(('endmacro',))

        def run(c, out):
            def macro(*a, **k):
                d = _Ctx(c.env, c, {})
                for i, (n, dv) in enumerate(ps):
                    d.vars[n] = a[i] if i < len(a) else k[n] if n in k else dv(d) if dv else c.env.undefined(n)
                return b.text(d)
            c.vars[name] = macro
        return run

    def do_do(self, p):
        f = p.tuple()
        p.done()
        return lambda c, out: f(c) and None


# ---- filters, tests, globals ----

def _indent(s, width=4, first=False, blank=False):
    ind = width if isinstance(width, str) else ' ' * width
    s = str(s) + '\n'
    if blank:
        rv = ('\n' + ind).join(s.splitlines())
    else:
        lines = s.splitlines()
        rv = lines.pop(0)
        if lines:
            rv += '\n' + '\n'.join(ind + x if x else x for x in lines)
    return ind + rv if first else rv


def _default(v, d='', boolean=False):
    return d if isinstance(v, Undefined) or boolean and not v else v


def _map(seq, name=None, attribute=None):
    return [_attr(x, attribute) if attribute else FILTERS[name](x) for x in seq]


def _join(seq, d='', attribute=None):
    return str(d).join(str(_attr(x, attribute) if attribute else x) for x in seq)


FILTERS = {
    'indent': _indent, 'default': _default, 'd': _default, 'join': _join, 'map': _map,
    'length': len, 'count': len, 'upper': lambda s: str(s).upper(), 'lower': lambda s: str(s).lower(),
    'trim': lambda s, c=None: str(s).strip(c), 'replace': lambda s, a, b, n=-1: str(s).replace(str(a), str(b), n),
    'string': str, 'int': lambda v, d=0: int(v), 'float': float, 'list': list, 'first': lambda s: next(iter(s), Undefined()),
    'last': lambda s: list(s)[-1], 'sort': lambda s, reverse=False: sorted(s, reverse=reverse), 'unique': lambda s: list(dict.fromkeys(s)),
    'reverse': lambda s: s[::-1], 'abs': abs, 'round': lambda v, p=0: round(v, p), 'sum': lambda s: sum(s), 'min': min, 'max': max,
    'title': lambda s: str(s).title(), 'capitalize': lambda s: str(s).capitalize(), 'safe': lambda s: s, 'e': lambda s: s,
    'format': lambda s, *a, **k: str(s) % (k or a), 'attr': lambda o, n: getattr(o, n, Undefined(n)), 'items': lambda d: list(d.items()),
    'select': lambda s, n=None, *a: [x for x in s if (TESTS[n](x, *a) if n else x)],
    'reject': lambda s, n=None, *a: [x for x in s if not (TESTS[n](x, *a) if n else x)], 'pprint': repr,
    'batch': lambda s, n: [list(s)[i:i + n] for i in range(0, len(list(s)), n)],
}
TESTS = {
    'defined': lambda v: not isinstance(v, Undefined), 'undefined': lambda v: isinstance(v, Undefined),
    'none': lambda v: v is None, 'string': lambda v: isinstance(v, str), 'number': lambda v: isinstance(v, (int, float)),
    'mapping': lambda v: hasattr(v, 'keys'), 'sequence': lambda v: hasattr(v, '__len__') and hasattr(v, '__getitem__'),
    'iterable': lambda v: hasattr(v, '__iter__'), 'true': lambda v: v is True, 'false': lambda v: v is False,
    'boolean': lambda v: v is True or v is False, 'integer': lambda v: isinstance(v, int) and not isinstance(v, bool),
    'float': lambda v: isinstance(v, float), 'odd': lambda v: v % 2 == 1, 'even': lambda v: v % 2 == 0,
    'divisibleby': lambda v, n: v % n == 0, 'sameas': lambda a, b: a is b, 'callable': callable,
    'in': lambda a, b: a in b, 'eq': lambda a, b: a == b, 'equalto': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
}


class _NS(object):
    def __init__(self, *a, **k):
        self.__dict__.update(*a, **k)


class Environment(object):
    def __init__(self, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False, undefined=Undefined, finalize=None, autoescape=False, loader=None, **k):
        if k or autoescape is True:
            raise TemplateError("options %r: not supported by this stand-in" % (sorted(k) or 'autoescape',))
        self.trim_blocks, self.lstrip_blocks, self.keep_trailing_newline = trim_blocks, lstrip_blocks, keep_trailing_newline
        self.undefined, self.finalize = undefined, finalize
        self.filters, self.tests = dict(FILTERS), TESTS
        self.globals = {'range': builtins.range, 'dict': dict, 'namespace': _NS}
        self._cache = {}

    def finish(self, v):
        return str(self.finalize(v) if self.finalize else v)

    def from_string(self, source):
        return Template._of(source, self)


_default_envs = {}


class Template(object):
    def __new__(cls, source, **opts):
        key = tuple(sorted(opts.items()))
        env = _default_envs.get(key)
        if env is None:
            env = _default_envs[key] = Environment(**opts)
        return cls._of(source, env)

    @classmethod
    def _of(cls, source, env):
        t = env._cache.get(source)
        if t is None:
            t = object.__new__(cls)
            t.env = env
            t.root, _, _ = _Tpl(_split(source, env), env).body(())
            env._cache[source] = t
        return t

    def render(self, *a, **k):
        return self.root.text(_Ctx(self.env, None, dict(*a, **k)))
