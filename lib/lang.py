"""A small abstract syntax of Dyon, a printer, and a naive reference interpreter.

The interpreter is the oracle for the script-level properties.  It is written
from the language description (README, DYON-API.md, syntax rules) and keeps
every variable in its own numbered slot that is never reused, so a reference to
a variable that is gone is recognised instead of silently finding another one.

Expressions are tuples; see `Printer` for the list.
"""
import math
from wire import num, boolean, st, f32, NAN

TRUE, FALSE = boolean(True), boolean(False)


# ---------------------------------------------------------------- printer

class Printer:
    """Prints a program.  `mark(node)` positions: (file line, column) of nodes
    of kind 'at': ('at', key, expr)."""

    def __init__(self):
        self.out = []
        self.ind = 1

    def num(self, x):
        if x != x:
            return '(0 / 0)'
        if x == math.inf:
            return '(1 / 0)'
        if x == -math.inf:
            return '(-1 / 0)'
        if x == int(x) and abs(x) < 1e15:
            s = str(int(x))
        else:
            s = repr(x)
        return s

    def string(self, s):
        o = ['"']
        for c in s:
            if c == '"':
                o.append('\\"')
            elif c == '\\':
                o.append('\\\\')
            elif c == '\n':
                o.append('\\n')
            elif c == '\t':
                o.append('\\t')
            elif c == '\r':
                o.append('\\r')
            else:
                o.append(c)
        o.append('"')
        return ''.join(o)

    ATOM = {'num', 'bool', 'str', 'item', 'call', 'cloc', 'arr', 'fill', 'obj', 'vec', 'raw',
            'var', 'swz', 'mat', 'norm'}

    def par(self, e):
        """As an operand."""
        k = e[0]
        if k == 'num' and (e[1] < 0 or (e[1] == 0 and math.copysign(1, e[1]) < 0)):
            return '(' + self.e(e) + ')'
        if k in self.ATOM or (k == 'at' and e[2][0] in self.ATOM):
            return self.e(e)
        return '(' + self.e(e) + ')'

    def block(self, stmts):
        if not stmts:
            return '{}'
        self.ind += 1
        pad = '    ' * self.ind
        r = '{\n' + ''.join(pad + self.e(s) + '\n' for s in stmts)
        self.ind -= 1
        return r + '    ' * self.ind + '}'

    def item(self, it):
        s = ('~ ' if it[0] == 'curdecl' else '') + it[1]
        if len(it) > 3 and it[3]:
            s += self.q(it[3])
        for i in it[2]:
            if i[0] == '.':
                s += '.' + i[1]
            else:
                s += '[' + self.e(i[1]) + ']'
            if i[2]:
                s += self.q(i[2])
        return s

    @staticmethod
    def q(key):
        """A `?` whose place is remembered."""
        return '\x01%s\x02?\x03%s\x04' % (key, key) if isinstance(key, str) else '?'

    def args(self, args):
        return ', '.join(('mut ' + self.item(a[1])) if a[0] == 'mut' else self.e(a) for a in args)

    def loophead(self, vars):
        r = []
        for n, a, b in vars:
            if b[0] == 'infer':
                r.append(n)
            elif a is None:
                r.append('%s %s' % (n, self.par(b)))
            else:
                r.append('%s [%s, %s)' % (n, self.e(a), self.e(b)))
        return ', '.join(r)

    def label(self, l):
        return "'%s: " % l if l else ''

    def e(self, x):
        k = x[0]
        if k == 'num':
            return self.num(x[1])
        if k == 'bool':
            return 'true' if x[1] else 'false'
        if k == 'str':
            return self.string(x[1])
        if k == 'raw':
            return x[1]
        if k == 'at':
            return '\x01%s\x02' % x[1] + self.e(x[2]) + ('\x03%s\x04' % x[1])
        if k == 'item':
            return self.item(x)
        if k == 'arr':
            return '[' + ', '.join(self.e(y) for y in x[1]) + ']'
        if k == 'fill':
            return '[%s; %s]' % (self.e(x[1]), self.e(x[2]))
        if k == 'obj':
            return '{' + ', '.join('%s: %s' % (q if q.isidentifier() else self.string(q), self.e(y))
                                   for q, y in x[1]) + '}'
        if k == 'vec':
            return '(' + ', '.join(self.e(y) for y in x[1]) + (',' if len(x[1]) == 1 else '') + ')'
        if k == 'swz':
            return '%s %s' % (x[1], self.par(x[2]))
        if k == 'mat':
            return 'mat4 {' + '; '.join(','.join(self.e(c) for c in r) for r in x[1]) + '}'
        if k == 'link':
            return 'link ' + self.linkbody(x[1])
        if k == 'bin':
            return '%s %s %s' % (self.par(x[2]), x[1], self.par(x[3]))
        if k == 'cmp':
            return '%s %s %s' % (self.par(x[2]), x[1], self.par(x[3]))
        if k == 'and':
            return '%s && %s' % (self.par(x[1]), self.par(x[2]))
        if k == 'or':
            return '%s || %s' % (self.par(x[1]), self.par(x[2]))
        if k == 'not':
            return '!' + self.par(x[1])
        if k == 'neg':
            return '-' + self.par(x[1])
        if k == 'norm':
            return '|' + self.e(x[1]) + '|'
        if k == 'call':
            if x[1] == 'join':
                return 'join(thread: %s)' % self.e(x[2][0])
            return '%s(%s)' % (x[1], self.args(x[2]))
        if k == 'cloc':
            return '\\%s(%s)' % (self.item(x[1]), self.args(x[2]))
        if k == 'clo':
            ps = ', '.join(n + (': ' + t if t else '') for n, t in x[1])
            cs = (' ~ ' + ', '.join(('mut ' if m else '') + n for m, n in x[2])) if x[2] else ''
            return '\\(%s)%s = %s' % (ps, cs, self.e(x[3]) if x[3][0] == 'block' else self.par(x[3]))
        if k == 'grab':
            return 'grab %s%s' % ("'%d " % x[1] if x[1] != 1 else '', self.par(x[2]))
        if k == 'if':
            r = []
            for i, (c, b) in enumerate(x[1]):
                r.append('%sif %s %s' % ('else ' if i else '', self.e(c), self.block(b)))
            if x[2] is not None:
                r.append('else ' + self.block(x[2]))
            return ' '.join(r)
        if k == 'block':
            return self.block(x[1])
        if k == 'forn':
            return self.label(x[2]) + x[1] + ' ' + self.loophead(x[3]) + ' ' + \
                (self.linkbody(x[4]) if x[1] == 'link' else self.block(x[4]))
        if k == 'in':
            return 'in ' + x[1]
        if k == 'forin':
            return '%s%s %s in %s %s' % (self.label(x[2]), x[1], x[3], self.par(x[4]),
                                         self.linkbody(x[5]) if x[1] == 'link' else self.block(x[5]))
        if k == 'for':
            return '%sfor %s; %s; %s %s' % (self.label(x[1]), self.e(x[2]), self.e(x[3]), self.e(x[4]),
                                            self.block(x[5]))
        if k == 'loop':
            return '%sloop %s' % (self.label(x[1]), self.block(x[2]))
        if k == 'vecn':
            return 'vec%d %s %s' % (x[1], x[2], self.par(x[3]))
        if k == '?':
            return self.par(x[1]) + self.q(x[2] if len(x) > 2 else None)
        if k == 'try':
            return 'try ' + self.par(x[1])
        if k == 'decl':
            return '%s := %s' % (self.item(x[1]), self.e(x[2]))
        if k == 'set':
            return '%s %s %s' % (self.item(x[2]), x[1], self.e(x[3]))
        if k == 'ret':
            t = self.e(x[1])
            return 'return ' + ('clone(' + t + ')' if t.startswith('(') else t)
        if k == 'retv':
            return 'return'
        if k == 'break':
            return 'break' + (" '" + x[1] if x[1] else '')
        if k == 'cont':
            return 'continue' + (" '" + x[1] if x[1] else '')
        if k == 'go':
            return 'go %s(%s)' % (x[1], self.args(x[2]))
        raise ValueError(k)

    def linkbody(self, stmts):
        return '{ ' + ' '.join(self.e(s) if s[0] == 'if' else self.nocall(self.par(s)) for s in stmts) + ' }'

    @staticmethod
    def nocall(t):
        """A parenthesis after a word reads as a call."""
        return 'clone' + t if t.startswith('(') and t.endswith(')') else 'clone(' + t + ')' if t.startswith('(') else t

    def fn(self, f):
        ps = []
        for p in f.params:
            s = ('mut ' if p.mut else '') + p.name
            if p.lt or p.ty:
                s += ': ' + (("'" + p.lt + ' ') if p.lt else '') + (p.ty or '')
            if p.lazy:
                s += ' => ' + ' | '.join(p.lazy_text(self))
            ps.append(s.rstrip())
        cs = (' ~ ' + ', '.join(('mut ' if c[0] else '') + c[1] + (': ' + c[2] if len(c) > 2 and c[2] else '')
                                for c in f.currents)) if f.currents else ''
        if f.expr is not None:
            return '%s(%s)%s = %s' % (f.name, ', '.join(ps), cs, self.e(f.expr))
        self.ind = 0
        return 'fn %s(%s)%s%s %s' % (f.name, ', '.join(ps), cs,
                                     (' -> ' + (f.ret or '')).rstrip() if f.returns else '', self.block(f.body))


class Param:
    def __init__(self, name, ty=None, mut=False, lt=None, lazy=None):
        self.name, self.ty, self.mut, self.lt, self.lazy = name, ty, mut, lt, lazy

    def lazy_text(self, pr):
        r = []
        for l in self.lazy:
            if l[0] == 'lit':
                r.append(pr.e(l[1]))
            else:
                r.append('%s(_)' % l[0])
        return r


class Fn:
    def __init__(self, name, params, body, returns=False, ret=None, currents=(), expr=None):
        self.name, self.params, self.body = name, params, body
        self.returns, self.ret, self.currents, self.expr = returns or expr is not None, ret, list(currents), expr


def print_program(fns, header=''):
    """Returns (text, positions) where positions[key] = (line, col, endline, endcol), 1-based."""
    txt = header + '\n\n'.join(Printer().fn(f) for f in fns) + '\n'
    pos, starts = {}, {}
    out = []
    line = col = 1
    i = 0
    n = len(txt)
    while i < n:
        c = txt[i]
        if c == '\x01' or c == '\x03':
            j = txt.index('\x02' if c == '\x01' else '\x04', i)
            key = txt[i + 1:j]
            if c == '\x01':
                starts[key] = (line, col)
            else:
                pos[key] = starts[key] + (line, col)
            i = j + 1
            continue
        out.append(c)
        if c == '\n':
            line += 1
            col = 1
        else:
            col += 1
        i += 1
    return ''.join(out), pos


# ---------------------------------------------------------------- interpreter

class Fault(Exception):
    """A run-time error; `msg` is a fragment the report must contain."""

    def __init__(self, msg='', trace=()):
        Exception.__init__(self, msg)
        self.msg, self.trace = msg, trace


class Fuel(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    def __init__(self, l):
        self.l = l


class Cnt(Exception):
    def __init__(self, l):
        self.l = l


class Dead(Exception):
    """The program followed a reference to a variable that is gone."""


class Closure:
    def __init__(self, params, currents, body):
        self.params, self.currents, self.body = params, currents, body


class Box:
    """An object with identity."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def mangled(f):
    if any(p.mut for p in f.params):
        return f.name + '(' + ','.join('mut' if p.mut else '_' for p in f.params) + ')'
    return f.name


class Frame:
    __slots__ = ('fn', 'env', 'ret', 'uid')

    def __init__(self, fn, uid):
        self.fn, self.uid = fn, uid
        self.env = []        # list of (name, slot)
        self.ret = None      # slot of `return`


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(math.inf, a) * math.copysign(1, b)
    try:
        return a / b
    except OverflowError:
        return math.inf


def fmod(a, b):
    if b == 0 or a != a or b != b or abs(a) == math.inf:
        return NAN
    return math.fmod(a, b)


def fpow(a, b):
    """C pow()."""
    try:
        return math.pow(a, b)
    except OverflowError:
        if a < 0 and b == int(b) and int(b) % 2 == 1:
            return -math.inf
        return math.inf
    except ValueError:
        if a == 0:  # 0 ** negative
            if b == int(b) and int(b) % 2 == 1:
                return math.copysign(math.inf, a)
            return math.inf
        return NAN


def fmul(a, b):
    return a * b


def arith(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return fdiv(a, b)
    if op == '%':
        return fmod(a, b)
    if op == '^':
        return fpow(a, b)
    raise ValueError(op)


def binop(op, a, b):
    """Arithmetic on resolved values, as documented."""
    ka, kb = a[0], b[0]
    if op in ('+', '-', '*', '/', '%', '^'):
        if ka == 'n' and kb == 'n':
            return ('n', arith(op, a[1], b[1]), a[2])
        if ka == 'v' and kb == 'v':
            return ('v', tuple(f32(arith(op, x, y)) for x, y in zip(a[1], b[1])))
        if ka == 'v' and kb == 'n':
            y = f32(b[1])
            return ('v', tuple(f32(arith(op, x, y)) for x in a[1]))
        if ka == 'n' and kb == 'v':
            x = f32(a[1])
            return ('v', tuple(f32(arith(op, x, y)) for y in b[1]))
    if op == '+':
        if ka == 'b' and kb == 'b':
            return ('b', a[1] or b[1], a[2])
        if ka == 's' and kb == 's':
            return ('s', a[1] + b[1])
        if ka == 'l' and kb == 'l':
            return ('l', a[1] + b[1])
    if op == '-' and ka == 'b' and kb == 'b':
        return ('b', a[1] and not b[1], a[2])
    if op == '*' and ka == 'b' and kb == 'b':
        return ('b', a[1] and b[1], a[2])
    if op == '^' and ka == 'b' and kb == 'b':
        return ('b', a[1] != b[1], a[2])
    raise Fault()


def compare(op, a, b):
    ka, kb = a[0], b[0]
    if op in ('<', '<=', '>', '>='):
        if ka == kb == 'n' or ka == kb == 's':
            x, y = a[1], b[1]
            if ka == 's':
                x, y = x.encode(), y.encode()
            r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            return ('b', r, a[2] if ka == 'n' else None)
        raise Fault()
    r = equal(a, b)
    if r is None:
        raise Fault()
    while a[0] == b[0] == '?' and a[1] and b[1]:
        a, b = a[1], b[1]
    sec = a[2] if a[0] in 'nb' else None
    return ('b', r if op == '==' else not r, sec)


def equal(a, b):
    """None: not comparable."""
    ka, kb = a[0], b[0]
    if ka != kb and not (ka in ('ok', 'err') and kb in ('ok', 'err')):
        return None
    if ka in 'nbs':
        return a[1] == b[1]
    if ka == 'v':
        return a[1] == b[1]
    if ka == 'a':
        return len(a[1]) == len(b[1]) and all(equal(x, y) is True for x, y in zip(a[1], b[1]))
    if ka == 'o':
        return a[1].keys() == b[1].keys() and all(equal(a[1][q], b[1][q]) is True for q in a[1])
    if ka == '?':
        if a[1] is None or b[1] is None:
            return a[1] is None and b[1] is None
        return equal(a[1], b[1])
    return None


class Interp:
    def __init__(self, fns, fuel=200000, external=None):
        self.fns = {}
        for f in fns:
            self.fns[f.name + '(' + ','.join('mut' if p.mut else '_' for p in f.params) + ')'
                     if any(p.mut for p in f.params) else f.name] = f
        self.byname = {f.name: f for f in fns}
        self.slots = []
        self.alive = []
        self.frames = []
        self.currents = []
        self.recv = {}
        self.events = []
        self.fuel = fuel
        self.uid = 0
        self.stats = {}
        self.ext = external or {}

    # -- slots
    def new(self, v):
        self.slots.append(v)
        self.alive.append(True)
        return len(self.slots) - 1

    def kill(self, n):
        for i in range(n, len(self.slots)):
            self.alive[i] = False

    def at(self, s):
        if not self.alive[s]:
            raise Dead()
        return self.slots[s]

    def get(self, v):
        return self.at(v[1]) if v[0] == 'ref' else v

    def deep(self, v):
        k = v[0]
        if k == 'ref':
            return self.deep(self.at(v[1]))
        if k == 'a':
            return ('a', tuple(self.deep(x) for x in v[1]))
        if k == 'o':
            return ('o', {q: self.deep(x) for q, x in v[1].items()})
        return v

    def refs_from(self, v, n):
        k = v[0]
        if k == 'ref':
            return v[1] >= n
        if k == 'a':
            return any(self.refs_from(x, n) for x in v[1])
        if k == 'o':
            return any(self.refs_from(x, n) for x in v[1].values())
        return False

    def snap(self, v):
        """Value as the host sees it."""
        k = v[0]
        if k == 'ref':
            return self.snap(self.at(v[1]))
        if k in 'al' and k != 'l':
            return ('a', tuple(self.snap(x) for x in v[1]))
        if k == 'o':
            return ('o', {q: self.snap(x) for q, x in v[1].items()})
        if k == '?':
            return ('?', None if v[1] is None else self.snap(v[1]))
        if k == 'ok':
            return ('ok', self.snap(v[1]))
        if k == 'clo':
            return ('c',)
        return v

    def ev(self, *e):
        self.events.append(e)
        if len(self.events) > 20000:
            raise Fuel()

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()

    # -- calls from outside
    def call(self, name, args):
        """Calls a function with host values.  Returns value or None."""
        f = self.byname[name]
        return self.invoke(f, [a for a in args])

    def invoke(self, f, args):
        self.tick()
        if len(self.frames) > 60:
            raise Fuel()
        self.uid += 1
        fr = Frame(mangled(f), self.uid)
        base = len(self.slots)
        cu = len(self.currents)
        cur = []
        for c in f.currents:
            for n, s in reversed(self.currents):
                if n == c[1]:
                    cur.append((n, ('ref', s)))
                    break
            else:
                raise Fault('Could not find current variable `%s`' % c[1])
        if f.name in self.recv and self.byname.get(f.name) is f:
            for q in self.recv[f.name]:
                q.append(('a', tuple(self.deep(a) for a in args)))
                self.count('messages')
        for p, a in zip(f.params, args):
            fr.env.append((p.name, self.new(a)))
        for n, v in cur:
            fr.env.append((n, self.new(v)))
        returns = f.returns
        if returns:
            fr.ret = self.new(('retslot',))
        self.frames.append(fr)
        try:
            try:
                v = self.block(f.body) if getattr(f, 'expr', None) is None else self.ev_(f.expr)
            except Ret as r:
                v = r.v
            if returns:
                if v is None:
                    v = self.slots[fr.ret]
                    if v[0] == 'retslot':
                        raise Fault('did not return a value')
            elif v is not None:
                raise Fault('should not return a value')
            # What refers to an argument that is a temporary value gets a copy.
            if any(p.lt and self.slots[base + i] is not None and self.slots[base + i][0] != 'ref' for i, p in enumerate(f.params)):
                for i, p in enumerate(f.params):
                    a = self.slots[base + i]
                    if p.mut and a[0] == 'ref' and self.refs_from(self.at(a[1]), base):
                        self.slots[a[1]] = self.deep(self.at(a[1]))
                if v is not None and self.refs_from(v, base):
                    v = self.deep(v)
            # A reference to a variable of this call dangles from here on.
            self.kill(base)
            return v
        finally:
            self.frames.pop()
            del self.currents[cu:]

    # -- blocks
    def block(self, stmts):
        fr = self.frames[-1]
        n = len(fr.env)
        base = len(self.slots)
        cu = len(self.currents)
        v = None
        try:
            for s in stmts:
                v = self.ev_(s)
        finally:
            del fr.env[n:]
            del self.currents[cu:]
            self.kill(base)
        return v

    def need(self, e):
        v = self.ev_(e)
        if v is None:
            raise Fault('Expected something')
        return v

    def lookup(self, name):
        fr = self.frames[-1]
        if name == 'return':
            return fr.ret
        for n, s in reversed(fr.env):
            if n == name:
                v = self.slots[s]
                if v[0] == 'ref':
                    self.at(v[1])
                    return v[1]
                return s
        raise Fault('Could not find')

    # -- items
    def propagate(self, v, key):
        """`?` on a resolved value: returns the inner value or leaves the function."""
        r = self.try_val(v)
        if r is None:
            raise Fault('Expected `ok(_)`')
        if r[0] == 'ok':
            return r[1]
        fr = self.frames[-1]
        if fr.ret is None:
            raise Fault('Requires `->`')
        self.count('propagated')
        raise Ret(('err', r[1], r[2] + (('@', fr.fn, key),)))

    def try_val(self, v):
        k = v[0]
        if k in ('ok', 'err'):
            return v
        if k == '?':
            if v[1] is None:
                return ('err', st('Expected `some(_)`, found `none()`'), ())
            return ('ok', v[1])
        if k == 'b':
            if not v[1]:
                return ('err', st('Must be `true` to have meaning, try add or remove `!`'), ())
            if v[2] is None:
                return ('err', st('This does not make sense, perhaps an array is empty?'), ())
            return ('ok', v)
        if k == 'n':
            if v[1] != v[1]:
                return ('err', st('Expected number, found `NaN`'), ())
            if v[2] is None:
                return ('err', st('This does not make sense, perhaps an array is empty?'), ())
            return ('ok', v)
        return None

    def ids(self, it):
        r = []
        for i in it[2]:
            if i[0] == '.':
                r.append(('.', st(i[1]), i[2]))
            else:
                v = self.get(self.need(i[1]))
                if v[0] == 'a':
                    # An array of indices: one step per index.
                    if not v[1]:
                        raise Fault('Array of indices')
                    for j, x in enumerate(v[1]):
                        x = self.get(x)
                        if x[0] != 'n':
                            raise Fault('Array of indices')
                        r.append(('[', x, i[2] if j + 1 == len(v[1]) else None))
                    self.count('index_arrays')
                else:
                    r.append(('[', v, i[2]))
        return r

    def step(self, c, key, insert):
        if c[0] == 'o':
            if key[0] != 's':
                raise Fault('Expected string')
            if key[1] not in c[1]:
                if insert:
                    return None
                raise Fault('Object has no key `%s`' % key[1])
            return c[1][key[1]]
        if c[0] == 'a':
            if key[0] != 'n':
                raise Fault('Expected number')
            i = self.idx(key[1])
            if i >= len(c[1]):
                raise Fault('Out of bounds')
            return c[1][i]
        raise Fault('Look up requires object or array')

    def idx(self, x):
        if x != x or x < 0:
            return 0
        return int(min(x, 2 ** 63))

    def read(self, it, key=None):
        s = self.lookup(it[1])
        if len(it) > 3 and it[3]:
            v = self.propagate(self.at(s), it[3])
            if not it[2]:
                return v
            cur = v
        else:
            if not it[2]:
                return ('ref', s)
            cur = self.at(s)
        ids = self.ids(it)
        for j, (k, key, t) in enumerate(ids):
            e = self.step(cur, key, False)
            last = j + 1 == len(ids)
            if t:
                e = self.propagate(self.get(e), t)
            if last:
                return e
            cur = self.get(e)
        return cur

    def write(self, it, f, insert):
        """Replaces the place named by `it` with f(old)."""
        s = self.lookup(it[1])
        if not it[2]:
            self.slots[s] = f(self.slots[s])
            return
        ids = self.ids(it)
        self._write(s, (), ids, f, insert)

    def _write(self, slot, path, ids, f, insert):
        # Walk down, remembering the path inside the current slot.
        cur = self.at(slot)
        path = []
        for j, (k, key, t) in enumerate(ids):
            e = self.step(cur, key, insert and j + 1 == len(ids))
            path.append(key)
            if t:
                raise AssertionError('try in target')
            if j + 1 == len(ids):
                old = e
                if old is not None and old[0] == 'ref' and not insert:
                    old = self.at(old[1])
                self.slots[slot] = self._put(self.slots[slot], path, f(old))
                return
            if e[0] == 'ref':
                slot, path = e[1], []
                cur = self.at(slot)
            else:
                cur = e

    def _put(self, c, path, v):
        if not path:
            return v
        key = path[0]
        if c[0] == 'o':
            d = dict(c[1])
            d[key[1]] = self._put(d.get(key[1]), path[1:], v)
            return ('o', d)
        i = self.idx(key[1])
        xs = list(c[1])
        xs[i] = self._put(xs[i], path[1:], v)
        return ('a', tuple(xs))

    def assign(self, op, b):
        def f(old):
            k = old[0] if old is not None else None
            if op == '=':
                if k == 'retslot':
                    return b
                same = k == b[0] or (k in ('ok', 'err') and b[0] in ('ok', 'err'))
                if not same:
                    raise Fault('Expected assigning')
                return b
            o = op[0]
            if k == 'n' and b[0] == 'n':
                return ('n', arith(o, old[1], b[1]), b[2])
            if k == 'v' and b[0] == 'n':
                y = f32(b[1])
                return ('v', tuple(f32(arith(o, x, y)) for x in old[1]))
            if k == 'v' and b[0] == 'v':
                return ('v', tuple(f32(arith(o, x, y)) for x, y in zip(old[1], b[1])))
            if k == 's' and b[0] == 's' and o == '+':
                return ('s', old[1] + b[1])
            if k == 'l' and o == '+' and b[0] in 'nbs':
                return ('l', old[1] + (b[:2] + (None,) if b[0] in 'nb' else b,))
            if k == 'l' and o == '+' and b[0] == 'l':
                return ('l', old[1] + b[1])
            if k == 'l' and o == '-' and b[0] == 'l':
                return ('l', b[1] + old[1])
            raise Fault()
        return f

    # -- expressions
    def ev_(self, x):
        self.tick()
        return getattr(self, 'x_' + self.NAMES.get(x[0], x[0]))(x)

    NAMES = {'?': 'prop', 'try': 'tryx', 'if': 'if_', 'for': 'for_', 'and': 'and_', 'or': 'or_', 'not': 'not_',
             'break': 'brk', 'cont': 'cnt'}

    def x_num(self, x):
        return ('n', float(x[1]), None)

    def x_bool(self, x):
        return ('b', x[1], None)

    def x_str(self, x):
        return ('s', x[1])

    def x_const(self, x):
        return x[1]

    def x_at(self, x):
        return self.ev_(x[2])

    def x_item(self, x):
        return self.read(x)

    def x_arr(self, x):
        return ('a', tuple(self.need(y) for y in x[1]))

    def x_fill(self, x):
        v = self.need(x[1])
        n = self.get(self.need(x[2]))
        return ('a', (self.get(v),) * self.idx(n[1]))

    def x_obj(self, x):
        d = {}
        for k, y in x[1]:
            d[k] = self.need(y)
        return ('o', d)

    def x_vec(self, x):
        r = []
        for y in x[1]:
            if y[0] == 'swz':
                v = self.get(self.need(y[2]))
                if v[0] != 'v':
                    raise Fault('Expected `vec4`')
                r.extend(v[1]['xyzw'.index(c)] for c in y[1])
            else:
                v = self.get(self.need(y))
                r.append(v)
        out = []
        for q in r[:4]:
            if isinstance(q, tuple):
                if q[0] != 'n':
                    raise Fault('Expected `number`')
                q = q[1]
            out.append(f32(q))
        while len(out) < 4:
            out.append(0.0)
        return ('v', tuple(out))

    def x_mat(self, x):
        rows = [[self.get(self.need(c))[1] for c in r] for r in x[1]]
        rows = [[f32(c) for c in r] for r in rows]
        return ('m', tuple(rows[r][c] for c in range(4) for r in range(4)))

    def x_link(self, x):
        r = []
        for y in x[1]:
            v = self.ev_(y)
            if v is None:
                continue
            self.link_push(r, self.get(v))
        return ('l', tuple(r))

    def link_push(self, r, v):
        if v[0] in 'nb':
            r.append((v[0], v[1], None))
        elif v[0] == 's':
            r.append(v)
        elif v[0] == 'l':
            r.extend(v[1])
        else:
            raise Fault()

    def x_bin(self, x):
        a = self.need(x[2])
        b = self.need(x[3])
        a, b = self.get(a), self.get(b)
        if x[1] == '*.':
            if a[0] == 'v' and b[0] == 'v':
                s = 0.0
                for p, q in zip(a[1], b[1]):
                    s = f32(s + f32(p * q))
                return ('n', s, None)
            raise Fault()
        return binop(x[1], a, b)

    def x_cmp(self, x):
        a = self.need(x[2])
        b = self.need(x[3])
        return compare(x[1], self.get(a), self.get(b))

    def x_and_(self, x):
        a = self.need(x[1])
        v = self.get(a)
        if v[0] == 'b' and not v[1]:
            self.count('short')
            return v
        b = self.get(self.need(x[2]))
        v = self.get(a)
        if v[0] != 'b' or b[0] != 'b':
            raise Fault()
        return ('b', v[1] and b[1], v[2])

    def x_or_(self, x):
        a = self.need(x[1])
        v = self.get(a)
        if v[0] == 'b' and v[1]:
            self.count('short')
            return v
        b = self.get(self.need(x[2]))
        v = self.get(a)
        if v[0] != 'b' or b[0] != 'b':
            raise Fault()
        return ('b', v[1] or b[1], v[2])

    def x_not_(self, x):
        v = self.get(self.need(x[1]))
        if v[0] != 'b':
            raise Fault()
        return ('b', not v[1], v[2])

    def x_neg(self, x):
        v = self.get(self.need(x[1]))
        if v[0] == 'n':
            return ('n', -v[1], v[2])
        if v[0] == 'v':
            return ('v', tuple(-q for q in v[1]))
        raise Fault()

    def x_if_(self, x):
        for c, b in x[1]:
            v = self.get(self.need(c))
            if v[0] != 'b':
                raise Fault('Expected bool')
            if v[1]:
                return self.block(b)
        if x[2] is not None:
            return self.block(x[2])
        return None

    def x_block(self, x):
        return self.block(x[1])

    def x_decl(self, x):
        it = x[1]
        v = self.get(self.need(x[2]))
        if it[2]:
            self.write(it, lambda old: v, True)
            return None
        s = self.new(v)
        self.frames[-1].env.append((it[1], s))
        if it[0] == 'curdecl':
            self.currents.append((it[1], s))
        return None

    def x_set(self, x):
        b = self.need(x[3])
        # The right side is read when the left place has been found.
        it = x[2]
        self.write(it, lambda old: self.assign(x[1], self.get(b))(old), False)
        return None

    def x_ret(self, x):
        raise Ret(self.need(x[1]))

    def x_retv(self, x):
        raise Ret(None)

    def x_brk(self, x):
        raise Brk(x[1])

    def x_cnt(self, x):
        raise Cnt(x[1])

    # loops -------------------------------------------------------------
    def x_loop(self, x):
        while True:
            self.tick()
            try:
                self.block(x[2])
            except Brk as b:
                if b.l is None or b.l == x[1]:
                    return None
                raise
            except Cnt as c:
                if c.l is None or c.l == x[1]:
                    continue
                raise

    def x_for_(self, x):
        fr = self.frames[-1]
        n, cu, base = len(fr.env), len(self.currents), len(self.slots)
        try:
            self.ev_(x[2])
            while True:
                self.tick()
                v = self.get(self.need(x[3]))
                if v[0] != 'b':
                    raise Fault('Expected bool')
                if not v[1]:
                    return None
                try:
                    self.block(x[5])
                except Brk as b:
                    if b.l is None or b.l == x[1]:
                        return None
                    raise
                except Cnt as c:
                    if not (c.l is None or c.l == x[1]):
                        raise
                self.ev_(x[4])
        finally:
            del fr.env[n:]
            del self.currents[cu:]
            self.kill(base)

    def x_vecn(self, x):
        fr = self.frames[-1]
        r = []
        n, base = len(fr.env), len(self.slots)
        try:
            for i in range(x[1]):
                s = self.new(num(i))
                fr.env.append((x[2], s))
                v = self.get(self.need(x[3]))
                if v[0] != 'n':
                    raise Fault('Expected `number`')
                r.append(f32(v[1]))
                del fr.env[n:]
        finally:
            del fr.env[n:]
            self.kill(base)
        while len(r) < 4:
            r.append(0.0)
        return ('v', tuple(r))

    def x_infer(self, x):
        """An omitted range: the length of the array the counter indexes."""
        v = self.get(self.need(x[1]))
        if v[0] != 'a':
            raise Fault('Expected array')
        return num(len(v[1]))

    def x_forn(self, x):
        kind, label, vars, body = x[1:5]
        return self.forn(kind, label, vars, body, label)

    def forn(self, kind, label, vars, body, _, acc=None):
        name, a, b = vars[0]
        rest = vars[1:]
        fr = self.frames[-1]
        start = 0.0
        if a is not None:
            v = self.get(self.need(a))
            if v[0] != 'n':
                raise Fault('Expected `number`')
            start = v[1]
        v = self.get(self.need(b))
        if v[0] != 'n':
            raise Fault('Expected `number`')
        end = v[1]
        n, base = len(fr.env), len(self.slots)
        slot = self.new(num(start))
        fr.env.append((name, slot))
        # What a packed link loop has put in stays when a jump leaves it.
        acc = acc or Acc(kind, self)
        self.count('loop_' + kind)
        try:
            while True:
                self.tick()
                c = self.slots[slot]
                if c[0] != 'n':
                    raise Fault('Expected `number`')
                i = c[1]
                if not i < end:
                    break
                try:
                    if rest:
                        # Packed loops nest; the label belongs to the outermost.
                        v = self.forn(kind, None, rest, body, label, acc if kind == 'link' else None)
                    elif kind == 'link':
                        v = self.x_link(('link', body))
                    else:
                        v = self.block(body)
                    if kind == 'for' or kind == 'link' and rest:
                        pass
                    elif v is None:
                        raise Fault('Expected')
                    elif acc.add(i, v, bool(rest)):
                        break
                except Brk as e:
                    self.count('break')
                    if e.l is None or e.l == label:
                        break
                    raise
                except Cnt as e:
                    self.count('continue')
                    if not (e.l is None or e.l == label):
                        raise
                c = self.slots[slot]
                self.slots[slot] = ('n', c[1] + 1, None)
        finally:
            del fr.env[n:]
            self.kill(base)
        return acc.result()

    # threads and receivers -----------------------------------------------
    def x_in(self, x):
        q = []
        self.recv.setdefault(x[1], []).append(q)
        self.count('receivers')
        return ('in', Box(q))

    def x_forin(self, x):
        kind, label, name, it, body = x[1:6]
        q = self.get(self.need(it))
        if q[0] != 'in':
            raise Fault('Expected `in`')
        q = q[1].v
        fr = self.frames[-1]
        n, base = len(fr.env), len(self.slots)
        acc = Acc(kind, self)
        self.count('loop_in_' + kind)
        slot = None
        try:
            while q:
                self.tick()
                m = q.pop(0)
                if slot is None:
                    slot = self.new(m)
                    fr.env.append((name, slot))
                else:
                    self.slots[slot] = m
                try:
                    v = self.x_link(('link', body)) if kind == 'link' else self.block(body)
                    if kind == 'for':
                        pass
                    elif v is None:
                        raise Fault('Expected')
                    elif acc.add(m, v, False):
                        break
                except Brk as e:
                    self.count('break')
                    if e.l is None or e.l == label:
                        break
                    raise
                except Cnt as e:
                    self.count('continue')
                    if not (e.l is None or e.l == label):
                        raise
        finally:
            del fr.env[n:]
            self.kill(base)
        return acc.result()

    def f_next(self, a):
        q = self.get(a[0])
        if q[0] != 'in':
            raise Fault()
        return ('?', q[1].v.pop(0) if q[1].v else None)

    def f_wait_next(self, a):
        q = self.get(a[0])
        if q[0] != 'in':
            raise Fault()
        if not q[1].v:
            raise Fuel()
        return ('?', q[1].v.pop(0))

    def x_go(self, x):
        f = self.byname[x[1]]
        vals = [self.deep(self.read(a[1]) if a[0] == 'mut' else self.need(a)) for a in x[2]]
        self.count('go')
        base = len(self.slots)
        refs = [('ref', self.new(v)) for v in vals]
        saved, self.currents, frames = self.currents, [], self.frames
        self.frames = list(frames[-1:])
        try:
            r = ('ok', self.deep(self.invoke(f, refs)))
        except Fault as e:
            r = ('err', ('wild', e.msg) + tuple(e.trace), ())
        finally:
            self.frames, self.currents = frames, saved
        self.kill(base)
        return ('thr', Box(r))

    def thr_refs(self, v, t):
        k = v[0] if v else None
        if k == 'thr':
            return 1 if v[1] is t else 0
        if k in ('a', ):
            return sum(self.thr_refs(y, t) for y in v[1])
        if k == 'o':
            return sum(self.thr_refs(y, t) for y in v[1].values())
        if k in ('?', 'ok'):
            return self.thr_refs(v[1], t)
        return 0

    def f_nap(self, a):
        return None

    f_gate_inc = f_gate_wait = f_nap

    def f_join(self, a):
        bad = lambda m: ('err', ('wild', m), ())
        v = a[0]
        if v[0] == 'ref':
            s = v[1]
            v = self.at(s)
            if v[0] == 'thr':
                self.slots[s] = ('thr', None)
        if v[0] != 'thr':
            return bad('')
        if v[1] is None:
            return bad('')
        if any(self.thr_refs(y, v[1]) for y, z in zip(self.slots, self.alive) if z and y is not None):
            return bad('')
        self.count('joined')
        return v[1].v

    # functions -----------------------------------------------------------
    def x_call(self, x):
        name, args = x[1], x[2]
        if name in self.byname:
            f = self.byname[name]
            vals = []
            for p, a in zip(f.params, args):
                v = self.read(a[1]) if a[0] == 'mut' else self.need(a)
                if p.lazy:
                    g = self.get(v)
                    for l in p.lazy:
                        if l[0] == 'lit':
                            lv = self.ev_(l[1])
                            if lv[0] == g[0] and equal(lv, g) is True:
                                self.count('lazy')
                                return g
                        elif l[0] == 'ok' and g[0] == 'ok':
                            self.count('lazy')
                            return g[1]
                        elif l[0] == 'some' and g[0] == '?' and g[1] is not None:
                            self.count('lazy')
                            return g[1]
                        elif l[0] == 'err' and g[0] == 'err':
                            self.count('lazy')
                            return g[1]
                vals.append(v)
            self.count('calls')
            return self.invoke(f, vals)
        if name == 'unwrap_or':
            a = self.need(args[0])
            g = self.get(a)
            if g[0] == 'ok' or (g[0] == '?' and g[1] is not None):
                self.count('short')
                return g[1]
            if g[0] == 'err' or g[0] == '?':
                return self.deep(self.need(args[1]))
            raise Fault()
        vals = [self.read(a[1]) if a[0] == 'mut' else self.need(a) for a in args]
        if name in self.ext:
            return self.ext[name](self, vals)
        return getattr(self, 'f_' + name)(vals)

    def x_cloc(self, x):
        c = self.get(self.read(x[1]))
        if c[0] != 'clo':
            raise Fault('Expected `closure`')
        c = c[1]
        vals = [self.need(a) for a in x[2]]
        if len(vals) != len(c.params):
            raise Fault()
        f = Fn(x[1][1], [Param(n) for n, _ in c.params], None, True, None, c.currents, c.body)
        self.count('closure_calls')
        return self.invoke(f, vals)

    def x_clo(self, x):
        body = self.grab(x[3], 1)
        self.count('closures')
        return ('clo', Closure(x[1], x[2], body))

    def grab(self, e, lvl):
        """Replaces the grabs of this level by constants."""
        if isinstance(e, tuple):
            if e and e[0] == 'grab':
                if e[1] == lvl:
                    v = self.need(e[2])
                    self.count('grabs')
                    return ('const', self.deep(v))
                return e
            if e and e[0] == 'clo':
                return ('clo', e[1], e[2], self.grab(e[3], lvl + 1))
            return tuple(self.grab(q, lvl) for q in e)
        if isinstance(e, list):
            return [self.grab(q, lvl) for q in e]
        return e

    def x_prop(self, x):
        v = self.get(self.need(x[1]))
        return self.propagate(v, x[2] if len(x) > 2 else None)

    def x_tryx(self, x):
        fr = self.frames[-1]
        n, cu, base, nf = len(fr.env), len(self.currents), len(self.slots), len(self.frames)
        try:
            v = self.need(x[1])
        except Fault as f:
            self.count('caught')
            del self.frames[nf:]
            del fr.env[n:]
            del self.currents[cu:]
            self.kill(base)
            return ('err', ('wild', f.msg) + tuple(f.trace), ())
        return ('ok', self.deep(v))

    # library ---------------------------------------------------------------
    def f_emit(self, a):
        self.ev('e', self.snap(a[0]))

    def f_emit_id(self, a):
        self.ev('E', self.get(a[0]), self.snap(a[1]))

    def f_probe(self, a):
        fr = self.frames[-1]
        self.ev('p', self.get(a[0]), fr.uid, len(fr.env), len(self.currents))

    def trace(self, a):
        self.ev('t', self.get(a[0]), self.snap(a[1]))
        return self.get(a[1])

    f_tn = f_tb = f_ts = f_tv = f_ta = trace

    def f_blur(self, a):
        return self.deep(a[0])

    def f_clone(self, a):
        return self.deep(a[0])

    def f_fail(self, a):
        raise Fault(self.get(a[0])[1])

    f_fail_ret = f_fail

    def f_typeof(self, a):
        k = self.get(a[0])[0]
        n = {'n': 'number', 'b': 'boolean', 's': 'string', 'v': 'vec4', 'm': 'mat4', 'a': 'array', 'o': 'object', 'l': 'link', '?': 'option',
             'ok': 'result', 'err': 'result', 'clo': 'closure', 'thr': 'thread', 'in': 'in'}.get(k)
        return st(n) if n else ('wild', '')

    def f_len(self, a):
        v = self.get(a[0])
        if v[0] != 'a':
            raise Fault('Expected array')
        return num(len(v[1]))

    def arr(self, a):
        if a[0] != 'ref' or self.at(a[1])[0] != 'a':
            raise Fault('Expected reference to array')
        return list(self.at(a[1])[1])

    def f_push(self, a):
        x = self.deep(a[1])
        xs = self.arr(a[0])
        self.slots[a[0][1]] = ('a', tuple(xs + [x]))

    def f_push_ref(self, a):
        xs = self.arr(a[0])
        self.slots[a[0][1]] = ('a', tuple(xs + [a[1]]))

    def f_insert(self, a, deep=True):
        x = self.deep(a[2]) if deep else a[2]
        i = self.idx(self.get(a[1])[1])
        xs = self.arr(a[0])
        if i > len(xs):
            raise Fault('Index out of bounds')
        xs.insert(i, x)
        self.slots[a[0][1]] = ('a', tuple(xs))

    def f_insert_ref(self, a):
        self.f_insert(a, False)

    def f_pop(self, a):
        xs = self.arr(a[0])
        if not xs:
            raise Fault('Expected non-empty array')
        v = xs.pop()
        self.slots[a[0][1]] = ('a', tuple(xs))
        return v

    def f_remove(self, a):
        i = self.idx(self.get(a[1])[1])
        xs = self.arr(a[0])
        if i >= len(xs):
            raise Fault('Index out of bounds')
        v = xs.pop(i)
        self.slots[a[0][1]] = ('a', tuple(xs))
        return v

    def f_reverse(self, a):
        self.slots[a[0][1]] = ('a', tuple(reversed(self.arr(a[0]))))

    def f_clear(self, a):
        self.arr(a[0])
        self.slots[a[0][1]] = ('a', ())

    def f_swap(self, a):
        xs = self.arr(a[0])
        i, j = self.idx(self.get(a[1])[1]), self.idx(self.get(a[2])[1])
        if i >= len(xs) or j >= len(xs):
            raise Fault()
        xs[i], xs[j] = xs[j], xs[i]
        self.slots[a[0][1]] = ('a', tuple(xs))

    def f_some(self, a):
        return ('?', self.deep(a[0]))

    def f_none(self, a):
        return ('?', None)

    def f_ok(self, a):
        return ('ok', self.deep(a[0]))

    def f_err(self, a):
        return ('err', self.deep(a[0]), ())

    def f_is_err(self, a):
        v = self.get(a[0])
        if v[0] not in ('ok', 'err'):
            raise Fault()
        return boolean(v[0] == 'err')

    def f_is_ok(self, a):
        v = self.get(a[0])
        if v[0] not in ('ok', 'err'):
            raise Fault()
        return boolean(v[0] == 'ok')

    def f_unwrap(self, a):
        v = self.get(a[0])
        if v[0] == 'ok' or (v[0] == '?' and v[1] is not None):
            return v[1]
        if v[0] == 'err':
            m = v[1]
            raise Fault(m[1] if m[0] in ('s', 'wild') else '', v[2])
        if v[0] == '?':
            raise Fault()
        raise Fault()

    def f_unwrap_err(self, a):
        v = self.get(a[0])
        if v[0] != 'err':
            raise Fault()
        return v[1]

    def f_why(self, a):
        v = self.get(a[0])
        if v[0] != 'b' or not v[1] or v[2] is None:
            raise Fault('Must be `true`' if v[0] == 'b' and not v[1] else 'does not make sense')
        return ('a', tuple(reversed(v[2])))

    def f_where(self, a):
        v = self.get(a[0])
        if v[0] != 'n' or v[2] is None:
            raise Fault('does not make sense')
        if v[1] != v[1]:
            raise Fault('found `NaN`')
        return ('a', tuple(reversed(v[2])))

    def f_explain_why(self, a):
        v = self.get(a[0])
        return ('b', v[1], (v[2] or ()) + (self.deep(a[1]),))

    def f_explain_where(self, a):
        v = self.get(a[0])
        return ('n', v[1], (v[2] or ()) + (self.deep(a[1]),))

    def f_floor(self, a):
        v = self.get(a[0])[1]
        if v != v or abs(v) == math.inf:
            return num(v)
        r = float(math.floor(v))
        return num(math.copysign(r, v) if r == 0 else r)

    def f_str(self, a):
        if self.get(a[0])[0] == 'clo':
            return ('wild', '')
        return st(to_text(self.snap(a[0])))

    def f_head(self, a):
        l = self.get(a[0])[1]
        return ('?', l[0] if l else None)

    def f_tip(self, a):
        l = self.get(a[0])[1]
        return ('?', l[-1] if l else None)

    def f_tail(self, a):
        return ('l', self.get(a[0])[1][1:])

    def f_neck(self, a):
        return ('l', self.get(a[0])[1][:-1])

    def f_is_empty(self, a):
        return boolean(not self.get(a[0])[1])

    def f_x(self, a):
        return num(self.get(a[0])[1][0])

    def f_y(self, a):
        return num(self.get(a[0])[1][1])

    def f_z(self, a):
        return num(self.get(a[0])[1][2])

    def f_w(self, a):
        return num(self.get(a[0])[1][3])

    def f_cur_num(self, a):
        name = self.get(a[0])[1]
        for n, s in reversed(self.currents):
            if n == name:
                v = self.get(self.slots[s])
                if v[0] != 'n':
                    raise Fault()
                return num(v[1])
        raise Fault('Could not find current variable')


class Acc:
    """The fold a loop form computes."""

    def __init__(self, kind, it):
        self.k, self.it = kind, it
        self.v = {'sum': 0.0, 'prod': 1.0, 'min': NAN, 'max': NAN, 'any': False, 'all': True,
                  'sift': [], 'link': [], 'for': None, 'sum_vec4': (0.0,) * 4, 'prod_vec4': (1.0,) * 4,
                  '∑': 0.0, '∏': 1.0, '∃': False, '∀': True, '∑vec4': (0.0,) * 4,
                  '∏vec4': (1.0,) * 4}[kind]
        self.k = {'∑': 'sum', '∏': 'prod', '∃': 'any', '∀': 'all', '∑vec4': 'sum_vec4', '∏vec4': 'prod_vec4'}.get(kind, kind)
        self.sec = None

    def add(self, i, v, packed):
        """Returns true when the loop ends early."""
        k = self.k
        if k == 'sift':
            self.v.append(v)
            return False
        g = self.it.get(v)
        if k in ('sum', 'prod', 'min', 'max'):
            if g[0] != 'n':
                raise Fault('Expected `number`')
            x = g[1]
            if k == 'sum':
                self.v += x
            elif k == 'prod':
                self.v *= x
            elif self.v != self.v or (x < self.v if k == 'min' else x > self.v):
                self.v = x
                self.sec = (g[2] or ()) + (i if isinstance(i, tuple) else num(i),)
        elif k in ('any', 'all'):
            if g[0] != 'b':
                raise Fault('Expected `boolean`')
            if g[1] == (k == 'any'):
                self.v = g[1]
                self.sec = (g[2] or ()) + (i if isinstance(i, tuple) else num(i),)
                return True
        elif k in ('sum_vec4', 'prod_vec4'):
            if g[0] != 'v':
                raise Fault('Expected `vec4`')
            f = (lambda p, q: p + q) if k == 'sum_vec4' else (lambda p, q: p * q)
            self.v = tuple(f32(f(p, q)) for p, q in zip(self.v, g[1]))
        elif k == 'link':
            self.it.link_push(self.v, g)
        return False

    def result(self):
        k = self.k
        if k == 'for':
            return None
        if k in ('sum', 'prod'):
            return num(self.v)
        if k in ('min', 'max'):
            return ('n', self.v, self.sec)
        if k in ('any', 'all'):
            return ('b', self.v, self.sec)
        if k == 'sift':
            return ('a', tuple(self.v))
        if k == 'link':
            return ('l', tuple(self.v))
        return ('v', self.v)


def num_text(x):
    """Rust's Display of f64 / f32 given as shortest repr."""
    if x != x:
        return 'NaN'
    if abs(x) == math.inf:
        return 'inf' if x > 0 else '-inf'
    from decimal import Decimal
    s = format(Decimal(repr(x)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    if s == '-0' or s == '0':
        return '-0' if math.copysign(1, x) < 0 else '0'
    return s


def to_text(v):
    k = v[0]
    if k == 'n':
        return num_text(v[1])
    if k == 'b':
        return 'true' if v[1] else 'false'
    if k == 's':
        return v[1]
    raise Fault()
