"""C24: library functions on collections and strings."""
import copy
import json
import re
from decimal import Decimal
from wire import enc, show, num, st, boolean, same, f32

PLAN = {'quick': (6000, 300, 300), 'thorough': (300000, 6000, 2400)}
RULE = ('Random histories of library calls on several arrays, objects and strings of one function: pushes, inserts, pops, removals, swaps, reversals, clears, item and field assignment, copies, '
        'lengths, keys, membership, minimum, maximum, characters, trimming, joining, comparing, parsing and formatting; indices, items and strings also come from the host, out of range, negative, '
        'not a number, with all kinds of white space and non-ASCII text. Every result and the collections after each step are logged and compared with Python lists, maps and strings; '
        'failing steps are run under `try` and must leave the collections as they were. Non-trivial: a history of 4 or more steps that changes a collection; distinct by program and inputs.')
TECHNIQUE = 'model-based runtime monitor: the log of every step of a history on the real library is compared with Python lists, maps and strings'
NOTE = 'The order of keys is unspecified and compared as a set. An index between two integers may select either neighbour and is not generated.'

STRS = ['', 'a', 'Z', 'abc', ' a b ', '\t x\n', '\u00a0y\u00a0', '\u3000z \u2003', 'é€𝕏', 'e\u0301', 'ß', '\r\n', '  ', '"q"', '\\', 'b\\n', '𝕏𝕏', 'ab', 'aB', '\u2028k\u0085', '\ufeffn', '\u200bm', 'x\0y']
NUMT = ['1', '-1', '+5', ' 12.5 ', '.5', '5.', '1e3', '1E-2', 'e5', '.', '', 'inf', '-Infinity', 'NaN', '0x10', '1_000', '1 2', '\u00a07\u00a0', '٣', '--1', '1e', '1e+', '00012', '-0', '1e400', '4.9e-324', '+', '1e5.5', 'nanx']
NUM = re.compile(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)\Z', re.I | re.A)
KEYS = ['k', 'kk', 'v1', 'name']
OKEYS = KEYS + ['', 'with space', 'é', '"', 'K']


class Fail(Exception):
    pass


def wire(x):
    if isinstance(x, bool):
        return boolean(x)
    if isinstance(x, (int, float)):
        return num(float(x))
    if isinstance(x, str):
        return st(x)
    if isinstance(x, list):
        return ('a', tuple(wire(y) for y in x))
    if isinstance(x, dict):
        return ('o', {k: wire(v) for k, v in x.items()})
    if isinstance(x, tuple):
        return ('?', wire(x[0]) if x else None)
    raise TypeError(x)


def text_of(x):
    """The text of a number, boolean or string."""
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, float):
        if x != x:
            return 'NaN'
        if x in (float('inf'), -float('inf')):
            return 'inf' if x > 0 else '-inf'
        t = format(Decimal(repr(x)), 'f')
        if '.' in t:
            t = t.rstrip('0').rstrip('.')
        return t
    return x


def parse(s):
    t = s.strip()
    return (float(t),) if NUM.match(t) else ()


def color(v):
    z = [int(f32(min(max(f32(x), 0.0), 1.0) * f32(255.0))) for x in v]
    return '#' + ''.join('%02x' % x for x in z[:3 if z[3] == 255 else 4])


class Hist:
    def __init__(self, r):
        self.r = r
        self.lines = []
        self.exp = []           # (expected, how)
        self.args = []          # host values
        self.arr = {}
        self.obj = {}
        self.str = {}
        self.tmp = 0
        self.changes = 0
        self.refs = set()       # arrays that may hold references

    # Expressions ---------------------------------------------------------
    def arg(self, v):
        self.args.append(wire(v))
        return 'p%d' % (len(self.args) - 1)

    def scalar(self):
        r = self.r
        z = r.random()
        if z < .35:
            n = r.randint(0, 9)
            return str(n), float(n)
        if z < .55:
            x = r.choice((float('nan'), float('inf'), -float('inf'), -0.0, 0.1, 1e300, 5e-324, -3.75, 123456789.125, 2.0 ** 60, 1e21, r.uniform(-10, 10)))
            return self.arg(x), x
        if z < .65:
            b = r.random() < .5
            return ('true' if b else 'false'), b
        return self.string()

    def string(self):
        r = self.r
        if self.str and r.random() < .4:
            k = r.choice(sorted(self.str))
            return k, self.str[k]
        if r.random() < .3:
            s = r.choice(('a', 'bc', 'x y', ''))
            return '"%s"' % s, s
        s = r.choice(STRS)
        return self.arg(s), s

    def const(self, d=2):
        """A literal without variables."""
        r = self.r
        z = r.random()
        if d and z < .25:
            xs = [self.const(d - 1) for _ in range(r.randint(0, 3))]
            return '[%s]' % ', '.join(t for t, _ in xs), [v for _, v in xs]
        if d and z < .4:
            ks = r.sample(KEYS, r.randint(0, 3))
            xs = [self.const(d - 1) for _ in ks]
            return '{%s}' % ', '.join('%s: %s' % (k, t) for k, (t, _) in zip(ks, xs)), {k: v for k, (_, v) in zip(ks, xs)}
        if z < .7:
            n = r.randint(0, 99)
            return str(n), float(n)
        if z < .85:
            s = r.choice(('a', 'bc', 'x y', ''))
            return '"%s"' % s, s
        return ('true', True) if r.random() < .5 else ('false', False)

    def value(self):
        """Something to store (stored by copy): (text, value)."""
        r = self.r
        z = r.random()
        if z < .35:
            t, v = self.scalar()
            return ('clone(%s)' % t if t in self.str else t), v
        if z < .7:
            return self.const()
        if z < .85:
            k = r.choice(sorted(self.arr))
            return 'clone(%s)' % k, copy.deepcopy(self.arr[k])
        if self.obj:
            k = r.choice(sorted(self.obj))
            return 'clone(%s)' % k, copy.deepcopy(self.obj[k])
        return self.const()

    def index(self, n, bad=True):
        """An index that is mostly in range of n items."""
        r = self.r
        z = r.random()
        if n and z < (.8 if bad else 1.1):
            i = float(r.choice((0, n - 1, r.randrange(n))))
        else:
            i = float(r.choice((n, n + 1, n + 100, -1, -2, -100, float('nan'), float('inf'), -float('inf'), 1e300, 2.0 ** 64, -1e300)))
        if i >= 0 and i < 1000 and r.random() < .5:
            return str(int(i)), i
        return self.arg(i), i

    def at(self, i, n):
        if not (i == i and 0 <= i < n):
            raise Fail
        return int(i)

    # Statements ----------------------------------------------------------
    def emit(self, t, v, how='='):
        self.lines.append('emit(%s)' % t)
        self.exp.append((wire(v), how))

    def name(self):
        self.tmp += 1
        return 't%d' % self.tmp

    def act(self, call, f, ret, watch):
        """A call that may fail; watch is the collection it may change."""
        try:
            v = f()
            self.changes += 1
        except Fail:
            x = self.name()
            self.lines.append('%s := try %s' % (x, call if ret else '{%s}' % call) if ret else '%s := try vv_%s' % (x, call))
            self.emit('is_err(%s)' % x, True)
            self.show(watch)
            return
        if ret:
            x = self.name()
            z = self.r.random()
            if z < .2:
                self.lines.append('%s := try %s' % (x, call))
                self.emit('unwrap(%s)' % x, v)
            elif z < .6:
                self.lines.append('%s := %s' % (x, call))
                self.emit(x, v)
            else:
                self.emit(call, v)
        else:
            self.lines.append(call)
        if self.r.random() < .7:
            self.show(watch)

    def show(self, k):
        v = self.arr[k] if k in self.arr else self.obj[k] if k in self.obj else self.str[k]
        self.emit(k, v)

    def step(self):
        r = self.r
        k = r.choice(('array',) * 6 + ('object',) * 3 + ('string',) * 3 + ('new',))
        getattr(self, k)()

    def new(self):
        r = self.r
        n = '%s%d' % (r.choice('abc'), len(self.arr) + len(self.obj) + len(self.str))
        z = r.random()
        if z < .4 or not self.arr:
            t, v = self.const()
            while not isinstance(v, list):
                t, v = self.const()
            self.arr[n] = v
        elif z < .6:
            k = r.choice(sorted(self.arr))
            t = r.choice((k, 'clone(%s)' % k))
            if t == k and k in self.refs:
                self.refs.add(n)
            self.arr[n] = copy.deepcopy(self.arr[k])
        elif z < .8:
            if self.obj and r.random() < .5:
                k = r.choice(sorted(self.obj))
                t = r.choice((k, 'clone(%s)' % k))
                self.obj[n] = copy.deepcopy(self.obj[k])
            else:
                t, v = self.const()
                while not isinstance(v, dict):
                    t, v = self.const()
                self.obj[n] = v
        else:
            t, v = self.string()
            self.str[n] = v
        self.lines.append('%s := %s' % (n, t))

    def array(self):
        r = self.r
        k = r.choice(sorted(self.arr))
        a = self.arr[k]
        n = len(a)
        op = r.choice(('push', 'push', 'push_ref', 'insert', 'insert', 'insert_ref', 'pop', 'pop', 'remove', 'remove', 'swap', 'swap', 'reverse', 'clear', 'len', 'set', 'put', 'get', 'get', 'minmax', 'equal', 'nested', 'show'))
        if op in ('set', 'put', 'nested') and k in self.refs:
            return      # would write to what the reference points to
        if op == 'push':
            t, v = self.value()
            self.act('push(mut %s, %s)' % (k, t), lambda: a.append(v), False, k)
        elif op == 'push_ref':
            _, v = self.const()
            t = self.arg(v)
            self.refs.add(k)
            self.act('push_ref(mut %s, %s)' % (k, t), lambda: a.append(v), False, k)
        elif op in ('insert', 'insert_ref'):
            t, v = self.value() if op == 'insert' else self.const()
            if op == 'insert_ref':
                t = self.arg(v)
                self.refs.add(k)
            i, x = self.index(n + 1)
            self.act('%s(mut %s, %s, %s)' % (op, k, i, t), lambda: a.insert(self.at(x, n + 1), v), False, k)
        elif op == 'pop':
            def f():
                if not a:
                    raise Fail
                return a.pop()
            self.act('pop(mut %s)' % k, f, True, k)
        elif op == 'remove':
            i, x = self.index(n)
            self.act('remove(mut %s, %s)' % (k, i), lambda: a.pop(self.at(x, n)), True, k)
        elif op == 'swap':
            i, x = self.index(n)
            j, y = self.index(n)

            def f():
                p, q = self.at(x, n), self.at(y, n)
                a[p], a[q] = a[q], a[p]
            self.act('swap(mut %s, %s, %s)' % (k, i, j), f, False, k)
        elif op == 'reverse':
            self.act('reverse(mut %s)' % k, a.reverse, False, k)
        elif op == 'clear':
            if r.random() < .3:
                self.act('clear(mut %s)' % k, a.clear, False, k)
        elif op == 'len':
            self.emit('len(%s)' % k, float(n))
        elif op == 'set':
            t, v = self.value()
            i, x = self.index(n)
            if x == x and 0 <= x < n:
                if type(a[int(x)]) is not type(v):
                    return      # `=` keeps the type
                a[int(x)] = v
                self.changes += 1
                self.lines.append('%s[%s] = %s' % (k, i, t))
                self.show(k)
        elif op == 'put':
            t, v = self.value()
            i, x = self.index(n)
            if x == x and 0 <= x < n:
                a[int(x)] = v
                self.changes += 1
                self.lines.append('%s[%s] := %s' % (k, i, t))
                self.show(k)
        elif op == 'get':
            i, x = self.index(n)

            def f():
                return copy.deepcopy(a[self.at(x, n)])
            self.act('clone(%s[%s])' % (k, i), f, True, k)
        elif op == 'minmax':
            xs = [r.choice((float(r.randint(-9, 9)), float('nan'), float('inf'), 0.5, -float('inf'))) for _ in range(r.randint(0, 5))]
            ys = [x for x in xs if x == x]
            p = self.arg(xs)
            self.emit('min(%s)' % p, min(ys) if ys else float('nan'))
            self.emit('max(%s)' % p, max(ys) if ys else float('nan'))
        elif op == 'nested':
            js = [j for j, x in enumerate(a) if isinstance(x, (list, dict)) and x]
            if not js:
                return
            j = r.choice(js)
            t, v = self.const(1)
            if isinstance(a[j], list):
                m = r.randrange(len(a[j]))
                self.lines.append('%s[%d][%d] := %s' % (k, j, m, t))
            else:
                m = r.choice(sorted(a[j]))
                if m not in KEYS:
                    return
                self.lines.append('%s[%d].%s := %s' % (k, j, m, t))
            a[j][m] = v
            self.changes += 1
            self.show(k)
        elif op == 'show':
            self.show(k)

    def key(self):
        r = self.r
        if r.random() < .5:
            k = r.choice(KEYS)
            return '"%s"' % k, k
        k = r.choice(OKEYS)
        return self.arg(k), k

    def object(self):
        r = self.r
        if not self.obj:
            return self.new()
        k = r.choice(sorted(self.obj))
        o = self.obj[k]
        op = r.choice(('put', 'put', 'dot', 'set', 'has', 'has', 'keys', 'keys', 'get', 'get', 'nested', 'list', 'show'))
        if op == 'put':
            i, x = self.key()
            t, v = self.value()
            o[x] = v
            self.lines.append('%s[%s] := %s' % (k, i, t))
            self.changes += 1
            self.show(k)
        elif op == 'dot':
            x = r.choice(KEYS)
            t, v = self.value()
            o[x] = v
            self.lines.append('%s.%s := %s' % (k, x, t))
            self.changes += 1
            self.show(k)
        elif op == 'set':
            t, v = self.value()
            i, x = self.key()
            if x in o and type(o[x]) is type(v):
                o[x] = v
                self.lines.append('%s[%s] = %s' % (k, i, t))
                self.changes += 1
                self.show(k)
        elif op == 'has':
            i, x = self.key()
            self.emit('has(%s, %s)' % (k, i), x in o)
        elif op == 'keys':
            self.emit('keys(%s)' % k, sorted(o), 'set')
        elif op == 'get':
            i, x = self.key()

            def f():
                if x not in o:
                    raise Fail
                return copy.deepcopy(o[x])
            self.act('clone(%s[%s])' % (k, i), f, True, k)
        elif op == 'nested':
            js = [j for j in sorted(o) if j in KEYS and isinstance(o[j], list) and o[j]]
            if js:
                j = r.choice(js)
                m = r.randrange(len(o[j]))
                t, v = self.const(1)
                o[j][m] = v
                self.lines.append('%s.%s[%d] := %s' % (k, j, m, t))
                self.changes += 1
                self.show(k)
        elif op == 'list':
            # Take a list out of the object, change it and put it back.
            js = [j for j in sorted(o) if j in KEYS and isinstance(o[j], list)]
            if js:
                j = r.choice(js)
                n = self.name()
                self.lines.append('%s := %s.%s' % (n, k, j))
                t, v = self.const(1)
                self.lines.append('push(mut %s, %s)' % (n, t))
                self.show(k)
                self.emit(n, o[j] + [v])
                if r.random() < .5:
                    self.lines.append('%s.%s = clone(%s)' % (k, j, n))
                    o[j] = copy.deepcopy(o[j]) + [v]
                    self.show(k)
        elif op == 'show':
            self.show(k)

    def string_step(self):
        r = self.r
        t, s = self.string()
        op = r.choice(('chars', 'chars', 'trim', 'trim_left', 'trim_right', 'concat', 'append', 'str', 'str', 'parse', 'parse', 'typeof', 'json', 'color', 'compare', 'rejoin', 'fmt'))
        if op == 'chars':
            self.emit('chars(%s)' % t, list(s))
        elif op == 'trim':
            self.emit('trim(%s)' % t, s.strip())
        elif op == 'trim_left':
            self.emit('trim_left(%s)' % t, s.lstrip())
        elif op == 'trim_right':
            self.emit('trim_right(%s)' % t, s.rstrip())
        elif op == 'concat':
            u, v = self.string()
            self.emit('%s + %s' % (t, u), s + v)
        elif op == 'append' and self.str:
            k = r.choice(sorted(self.str))
            self.str[k] += s
            self.lines.append('%s += %s' % (k, t))
            self.changes += 1
            self.show(k)
        elif op == 'str':
            u, v = self.scalar()
            self.emit('str(%s)' % u, text_of(v))
        elif op == 'parse':
            v = r.choice(NUMT)
            if r.random() < .3:
                v = repr(r.uniform(-1e6, 1e6)) if r.random() < .5 else repr(r.random() * 10.0 ** r.randint(-300, 300))
            self.emit('parse_number(%s)' % self.arg(v), parse(v))
        elif op == 'typeof':
            u, v = self.value()
            self.emit('typeof(%s)' % u, {bool: 'boolean', float: 'number', str: 'string', list: 'array', dict: 'object'}[type(v)])
        elif op == 'json':
            self.emit('json_string(%s)' % t, s, 'json')
        elif op == 'color':
            v = [f32(r.choice((0.0, 1.0, 0.5, 2.0, -1.0, r.random(), r.random()))) for _ in range(4)]
            self.args.append(('v', tuple(v)))
            self.emit('str(color: p%d)' % (len(self.args) - 1), color(v))
        elif op == 'compare':
            u, v = self.string()
            x = self.name()
            y = self.name()
            self.lines += ['%s := %s' % (x, t), '%s := %s' % (y, u)]
            o = r.choice(('<', '<=', '>', '>=', '==', '!='))
            a, b = s.encode(), v.encode()
            self.emit('%s %s %s' % (x, o, y), {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[o])
        elif op == 'rejoin':
            # Characters put together again.
            x, y, i = self.name(), self.name(), self.name()
            self.lines += ['%s := chars(%s)' % (x, t), '%s := ""' % y, 'for %s len(%s) {' % (i, x), '    %s += %s[%s]' % (y, x, i), '}']
            self.emit(y, s)
        elif op == 'fmt':
            k = r.choice(sorted(self.arr))
            v = self.arr[k] + [r.choice(STRS) for _ in range(r.randint(1, 4))] + [{'a b': s}]
            if finite(v):
                self.args.append(wire(v))
                self.emit('unwrap(load_data(string: fmt(tab: %d, string: str(p%d))))' % (r.randint(0, 6), len(self.args) - 1), v)

    def build(self):
        for _ in range(2):
            self.arr = self.arr or {}
            self.new()
        n = self.r.randint(3, 16)
        self.steps = n
        for _ in range(n):
            k = self.r.choice(('array',) * 6 + ('object',) * 3 + ('string_step',) * 4 + ('new',))
            getattr(self, k)()
        for k in list(self.arr) + list(self.obj) + list(self.str):
            self.show(k)


VOID = '''fn vv_insert(mut a, i, x) -> any {
    insert(mut a, i, x)
    return 0
}
fn vv_insert_ref(mut a, i, x: 'a) -> any {
    insert_ref(mut a, i, x)
    return 0
}
fn vv_swap(mut a, i, j) -> any {
    swap(mut a, i, j)
    return 0
}
'''


def finite(x):
    if isinstance(x, float):
        return x == x and abs(x) < 1e15
    if isinstance(x, list):
        return all(map(finite, x))
    if isinstance(x, dict):
        return all(map(finite, x.values()))
    return True


def eq(got, want, how):
    if how == 'set':
        return got[0] == 'a' and all(x[0] == 's' for x in got[1]) and sorted(x[1] for x in got[1]) == [x[1] for x in want[1]]
    if how == 'json':
        try:
            return got[0] == 's' and json.loads(got[1]) == want[1]
        except ValueError:
            return False
    return same(got, want)


def case(ctx, rng, i):
    h = Hist(rng)
    h.build()
    text = VOID + 'fn t(%s) -> any {\n%s    return 5\n}\n' % (', '.join('p%d' % j for j in range(len(h.args))), ''.join('    %s\n' % l for l in h.lines))
    ops = [('limit', 100000), ('rt', 'r'), ('mod', 'm'), ('load', 'm', 'a.dyon', text), ('callret', 'r', 'm', 't') + tuple(enc(v) for v in h.args)]
    rep = ctx.run(ops)
    z = [e for e in rep.events if e[0] in ('panic', 'abort', 'unbal', 'badref')]
    if rep.died or z:
        if rep.died == 'hang':
            return ctx.inconclusive('slow', text)
        return ctx.violation('C24 crash', 'the run ended with %s\n%s' % (rep.died or [show(v) for v in z[0][1:]], text), ops)
    if rep.events[0][1][1] != 'ok':
        return ctx.inconclusive('rejected', show(rep.events[0][2], 900) + text)
    got = [e[1] for e in rep.events if e[0] == 'e']
    fin = rep.events[-1]
    ctx.seen((text, repr(h.args)), h.steps >= 4 and h.changes)
    for l in h.lines:
        m = re.search(r'[a-z_]+\((mut )?', l[4:] if l.startswith('emit(') else l)
        if m:
            ctx.kind('function', ('try ' if 'try ' in l else '') + m.group(0))
    ctx.cov['steps'] += h.steps
    ctx.cov['logged values compared'] += len(h.exp)
    emits = [l for l in h.lines if l.startswith('emit(')]
    for j, (g, (w, how)) in enumerate(zip(got, h.exp)):
        if not eq(g, w, how):
            return ctx.violation('C24 value', '%s gave %s, expected %s (arguments %s)\n%s' % (emits[j], show(g), show(w), ['p%d = %s' % (q, show(a)) for q, a in enumerate(h.args)], text), ops)
    if fin[1][1] != 'ok' or len(got) != len(h.exp):
        return ctx.violation('C24 ending', 'the run ended with %s after %d of %d values (arguments %s)\n%s' % ([show(x) for x in fin[1:3]], len(got), len(h.exp), ['p%d = %s' % (q, show(a)) for q, a in enumerate(h.args)], text), ops)
