"""C16: data round trips."""
import json, math, os, random
from model import *
from wire import enc, num, boolean, st, f32

PLAN = {'quick': (8000, 2000, 300), 'thorough': (100000, 60000, 2400)}
RULE = ('Random values of booleans, finite numbers (small, huge, subnormal, many digits, negative zero), strings (all escapes, control '
        'characters, every plane of Unicode), vectors, arrays, objects (keys of all kinds), options and links, nested, written with '
        'str, json_string and save and read back from text and file; the same texts with comments and white space inserted; damaged '
        'texts, texts with trailing matter and random texts. JSON strings are read by Python. Non-trivial: nested or non-ASCII.')
TECHNIQUE = 'round-trip monitor on the values seen by the host, with an independent reader of the data format and of JSON as oracle'
NOTE = ('Verdict on damaged texts comes from an independent reader; where the format leaves the verdict open only termination without '
        'a crash is required. Nesting up to 60 levels.')

PROG = '''
fn text(x: any) -> any { return str([x]) }
fn json(x: any) -> any { return json_string(x) }
fn back(t: str) -> any { return load_data(string: t) }
fn tofile(x: any, f: str) -> any { return save(data: x, file: f) }
fn fromfile(f: str) -> any { return load_data(file: f) }
fn both(x: any) -> any {
    t := str([x])
    r := unwrap(load_data(string: t))
    return r == [x]
}
'''

CH = ['a', 'Z', '0', '_', ' ', '"', '\\', '/', '\n', '\r', '\t', '\b', '\f', '\x00', '\x01', '\x1f', '\x7f', '\x85', '\xa0', 'é', 'ß',
      '\u2028', '\ufeff', '\uffff', '中', '\U0001f600', '\U0010ffff', '{', '}', '[', ']', '(', ')', ',', ':', ';', '#', '.', 'u', 'n', "'", '*']


def string(r):
    x = r.random()
    if x < .1:
        return ''
    if x < .3:
        return r.choice(('abc', 'true', 'none()', 'link', '1', '//', '/*', '*/', '\\n', '\\u0041', 'some(1)', 'a b', 'x_y', 'é1', '#ff0000', '_'))
    return ''.join(r.choice(CH) for _ in range(r.choice((1, 2, 3, 5, 12))))


def number(r):
    x = r.random()
    if x < .3:
        return float(r.randint(-5, 20))
    if x < .4:
        return r.choice((0.0, -0.0, .5, -.25, 1e-7, 1e21, 123456789.125))
    if x < .5:
        return r.choice((1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, -1e300, 1e-300, 9007199254740993.0, .1, 1 / 3))
    if x < .75:
        return r.uniform(-1, 1) * 10.0 ** r.randint(-30, 30)
    while True:
        import struct
        v = struct.unpack('<d', r.getrandbits(64).to_bytes(8, 'little'))[0]
        if math.isfinite(v):
            return v


def val(r, d=0):
    x = r.random()
    if d > 4:
        x *= .6
    if x < .1:
        return boolean(r.random() < .5)
    if x < .35:
        return num(number(r))
    if x < .52:
        return st(string(r))
    if x < .6:
        c = [f32(number(r)) if r.random() < .5 else float(r.randint(-3, 3)) for _ in range(4)]
        c = [y if math.isfinite(y) else 1.5 for y in c]
        k = r.choice((2, 3, 4))
        return ('v', tuple(c[:k] + [0.0] * (4 - k)))
    if x < .75:
        return ('a', tuple(val(r, d + 1) for _ in range(r.choice((0, 1, 2, 3, 5)))))
    if x < .9:
        return ('o', {string(r): val(r, d + 1) for _ in range(r.choice((0, 1, 2, 3)))})
    if x < .95:
        return ('?', None if r.random() < .3 else val(r, d + 1))
    return ('l', tuple(val_link(r) for _ in range(r.choice((0, 1, 2, 5)))))


def val_link(r):
    x = r.random()
    return boolean(r.random() < .5) if x < .3 else num(number(r)) if x < .7 else st(string(r))


def eq(a, b):
    """Equal up to the sign of zero."""
    if a[0] != b[0]:
        return False
    k = a[0]
    if k in 'nb':
        return a[1] == b[1] and b[2] is None
    if k == 's':
        return a[1] == b[1]
    if k == 'v':
        return a[1] == b[1]
    if k in ('a', 'l'):
        return len(a[1]) == len(b[1]) and all(eq(x, y) for x, y in zip(a[1], b[1]))
    if k == 'o':
        return a[1].keys() == b[1].keys() and all(eq(a[1][q], b[1][q]) for q in a[1])
    if k == '?':
        return a[1] is b[1] if a[1] is None or b[1] is None else eq(a[1], b[1])
    return False


# ------------------------------------------------------------ an independent writer

def esc(r, s):
    out = []
    for c in s:
        o = ord(c)
        x = r.random()
        if c in '"\\':
            out.append('\\' + c)
        elif c in '\n\r\t\b\f':
            out.append('\\' + {'\n': 'n', '\r': 'r', '\t': 't', '\b': 'b', '\f': 'f'}[c])
        elif o < 32:
            out.append('\\u%04x' % o)
        elif x < .1 and o < 0xd800:
            out.append('\\u%04X' % o)
        elif c == '/' and x < .3:
            out.append('\\/')
        else:
            out.append(c)
    return '"' + ''.join(out) + '"'


def numtext(r, v):
    if v == int(v) and abs(v) < 1e15 and r.random() < .5:
        return '%d' % int(v) if v or math.copysign(1, v) > 0 else '0'
    t = repr(v)
    return t.replace('e+', 'e')


def write(r, v, ws):
    k = v[0]
    w = lambda: ws() if ws else ''
    if k == 'b':
        return 'true' if v[1] else 'false'
    if k == 'n':
        return numtext(r, v[1])
    if k == 's':
        return esc(r, v[1])
    if k == 'v':
        n = 4 if v[1][3] else 3 if v[1][2] else 2
        return '(' + (w() + ',' + w()).join(numtext(r, c) for c in v[1][:n]) + w() + ')'
    if k == 'a':
        return '[' + w() + (w() + ',' + w()).join(write(r, x, ws) for x in v[1]) + (',' if v[1] and r.random() < .1 else '') + w() + ']'
    if k == 'o':
        return '{' + w() + (w() + ',' + w()).join(
            # An unquoted key ends at white space or a separator, not at a comment.
            (q + (' ' + w() if r.random() < .5 else '') if q.isascii() and q.isalnum() and r.random() < .6 else esc(r, q) + w())
            + ':' + w() + write(r, x, ws)
            for q, x in v[1].items()) + w() + '}'
    if k == '?':
        return 'none()' if v[1] is None else 'some(' + w() + write(r, v[1], ws) + w() + ')'
    return 'link' + w() + '{' + w() + ''.join(write(r, x, None) + (w() or ' ') + ' ' for x in v[1]) + '}'


def ws(r):
    return r.choice(('', '', ' ', '  \n', '\t', '\r\n', ' // c } ]\n', '/* x */', '/* a /* b */ c */', '/***/', '/* * / ] */', ' /**/ '))


def runprog(ctx, calls):
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', PROG), ('rt', 'r')]
    for f, *a in calls:
        ops.append(('callret', 'r', 'm', f) + tuple(enc(x) for x in a))
    return ops, ctx.run(ops)


def results(rep):
    out = []
    for e in rep.events:
        if e[0] == 'end':
            out.append((e[1][1], e[2]))
        elif e[0] in ('panic', 'abort'):
            out.append(('panic', e[1]))
            break
    return out


def has_link(v):
    return v[0] == 'l' or v[0] == 'a' and any(map(has_link, v[1])) or v[0] == 'o' and any(map(has_link, v[1].values())) or \
        v[0] == '?' and v[1] is not None and has_link(v[1])


def depth(v):
    if v[0] in ('a', 'l'):
        return 1 + max([depth(x) for x in v[1]] + [0])
    if v[0] == 'o':
        return 1 + max([depth(x) for x in v[1].values()] + [0])
    if v[0] == '?' and v[1]:
        return 1 + depth(v[1])
    return 0


def case(ctx, rng, i):
    if i % 3 == 2:
        return texts(ctx, rng)
    vs = [val(rng) for _ in range(6)]
    if rng.random() < .1:
        v = num(1)
        for _ in range(rng.randint(10, 60)):
            v = rng.choice((lambda: ('a', (v,)), lambda: ('?', v), lambda: ('o', {'k': v})))()
        vs[0] = v
    f = os.path.join(ctx.scratch, 'd%d' % os.getpid())
    calls = []
    for v in vs:
        calls += [('text', v), ('json', v), ('both', v), ('tofile', v, st(f)), ('fromfile', st(f))]
    ops, rep = runprog(ctx, calls)
    res = results(rep)
    back = []
    for n, v in enumerate(vs):
        part = res[5 * n:5 * n + 5]
        if len(part) < 5 and not any(p[0] == 'panic' for p in part):
            ctx.inconclusive('no answer', str(rep.died))
            return
        d = None
        for q, p in enumerate(part):
            if p[0] == 'panic':
                d = 'crashed: ' + show(p[1])
            elif p[0] == 'err':
                d = '%s failed: %s' % (calls[5 * n + q][0], show(p[1], 400))
            if d:
                break
        if d is None:
            back += [(v, part[0][1][1], True), (v, part[1][1][1], False)]
            # Links have no equality in the language.
            if not has_link(v) and not eq(boolean(True), part[2][1]):
                d = 'the value read back is not equal to the one written in the script'
            elif part[3][1][0] != 'ok':
                d = 'save failed: ' + show(part[3][1])
            elif part[4][1][0] != 'ok' or not eq(v, part[4][1][1]):
                d = 'from a file it was read as ' + show(part[4][1], 500)
        if d is None and v[0] == 's':
            try:
                j = json.loads(part[1][1][1])
            except ValueError as e:
                j = e
            if j != v[1]:
                d = 'as a JSON string it is %r, which a JSON reader takes as %r' % (part[1][1][1], j)
            ctx.cov['json_strings'] += 1
        if d:
            ctx.violation('C16 value', '%s: %s' % (show(v, 500), d), ops)
            return
        ctx.seen(enc(v), depth(v) > 0 or not enc(v).isascii())
        ctx.kind('value', v[0])
        ctx.cov['values'] += 1
    ops, rep = runprog(ctx, [('back', st(t)) for v, t, a in back])
    for (v, t, a), r in zip(back, results(rep)):
        w = ('a', (v,)) if a else v
        if r[0] != 'ok' or r[1][0] != 'ok' or not eq(w, r[1][1]):
            ctx.violation('C16 text', 'the text %r of the value %s was read as %s' % (t[:800], show(w, 300), show(r[1], 500)), ops)
            return


def damage(r, v, t):
    """A text and whether it must be accepted (with its value), rejected, or either."""
    x = r.random()
    if x < .2:
        return t + r.choice((' 1', ' x', ']', '}', '"', ' true', ',', ')', ' {}', '#')), False
    if x < .35:
        # A bracket or quote is lost.
        ks = [k for k, c in enumerate(t) if c in '[]{}()']
        if ks and '"' not in t and '/' not in t:
            k = r.choice(ks)
            return t[:k] + t[k + 1:], False
    if x < .5 and t and t[-1] in ']})"' and '/' not in t:
        return t[:r.randint(1, len(t) - 1)] if t[0] in '[{("' and '"' not in t[1:-1] else t[:-1], False
    if x < .6:
        return r.choice(('', ' ', 'x', 'foo', 'nul', 'null', 'True', '-', '+', '--1', '{a}', '{a:}', '{:1}', '[,]', '[1 2]', '{a:1 b:2}', '(1)', '(,)',
                         '(1,2', '(1,2,3,4,5)', '"', '"\\', '"\\x"', '"\\u12"', 'some()', 'some(1', 'none(', 'none', '#', '#zz', 'link', 'link {',
                         'link { [] }', 'link { none() }', '/*', '//', '/* */', '[', '{', '(', '}', '{"a" 1}', '{a:1,,b:2}', '[1,,2]')), False
    s = list(t)
    for _ in range(r.randint(1, 3)):
        k = r.randrange(len(s) + 1)
        if r.random() < .5 and s:
            s[min(k, len(s) - 1)] = r.choice(CH)
        elif r.random() < .5 and s:
            del s[min(k, len(s) - 1)]
        else:
            s.insert(k, r.choice(CH))
    return ''.join(s), None


def texts(ctx, rng):
    items = []
    for _ in range(8):
        v = val(rng)
        if rng.random() < .5:
            t = ws(rng) + write(rng, v, lambda: ws(rng)) + ws(rng)
            items.append((t, v))
        else:
            items.append(damage(rng, v, write(rng, v, None)))
    ops, rep = runprog(ctx, [('back', st(t)) for t, _ in items])
    res = results(rep)
    for (t, want), r in zip(items, res):
        d = None
        if r[0] != 'ok':
            d = 'crashed or failed: ' + show(r[1], 500)
        elif want is False and r[1][0] != 'err':
            d = 'is not data but was read as ' + show(r[1], 400)
        elif isinstance(want, tuple) and (r[1][0] != 'ok' or not eq(want, r[1][1])):
            d = 'is %s but was read as %s' % (show(want, 400), show(r[1], 500))
        if d:
            ctx.violation('C16 reading', 'the text %r %s' % (t[:800], d), ops)
            return
        ctx.cov['texts_rejected' if want is False else 'texts_open' if want is None else 'texts_accepted'] += 1
        ctx.seen(t, True)
    if len(res) < len(items):
        ctx.inconclusive('no answer', repr(items[len(res)][0])[:300] + str(rep.died))
