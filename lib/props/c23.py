"""C23: values cross the host boundary unchanged."""
from wire import enc, show, num, st, boolean, same, f32

PLAN = {'quick': (8000, 300, 300), 'thorough': (400000, 6000, 2400)}
RULE = ('Host values of every supported type, also nested (numbers of all widths, booleans, strings, options, results, arrays, tuples, lists, vectors, matrices, structs, user objects), are pushed, '
        'shown to a script and popped again; script values of every type are popped as every host type, directly, by reference, as part of a larger value that holds references, as a current '
        'object and as an argument of functions declared with the macros; functions are called with wrong numbers of arguments. Non-trivial: the value is not empty; distinct by type and value.')
TECHNIQUE = 'conversion monitor: host code of the harness logs the value held on each side of the boundary; the log is compared with a structural model of the conversions'
NOTE = 'A number that the host type cannot hold, and an array longer than the host type, may be popped in any way that does not crash.'

PERSON = ('obj', {'name': 'str', 'age': 'u32', 'tags': ('vec', 'str'), 'pos': ('tup', ('f64', 'f64'))})
TYPES = {
    'f64': 'f64', 'f32': 'f32', 'u32': 'u32', 'usize': 'usize', 'bool': 'bool', 'str': 'str', 'astr': 'str', 'var': 'var', 'vec4': 'vec4', 'mat4': 'mat4',
    'opt_f64': ('opt', 'f64'), 'opt_str': ('opt', 'str'), 'opt_opt_bool': ('opt', ('opt', 'bool')), 'res_f64_str': ('res', 'f64', 'str'), 'res_str_f64': ('res', 'str', 'f64'),
    'res_opt_u32_str': ('res', ('opt', 'u32'), 'str'), 'a2_f64': ('tup', ('f64',) * 2), 'a3_str': ('tup', ('str',) * 3), 'a4_f64': ('tup', ('f64',) * 4),
    'a2_a2_u32': ('tup', (('tup', ('u32', 'u32')),) * 2), 'a3_f32': ('tup', ('f32',) * 3), 't2_f64_str': ('tup', ('f64', 'str')), 't2_bool_bool': ('tup', ('bool', 'bool')),
    't3_bool_f64_str': ('tup', ('bool', 'f64', 'str')), 't4_f64_str_bool_u32': ('tup', ('f64', 'str', 'bool', 'u32')), 'v_f64': ('vec', 'f64'), 'v_str': ('vec', 'str'),
    'v_v_f64': ('vec', ('vec', 'f64')), 'v_opt_bool': ('vec', ('opt', 'bool')), 'v_t2_str_f64': ('vec', ('tup', ('str', 'f64'))), 'opt_v_a2_f64': ('opt', ('vec', ('tup', ('f64', 'f64')))),
    'v_vec4': ('vec', 'vec4'), 'v_var': ('vec', 'var'), 'person': PERSON, 'v_person': ('vec', PERSON), 'opt_person': ('opt', PERSON), 't2_vec4_mat4': ('tup', ('vec4', 'mat4')),
}
CONV = {'cf32_2': 2, 'cf32_3': 3, 'cf32_4': 4, 'cf64_2': 2, 'cf64_3': 3, 'cf64_4': 4, 'cvec4': 4}
# The conversions of the wrapper type, from and to host arrays and tuples.
CONV.update((w + t + '_%d' % n, n) for w in ('cw', 'ct') for t, ns in (('f32', (2, 3, 4)), ('f64', (2, 3, 4)), ('u32', (2,)), ('u8', (4,)))
            for n in ns)
STRS = ('', 'a', 'hello world', 'é€𝕏', '"q"', 'a\\nb', 'line\nbreak', 'tab\t', '{}', '0')


class Mismatch(Exception):
    pass


class Unspecified(Exception):
    pass


def f64(r, script=False):
    z = r.random()
    if z < .3:
        return float(r.randint(0, 9))
    if z < .5:
        return float(r.randint(-10 ** 6, 10 ** 6)) / 2 if script else r.uniform(-1e3, 1e3)
    if z < .6:
        return r.choice((2.0 ** 53, 4294967295.0, 0.5, 1e15) if script else (1e300, -1e300, 5e-324, 2.0 ** 53, 4294967295.0, 0.1))
    if z < .7 and not script:
        return r.choice((float('nan'), float('inf'), -float('inf'), -0.0))
    return float(r.randint(-1000, 1000)) / (2 if script else 8)


def gen(t, r, script=False):
    """A value of the host type t."""
    if t == 'f64':
        return num(f64(r, script))
    if t == 'f32':
        return num(f32(f64(r, script)))
    if t == 'u32':
        return num(r.choice((0, 1, 7, 4294967295, 65536, r.randint(0, 2 ** 32 - 1))))
    if t == 'usize':
        return num(r.choice((0, 1, 7, 4294967296, 2 ** 53, r.randint(0, 2 ** 53))))
    if t == 'bool':
        return boolean(r.random() < .5)
    if t == 'str':
        return st(r.choice(STRS))
    if t == 'var':
        return anyval(r, 2, script)
    if t == 'vec4':
        return ('v', tuple(f32(r.randint(-99, 99) / 2) for _ in range(4)))
    if t == 'mat4':
        return ('m', tuple(f32(r.randint(-99, 99) / 2) for _ in range(16)))
    if t[0] == 'opt':
        return ('?', None if r.random() < .3 else gen(t[1], r, script))
    if t[0] == 'res':
        return ('ok', gen(t[1], r, script)) if r.random() < .6 else ('err', gen(t[2], r, script), ())
    if t[0] == 'tup':
        return ('a', tuple(gen(x, r, script) for x in t[1]))
    if t[0] == 'vec':
        return ('a', tuple(gen(t[1], r, script) for _ in range(r.randint(0, 4))))
    if t[0] == 'obj':
        return ('o', {k: gen(x, r, script) for k, x in t[1].items()})


def anyval(r, d, script=False):
    t = r.choice(('f64', 'bool', 'str', 'vec4', 'mat4') + (('opt', 'res', 'a', 'o', 'typed', 'typed') if d else ()))
    if t == 'opt':
        return ('?', None if r.random() < .3 else anyval(r, d - 1, script))
    if t == 'res':
        return ('ok', anyval(r, d - 1, script)) if r.random() < .6 else ('err', anyval(r, d - 1, script), ())
    if t == 'a':
        return ('a', tuple(anyval(r, d - 1, script) for _ in range(r.randint(0, 4))))
    if t == 'o':
        return ('o', {k: anyval(r, d - 1, script) for k in r.sample(('a', 'b', 'name', 'age'), r.randint(0, 3))})
    if t == 'typed':
        t = r.choice([x for x in TYPES.values() if x not in ('var', ('vec', 'var'))])
    return gen(t, r, script)


def near(t, r, script=False):
    """A value that is of the type t in most places."""
    v = gen(t, r, script)
    return spoil(v, r, script) if r.random() < .6 else v


def spoil(v, r, script):
    k = v[0]
    if k == 'a' and v[1] and r.random() < .8:
        z = list(v[1])
        i = r.randrange(len(z))
        if r.random() < .4:
            del z[i]
        elif r.random() < .3:
            z.insert(i, z[i])
        else:
            z[i] = spoil(z[i], r, script)
        return ('a', tuple(z))
    if k == 'o' and v[1] and r.random() < .8:
        z = dict(v[1])
        i = r.choice(sorted(z))
        if r.random() < .3:
            del z[i]
        elif r.random() < .3:
            z['extra'] = num(1)
        else:
            z[i] = spoil(z[i], r, script)
        return ('o', z)
    if k == '?' and v[1] is not None and r.random() < .8:
        return ('?', spoil(v[1], r, script))
    if k == 'ok' and r.random() < .8:
        return ('ok', spoil(v[1], r, script))
    if k == 'err' and r.random() < .8:
        return ('err', spoil(v[1], r, script), ())
    return anyval(r, 1, script)


def conv(t, v):
    """What the host gets when it pops v as the type t."""
    k = v[0]
    if t == 'var':
        return v
    if t in ('f64', 'f32', 'u32', 'usize'):
        if k != 'n':
            raise Mismatch
        x = v[1]
        if t == 'f32':
            return num(f32(x))
        if t != 'f64' and not (x == x and abs(x) <= 2 ** 53 and x == int(x) and 0 <= x < (2 ** 32 if t == 'u32' else 2 ** 54)):
            raise Unspecified
        return num(x if t == 'f64' else abs(x))
    if t in ('bool', 'str', 'vec4', 'mat4'):
        if k != {'bool': 'b', 'str': 's', 'vec4': 'v', 'mat4': 'm'}[t]:
            raise Mismatch
        return v if t != 'bool' else boolean(v[1])
    if t[0] == 'opt':
        if k != '?':
            raise Mismatch
        return ('?', None if v[1] is None else conv(t[1], v[1]))
    if t[0] == 'res':
        if k not in ('ok', 'err'):
            raise Mismatch
        return ('ok', conv(t[1], v[1])) if k == 'ok' else ('err', conv(t[2], v[1]), ())
    if t[0] == 'tup':
        if k != 'a' or len(v[1]) < len(t[1]):
            raise Mismatch
        z = [one(x, y) for x, y in zip(t[1], v[1])]
        settle(z)
        if len(v[1]) > len(t[1]):
            raise Unspecified
        return ('a', tuple(z))
    if t[0] == 'vec':
        if k != 'a':
            raise Mismatch
        z = [one(t[1], y) for y in v[1]]
        settle(z)
        return ('a', tuple(z))
    if t[0] == 'obj':
        if k != 'o' or any(x not in v[1] for x in t[1]):
            raise Mismatch
        z = {x: one(y, v[1][x]) for x, y in t[1].items()}
        settle(z.values())
        return ('o', z)


def one(t, v):
    try:
        return conv(t, v)
    except (Mismatch, Unspecified) as e:
        return e


def settle(z):
    """A mismatch anywhere is a mismatch of the whole."""
    for k in (Mismatch, Unspecified):
        for x in z:
            if isinstance(x, k):
                raise x


def plain(v):
    """Without the trace of errors and the reasons of secrets."""
    k = v[0]
    if k == 'n':
        return num(v[1])
    if k == 'b':
        return boolean(v[1])
    if k == 'a':
        return ('a', tuple(plain(x) for x in v[1]))
    if k == 'o':
        return ('o', {a: plain(b) for a, b in v[1].items()})
    if k == '?':
        return ('?', None if v[1] is None else plain(v[1]))
    if k == 'ok':
        return ('ok', plain(v[1]))
    if k == 'err':
        return ('err', plain(v[1]), ())
    return v


def eq(a, b):
    return same(plain(a), plain(b))


ECHO = 'fn echo(x: any) -> any {\n    emit(x)\n    return clone(x)\n}\nfn two(a: any, b: any) -> any {\n    emit(a)\n    emit(b)\n    return [clone(b), clone(a)]\n}\nfn none_() -> any {\n    return 1\n}\n' \
       'fn void2(a: any, b: any) {\n    emit([b, a])\n}\n'


def crashed(ctx, rep, ops, what):
    z = [e for e in rep.events if e[0] in ('panic', 'abort', 'unbal', 'badref')]
    if rep.died or z:
        if rep.died == 'hang':
            ctx.inconclusive('slow', what)
        else:
            ctx.violation('C23 crash', '%s: the run ended with %s' % (what, rep.died or (z[0][0], [show(v) for v in z[0][1:]])), ops)
        return True
    return False


def rounds(ctx, r):
    js, ops = [], [('limit', 20000), ('rt', 'r'), ('modconv', 'm'), ('load', 'm', 'a.dyon', ECHO)]
    for _ in range(12):
        if r.random() < .75:
            ty = r.choice(sorted(TYPES))
            v = gen(TYPES[ty], r)
            want = v
        elif r.random() < .8:
            ty = r.choice(sorted(CONV))
            v = ('a', tuple(num(f32(f64(r))) if '64' not in ty else num(f64(r)) for _ in range(CONV[ty])))
            if 'u' in ty:
                top = 255 if 'u8' in ty else 1 << 24
                v = ('a', tuple(num(r.choice((0, 1, top, r.randint(0, top)))) for _ in range(CONV[ty])))
            want = ('v', tuple([f32(f32(x[1]) / 255) if 'u8' in ty else f32(x[1]) for x in v[1]] + [0.0] * (4 - CONV[ty])))
        else:
            ty = r.choice(('cmat4', 'cmat4w'))
            v = want = gen('mat4', r)
        js.append((ty, v, want))
        ops.append(('conv', 'r', 'm', 'round', ty, enc(v)))
    rep = ctx.run(ops)
    if crashed(ctx, rep, ops, 'round trips of %s' % [(a, show(b)) for a, b, _ in js]):
        return
    ev = [e for e in rep.events if e[0] == 'round']
    em = [e for e in rep.events if e[0] == 'e']
    if len(ev) != len(js) or len(em) != len(js):
        ctx.inconclusive('events missing', '')
        return
    for (ty, v, want), e, m in zip(js, ev, em):
        ctx.seen(('round', ty, show(v)), True)
        ctx.kind('round trip', ty)
        back = v if ty in TYPES or ty.startswith('cmat') else ('a', tuple(num(f32(x[1])) for x in v[1]))
        what = 'the host value %s of type %s' % (show(v), ty)
        host, seen, popped, echo, used = e[1:]
        if ty in TYPES and not eq(host, v):
            ctx.inconclusive('harness', what)
        elif not eq(seen, want) or not eq(m[1], want):
            ctx.violation('C23 push', '%s was pushed as %s and seen by a script as %s, expected %s' % (what, show(seen), show(m[1]), show(want)), ops)
        elif not used[1]:
            ctx.violation('C23 stack', '%s: popping it did not remove it from the stack' % what, ops)
        else:
            for how, x in (('popped', popped), ('returned by a script', echo)):
                if not x[1][0][1] or not eq(x[1][1], back):
                    ctx.violation('C23 pop', '%s was %s as %s' % (what, how, show(x)), ops)


def pops(ctx, r):
    js, ops = [], [('limit', 20000), ('rt', 'r'), ('modconv', 'm'), ('load', 'm', 'a.dyon', ECHO)]
    for _ in range(12):
        if r.random() < .85:
            ty = r.choice(sorted(TYPES))
            v = near(TYPES[ty], r) if r.random() < .7 else anyval(r, 2)
            exp = one(TYPES[ty], v)
        else:
            ty = r.choice([c for c in sorted(CONV) if 'u' not in c] + ['cmat4', 'cmat4w'])
            v = r.choice((gen('vec4', r), gen('mat4', r), anyval(r, 1)))
            if ty.startswith('cmat'):
                exp = v if v[0] == 'm' else Mismatch()
            else:
                exp = ('a', tuple(num(x) for x in v[1][:CONV[ty]])) if v[0] == 'v' else Mismatch()
        js.append((ty, v, exp))
        ops.append(('conv', 'r', 'm', 'popas', ty, enc(v)))
    rep = ctx.run(ops)
    if crashed(ctx, rep, ops, 'pops of %s' % [(a, show(b)) for a, b, _ in js]):
        return
    ev = [e for e in rep.events if e[0] == 'popas']
    if len(ev) != len(js):
        ctx.inconclusive('events missing', '')
        return
    for (ty, v, exp), e in zip(js, ev):
        ctx.seen(('pop', ty, show(v)), True)
        ctx.kind('pop', (ty, 'error' if isinstance(exp, Mismatch) else 'value'))
        for how, x in zip(('popped', 'popped by reference', 'read'), e[1:4]):
            what = '%s %s as %s' % (show(v), how, ty)
            if isinstance(exp, Unspecified):
                ctx.cov['unspecified'] += 1
            elif isinstance(exp, Mismatch):
                if x[1][0][1] or not x[1][1][1]:
                    ctx.violation('C23 mismatch', '%s gave %s, expected an error' % (what, show(x)), ops)
            elif not x[1][0][1] or not eq(x[1][1], exp):
                ctx.violation('C23 pop', '%s gave %s, expected %s' % (what, show(x), show(exp)), ops)
        if not eq(e[4], v):
            ctx.violation('C23 kept', '%s was popped by reference as %s and then was %s' % (show(v), ty, show(e[4])), ops)


class Script:
    def __init__(self, r):
        self.r, self.ls, self.n = r, [], 0

    def lit(self, v, top=False):
        """Text of the value; parts of it are variables, so that the value holds references."""
        k, r = v[0], self.r
        if k == 'n':
            t = repr(v[1]) if v[1] >= 0 else None
            if t is None:
                return self.var('0 - ' + repr(-v[1]))
            t = t.replace('e+', 'e')
        elif k == 'b':
            t = 'true' if v[1] else 'false'
        elif k == 's':
            t = '"' + v[1].replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'
        elif k == 'v':
            return self.var('(%s)' % ', '.join(self.lit(num(x)) for x in v[1]))
        elif k == 'm':
            xs = [self.lit(num(x)) for x in v[1]]
            return self.var('mat4 {%s}' % '; '.join(','.join(xs[c * 4 + q] for c in range(4)) for q in range(4)))
        elif k == 'a':
            t = '[' + ', '.join(self.lit(x) for x in v[1]) + ']'
        elif k == 'o':
            t = '{' + ', '.join('%s: %s' % (a, self.lit(b)) for a, b in v[1].items()) + '}'
        elif k == '?':
            t = 'none()' if v[1] is None else 'some(%s)' % self.lit(v[1])
        elif k == 'ok':
            t = 'ok(%s)' % self.lit(v[1])
        else:
            t = 'err(%s)' % self.lit(v[1])
        if top or r.random() < .4 or k in 'ao?':
            return self.var(t)
        return t

    def var(self, t):
        self.n += 1
        self.ls.append('x%d := %s' % (self.n, t))
        return 'x%d' % self.n


def scripts(ctx, r):
    """Values of scripts given to typed host functions and read as current objects."""
    fs, js = [], []
    for q in range(8):
        ty = r.choice(sorted(TYPES))
        v = near(TYPES[ty], r, True) if r.random() < .6 else gen(TYPES[ty], r, True)
        s = Script(r)
        cur = r.random() < .3
        t = s.lit(v, cur)
        if cur:
            s.ls.append('~ cc := ' + t)
            s.ls.append('res := cur_%s("cc")' % ty)
        else:
            s.ls.append('res := take_%s(%s)' % (ty, t))
        # The value itself stays as it was.
        s.ls += ['emit(%s)' % t, 'return clone(res)'] if t[0] == 'x' else ['return clone(res)']
        fs.append('fn t%d() -> any {\n%s}\n' % (q, ''.join('    %s\n' % l for l in s.ls)))
        js.append((ty, v, one(TYPES[ty], v), t[0] == 'x'))
    ops = [('limit', 20000), ('rt', 'r'), ('modconv', 'm'), ('load', 'm', 'a.dyon', ''.join(fs))] + [('callret', 'r', 'm', 't%d' % q) for q in range(8)]
    rep = ctx.run(ops)
    if crashed(ctx, rep, ops, 'scripts\n' + ''.join(fs)):
        return
    if rep.events[0][1][1] != 'ok':
        ctx.inconclusive('rejected', show(rep.events[0][2], 900))
        return
    parts, cur = [], []
    for e in rep.events[1:]:
        cur.append(e)
        if e[0] == 'end':
            parts.append(cur)
            cur = []
    for (ty, v, exp, named), ev, f in zip(js, parts, fs):
        took = [e[1] for e in ev if e[0] == 'take']
        em = [e[1] for e in ev if e[0] == 'e']
        end = ev[-1]
        ctx.seen(('script', ty, f), True)
        ctx.kind('argument', (ty, 'error' if isinstance(exp, Mismatch) else 'value'))
        if isinstance(exp, Unspecified):
            ctx.cov['unspecified'] += 1
        elif isinstance(exp, Mismatch):
            if end[1][1] != 'err' or took or 'xpected' not in show(end[2], 9000) and 'no key' not in show(end[2], 9000):
                ctx.violation('C23 mismatch', 'as an argument of type %s the host got %s and the run ended with %s, expected an error\n%s' % (ty, [show(x) for x in took], [show(x) for x in end[1:3]], f), ops)
        elif end[1][1] != 'ok' or len(took) != 1 or not eq(took[0], exp) or not eq(end[2], exp):
            ctx.violation('C23 argument', 'as an argument of type %s the host got %s and the script %s, expected %s\n%s' % (ty, [show(x) for x in took], [show(x) for x in end[1:3]], show(exp), f), ops)
        elif named and (len(em) != 1 or not eq(em[0], v)):
            ctx.violation('C23 kept', 'after handing it to the host the value was %s, expected %s\n%s' % ([show(x) for x in em], show(v), f), ops)


HF = {'hf0': ((), lambda: num(7)), 'hf1': (('f64',), lambda a: num(a[1] + 1)), 'hf2': (('f64', 'str'), lambda a, b: b), 'hf3': (('bool', 'f64', ('vec', 'f64')), lambda a, b, c: c),
      'hf4': (('vec4', ('opt', 'f64'), ('tup', ('f64', 'str')), 'f64'), lambda a, b, c, d: ('ok', num(b[1][1] + d[1])) if b[1] else ('err', c[1][1], ())),
      'hf5': (('f64',) * 5, lambda a, b, c, d, e: num(a[1] * 10000 + b[1] * 1000 + c[1] * 100 + d[1] * 10 + e[1])),
      'hv0': ((), None), 'hv1': (('str',), None), 'hv3': (('f64', PERSON, 'bool'), None)}
# Functions on user objects: which objects and numbers they take, what becomes of the counter, what is returned.
CF = {'ctr_get': ('c', lambda c, d, n: (c, c)), 'ctr_plus': ('cn', lambda c, d, n: (c, c + n)), 'ctr_two': ('cdn', lambda c, d, n: (c, c * 100 + d * 10 + n)), 'ctr_clone': ('c', lambda c, d, n: (c, ('new', c))),
      'ctr_next': ('cn', lambda c, d, n: (c, ('new', c + n))), 'ctr_val': ('cn', lambda c, d, n: (c, c - n)), 'ctr_upd': ('cdn', lambda c, d, n: (c + d * n, c + d * n)),
      'ctr_updv': ('cdn', lambda c, d, n: (c - d * n, c - d * n)), 'ctr_add': ('cn', lambda c, d, n: (c + n, None)), 'ctr_add2': ('cdn', lambda c, d, n: (c + d + n, None)),
      'ctr_add3': ('cdn', lambda c, d, n: (c + d - n, None)), 'ctr_see': ('cn', lambda c, d, n: (c, None)), 'ctr_use': ('cn', lambda c, d, n: (c, None)), 'ctr_eat': ('cd', lambda c, d, n: (c, None))}


def functions(ctx, r):
    """Functions declared with the macros: one call each, arguments in order, result unchanged."""
    s = Script(r)
    exp, end = [], 'ok'
    ctrs, oths = [], []
    for _ in range(r.randint(3, 9)):
        z = r.random()
        if z < .45:
            f = r.choice(sorted(HF))
            ts, ret = HF[f]
            vs = [gen(t, r, True) for t in ts]
            bad = None
            if ts and r.random() < .12:
                i = r.randrange(len(ts))
                vs[i] = near(ts[i], r, True)
                bad = one(('tup', ts), ('a', tuple(vs)))
                if isinstance(bad, Unspecified):
                    continue
                got, bad = bad, isinstance(bad, Mismatch)
            c = '%s(%s)' % (f, ', '.join(s.lit(v) for v in vs))
            if bad is False:
                vs = list(got[1])
            if bad:
                s.ls.append(('emit(%s)' if ret else '%s') % c)
                end = 'err'
                break
            exp.append(('told', f, vs))
            if ret:
                s.ls.append('emit(%s)' % c)
                exp.append(('e', ret(*vs)))
            else:
                s.ls.append(c)
        elif z < .6 or not ctrs or not oths:
            n = float(r.randint(0, 9))
            if r.random() < .5:
                ctrs.append([s.var('ctr(%s)' % s.lit(num(n))), n])
                exp.append(('told', 'ctr', [num(n)]))
            else:
                oths.append([s.var('other(%s)' % s.lit(num(n))), n])
                exp.append(('told', 'other', [num(n)]))
        else:
            f = r.choice(sorted(CF))
            ks, fn = CF[f]
            c, d, n = r.choice(ctrs), r.choice(oths), float(r.randint(0, 9))
            at = {'c': c[0], 'd': d[0], 'n': s.lit(num(n))}
            if r.random() < .1:
                k = r.choice(ks)
                at[k] = r.choice({'c': (oths[0][0], '1', '"a"'), 'd': (ctrs[0][0], 'true', '[1]'), 'n': (ctrs[0][0], '"a"', 'none()')}[k])
                end = 'err'
            if len(set(at[k] for k in ks)) < len(ks):
                end = 'ok'
                continue    # the same object twice: each argument is locked for the whole call
            call = '%s(%s)' % (f, ', '.join(at[k] for k in ks))
            c2, ret = fn(c[1], d[1], n)
            if end == 'err':
                s.ls.append(call if ret is None else 'emit(%s)' % call)
                break
            exp.append(('told', f, [num({'c': c[1], 'd': d[1], 'n': n}[k]) for k in ks]))
            c[1] = c2
            if ret is None:
                s.ls.append(call)
            elif isinstance(ret, tuple):
                ctrs.append([s.var(call), ret[1]])
            else:
                s.ls.append('emit(%s)' % call)
                exp.append(('e', num(ret)))
    msg = None
    if end == 'ok' and r.random() < .2:
        msg = r.choice(STRS[1:]) + str(r.randint(0, 999))
        s.ls.append(r.choice(('fail(%s)', 'emit(fail_ret(%s))')) % s.lit(st(msg)))
        end = 'err'
    text = 'fn t() -> any {\n%s    return 5\n}\n' % ''.join('    %s\n' % l for l in s.ls)
    ops = [('limit', 20000), ('rt', 'r'), ('modconv', 'm'), ('load', 'm', 'a.dyon', text), ('callret', 'r', 'm', 't')]
    rep = ctx.run(ops)
    if crashed(ctx, rep, ops, 'functions\n' + text):
        return
    if rep.events[0][1][1] != 'ok':
        ctx.inconclusive('rejected', show(rep.events[0][2], 900))
        return
    got = [('told', e[1][1], list(e[2][1])) if e[0] == 'told' else ('e', e[1]) for e in rep.events if e[0] in ('told', 'e')]
    fin = rep.events[-1]
    ctx.seen(text, bool(exp))
    for x in exp:
        if x[0] == 'told':
            ctx.kind('function', x[1])
    ctx.kind('ending', (end, msg is not None))
    ok = len(got) == len(exp) and all(a[0] == b[0] and (eq(a[1], b[1]) if a[0] == 'e' else a[1] == b[1] and eq(('a', tuple(a[2])), ('a', tuple(b[2])))) for a, b in zip(got, exp))
    if not ok:
        ctx.violation('C23 functions', 'the host saw %s, expected %s; the run ended with %s\n%s' % (got, exp, [show(x) for x in fin[1:3]], text), ops)
    elif fin[1][1] != end or (msg is not None and msg not in fin[2][1]):
        ctx.violation('C23 ending', 'the run ended with %s, expected %s %s\n%s' % ([show(x) for x in fin[1:3]], end, msg, text), ops)


def counts(ctx, r):
    """Calls by the host with the right and the wrong number of arguments."""
    ops, exp = [('limit', 20000), ('rt', 'r'), ('modconv', 'm'), ('load', 'm', 'a.dyon', ECHO)], []
    for _ in range(8):
        f, n, kind = r.choice((('echo', 1, 'callret'), ('two', 2, 'callret'), ('none_', 0, 'callret'), ('void2', 2, 'call'), ('echo', 1, 'call'), ('nofn', None, 'call'), ('nofn', None, 'callret'),
                               ('abs', 1, 'callret'), ('hf5', 5, 'callret'), ('hf0', 0, 'callret')))
        k = r.choice((n, n, r.randint(0, 5))) if n is not None else r.randint(0, 2)
        vs = [anyval(r, 1) for _ in range(k)] if f in ('echo', 'two', 'void2', 'nofn', 'none_') else [num(r.randint(0, 9)) for _ in range(k)]
        ops.append((kind, 'r', 'm', f) + tuple(enc(v) for v in vs))
        exp.append((f, vs, k == n))
    rep = ctx.run(ops)
    if crashed(ctx, rep, ops, 'calls %s' % [(f, len(v)) for f, v, _ in exp]):
        return
    parts, cur = [], []
    for e in rep.events[1:]:
        cur.append(e)
        if e[0] == 'end':
            parts.append(cur)
            cur = []
    for (f, vs, ok), ev in zip(exp, parts):
        em = [e[1] for e in ev if e[0] == 'e']
        ctx.seen(('call', f, repr(vs)), True)
        ctx.kind('call', (f, len(vs)))
        want = {'echo': vs, 'two': vs, 'void2': [('a', tuple(reversed(vs)))]}.get(f, []) if ok else []
        if ev[-1][1][1] != ('ok' if ok else 'err') or len(em) != len(want) or not all(eq(a, b) for a, b in zip(em, want)):
            ctx.violation('C23 call', 'the call of %s with %s gave %s, the script saw %s' % (f, [show(v) for v in vs], [show(x) for x in ev[-1][1:3]], [show(x) for x in em]), ops)


def case(ctx, rng, i):
    rng.choice((rounds, rounds, pops, pops, scripts, scripts, functions, functions, functions, counts))(ctx, rng)
