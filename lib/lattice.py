"""Ways to carry a reference crossed with places that outlive it (C17)."""

# Template (@: what is carried), its value, whether it copies.
def ife(i):
    return lambda v, c, d: [v if c else '[2.0]', '[2.0]' if c else v, '[2.0]' if c else v if d else '[3.0]',
                            '[2.0]' if c else '[4.0]' if d else v][i]


CARRY = [
    ('@', lambda v, c, d: v, 0),
    ('[@]', lambda v, c, d: '[%s]' % v, 0),
    ('[0, @]', lambda v, c, d: '[0.0, %s]' % v, 0),
    ('[@, 0]', lambda v, c, d: '[%s, 0.0]' % v, 0),
    ('{p: @}', lambda v, c, d: '{p: %s}' % v, 0),
    ('{q: 1, p: [@]}', lambda v, c, d: '{p: [%s], q: 1.0}' % v, 0),
    ('[@; 2]', lambda v, c, d: '[%s, %s]' % (v, v), 0),
    ('if c { @ } else { [2] }', ife(0), 0),
    ('if c { [2] } else { @ }', ife(1), 0),
    ('if c { [2] } else if d { @ } else { [3] }', ife(2), 0),
    ('if c { [2] } else if d { [4] } else { @ }', ife(3), 0),
    ('{ @ }', lambda v, c, d: v, 0),
    ('(@)', lambda v, c, d: v, 0),
    ('id2(@)', lambda v, c, d: v, 0),
    ('two([3], @)', lambda v, c, d: '[[3.0], %s]' % v, 0),
    ('pick(@)', lambda v, c, d: v, 0),
    ('sift i 2 { @ }', lambda v, c, d: '[%s, %s]' % (v, v), 0),
    ('some(@)', lambda v, c, d: 'some(%s)' % v, 1),
    ('ok(@)', lambda v, c, d: 'ok(%s)' % v, 1),
    ('try @', lambda v, c, d: 'ok(%s)' % v, 1),
    ('clone(@)', lambda v, c, d: v, 1),
    ('[clone(@)]', lambda v, c, d: '[%s]' % v, 1),
    ('unwrap(some(@))', lambda v, c, d: v, 1),
    ('unwrap_or(none(), @)', lambda v, c, d: v, 1),
    ('wr(@)', lambda v, c, d: '[%s]' % v, 1),
    ('\\fc(@)', lambda v, c, d: '[%s]' % v, 1),
]
PRE = ("fn id2(a: 'return) -> {\n    return a\n}\nfn two(a, b: 'return) -> {\n    return [clone(a), b]\n}\n"
       "fn pick(a: 'return) -> {\n    if rnd() {\n        return a\n    }\n    return a\n}\nfn rnd() -> bool {\n    return true\n}\n"
       "fn st(mut a: [], b: 'a) {\n    a[0] = b\n}\nfn sp(mut a: {}, b: 'a) {\n    a.p = b\n}\nfn wr(a) -> {\n    return [clone(a)]\n}\n"
       "fn junk() {\n    j0 := [11]\n    j1 := [12]\n    j2 := [13, 14]\n    emit_id(99, [j0, j1, j2])\n}\n")
FC = '    fc := \\(z: any) = [clone(z)]\n'
B = 'c: bool, d: bool'
# name: (unsound, sound, how to call with `C` for the conditions, value observed)
RET = '    emit_id(1, t(C))\n'
RETY = "    y := [1]\n    r := t(C, y)\n    junk()\n    emit_id(1, r)\n"
ARG = '    y := [1]\n    a := [[0]]\n    t(C, mut a, y)\n    junk()\n    emit_id(1, a)\n'
one = '[%s]'
SINKS = {
    'return': ('fn t(%s) -> {\nFC    x := [1]\n    return X\n}\n' % B, "fn t(%s, x: 'return []) -> {\nFC    return X\n}\n" % B, '    r := t(C)\n    junk()\n    emit_id(1, r)\n', RETY, '%s'),
    'return arg': ('fn t(%s, x: []) -> {\nFC    return X\n}\n' % B, None, RETY, None, '%s'),
    'return in branch': ('fn t(%s) -> {\nFC    x := [1]\n    if c {\n        if d {\n            return X\n        }\n        return X\n    }\n    return X\n}\n' % B, None, '    r := t(C)\n    junk()\n    emit_id(1, r)\n', None, '%s'),
    'return in loop': ('fn t(%s) -> {\nFC    for k 2 {\n        x := [1]\n        return X\n    }\n    return 0\n}\n' % B, None, '    r := t(C)\n    junk()\n    emit_id(1, r)\n', None, '%s'),
    'return =': ('fn t(%s) -> {\nFC    x := [1]\n    return = X\n}\n' % B, "fn t(%s, x: 'return []) -> {\nFC    return = X\n}\n" % B, '    r := t(C)\n    junk()\n    emit_id(1, r)\n', RETY, '%s'),
    'current to return': ('fn t(%s) ~ x: [] -> {\nFC    return X\n}\n' % B, None, '    ~ x := [1]\n    r := t(C)\n    junk()\n    emit_id(1, r)\n', None, '%s'),
    'outer': ('fn t(%s) {\nFC    o := [[0]]\n    if true {\n        x := [1]\n        o[0] = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
              'fn t(%s) {\nFC    x := [1]\n    o := [[0]]\n    if true {\n        o[0] = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '[%s]'),
    'outer, for': ('fn t(%s) {\nFC    o := [[0]]\n    for k 1 {\n        x := [1]\n        o[0] = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
                   'fn t(%s) {\nFC    x := [1]\n    o := [[0]]\n    for k 1 {\n        o[0] = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '[%s]'),
    'outer, loop': ('fn t(%s) {\nFC    o := {p: 0}\n    loop {\n        x := [1]\n        o.p = X\n        break\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
                    'fn t(%s) {\nFC    x := [1]\n    o := {p: 0}\n    loop {\n        o.p = X\n        break\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '{p: %s}'),
    'variable': ('fn t(%s) {\nFC    o := blur([0])\n    if true {\n        x := [1]\n        o = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
                 'fn t(%s) {\nFC    x := [1]\n    o := blur([0])\n    if true {\n        o = X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '%s'),
    'insert': ('fn t(%s) {\nFC    o := {}\n    if true {\n        x := [1]\n        o.p := X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
               'fn t(%s) {\nFC    x := [1]\n    o := {}\n    if true {\n        o.p := X\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '{p: %s}'),
    'argument': ('fn t(%s, mut a: [], y: []) {\nFC    x := [1]\n    a[0] = X\n}\n' % B, "fn t(%s, mut a: [], x: 'a []) {\nFC    a[0] = X\n}\n" % B, ARG, ARG, '[%s]'),
    'argument to argument': ('fn t(%s, mut a: [], x: []) {\nFC    a[0] = X\n}\n' % B, None, ARG, None, '[%s]'),
    'current': ('fn t(%s) ~ mut cu: [] {\nFC    x := [1]\n    cu[0] = X\n}\n' % B, None, '    ~ cu := [[0]]\n    t(C)\n    junk()\n    emit_id(1, cu)\n', None, '[%s]'),
    'argument to current': ('fn t(%s, x: []) ~ mut cu: [] {\nFC    cu[0] = X\n}\n' % B, None, '    ~ cu := [[0]]\n    y := [1]\n    t(C, y)\n    junk()\n    emit_id(1, cu)\n', None, '[%s]'),
    'block': ('fn t(%s) {\nFC    y := if true {\n        x := [1]\n        X\n    } else {\n        [5]\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B,
              'fn t(%s) {\nFC    x := [1]\n    y := if true {\n        X\n    } else {\n        [5]\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B, '    t(C)\n', '    t(C)\n', '%s'),
    'else if': ('fn t(%s) {\nFC    y := if false {\n        [5]\n    } else if true {\n        x := [1]\n        X\n    } else {\n        [5]\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B,
                'fn t(%s) {\nFC    x := [1]\n    y := if false {\n        [5]\n    } else if true {\n        X\n    } else {\n        [5]\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B, '    t(C)\n', '    t(C)\n', '%s'),
    'else': ('fn t(%s) {\nFC    y := if false {\n        [5]\n    } else {\n        x := [1]\n        X\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B,
             'fn t(%s) {\nFC    x := [1]\n    y := if false {\n        [5]\n    } else {\n        X\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B, '    t(C)\n', '    t(C)\n', '%s'),
    'sift': ('fn t(%s) {\nFC    y := sift k 1 {\n        x := [1]\n        X\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B,
             'fn t(%s) {\nFC    x := [1]\n    y := sift k 1 {\n        X\n    }\n    junk()\n    emit_id(1, y)\n}\n' % B, '    t(C)\n', '    t(C)\n', '[%s]'),
    'short': ('t(%s, x: []) = X\n' % B, "t(%s, x: 'return []) = X\n" % B, RETY, RETY, '%s'),
    'call': ('fn t(%s, mut a: [], y: []) {\nFC    x := [1]\n    st(mut a, X)\n}\n' % B, "fn t(%s, mut a: [], x: 'a []) {\nFC    st(mut a, X)\n}\n" % B, ARG, ARG, '[%s]'),
    'call, object': ('fn t(%s) {\nFC    o := {p: 0}\n    if true {\n        x := [1]\n        sp(mut o, X)\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B,
                     'fn t(%s) {\nFC    x := [1]\n    o := {p: 0}\n    if true {\n        sp(mut o, X)\n    }\n    junk()\n    emit_id(1, o)\n}\n' % B, '    t(C)\n', '    t(C)\n', '{p: %s}'),
    'push_ref': ('fn t(%s, mut a: [], y: []) {\nFC    x := [1]\n    pop(mut a)\n    push_ref(mut a, X)\n}\n' % B, "fn t(%s, mut a: [], x: 'a []) {\nFC    clear(mut a)\n    push_ref(mut a, X)\n}\n" % B, ARG, ARG, '[%s]'),
    'insert_ref': ('fn t(%s, mut a: [], y: []) {\nFC    x := [1]\n    clear(mut a)\n    insert_ref(mut a, 0, X)\n}\n' % B, "fn t(%s, mut a: [], x: 'a []) {\nFC    clear(mut a)\n    insert_ref(mut a, 0, X)\n}\n" % B, ARG, ARG, '[%s]'),
    'closure': ('fn t(%s) {\n    f := \\(x: []) = X\n    y := \\f([1])\n    junk()\n    emit_id(1, y)\n}\n' % B, None, '    t(C)\n', None, '%s'),
}
NOCLO = ('short', 'closure')


def make(r):
    """Text, (name of the sink, chain), whether it must be rejected, and the trace expected when it is accepted."""
    sink = r.choice(sorted(SINKS))
    bad, good, cb, cg, outer = SINKS[sink]
    sound = good is not None and r.random() < .35
    e, v, copies, chain = 'x', lambda c, d: '[1.0]', False, []
    for _ in range(r.choice((1, 1, 2, 2, 3))):
        t, f, k = CARRY[r.randrange(len(CARRY))] if r.random() < .3 else CARRY[r.randrange(17)]
        if sink in NOCLO and '\\' in t or len(chain) and t == '@':
            continue
        chain.append(t)
        e = t.replace('@', e)
        v = (lambda f, v: lambda c, d: f(v(c, d), c, d))(f, v)
        copies = copies or bool(k)
    t = (good if sound else bad).replace('FC', FC if '\\fc' in e else '').replace('X', e)
    main, exp = '', []
    combos = [(a, b) for a in (True, False) for b in (True, False)]
    for n, (c, d) in enumerate(combos):
        main += 'fn run%d() {\n%s}\n' % (n, (cg if sound else cb).replace('C', '%s, %s' % (str(c).lower(), str(d).lower())))
        exp.append(outer % v(c, d))
    return PRE + t + main, (sink, tuple(chain)), not sound and not copies, sound and len(chain) == 1 and chain[0] in ('@', '[@]', '(@)'), exp
