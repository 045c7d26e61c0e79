"""C20: loading any text ends with a module or an error message."""
import glob
import os

import gram
from wire import enc, show, st

PLAN = {'quick': (900, 300, 300), 'thorough': (40000, 6000, 2400)}
RULE = ('Texts of four kinds: derived at random from the grammar, token mutations of those and of the scripts in source/, and raw character strings; loaded '
        'twice into two equal modules that hold functions already. The same kinds of mutations applied to syntax rules, documents and data given to '
        'the library. Non-trivial: the verdict, the message and the functions of the module were compared; distinct by text.')
TECHNIQUE = 'crash monitor around the real loader; verdict, message and module contents of repeated loads compared'
NOTE = 'Texts with brackets nested deeper than 6 are not generated: the time to parse grows exponentially with the depth. A run of rules that does not end is not judged.'

BASE = ('fn twice(x: f64) -> f64 { return x * 2 }\nfn lst() {\n    fs := functions()\n    for i len(fs) {\n        if fs[i].type == "loaded" {\n            emit(fs[i].name)\n'
        '        }\n    }\n    emit(twice(21))\n}\n')
SRC = None
BATCH = 12


def sources():
    global SRC
    if SRC is None:
        SRC = []
        for p in sorted(glob.glob('/repo/source/**/*.dyon', recursive=True)):
            try:
                t = open(p, encoding='utf-8').read()
            except (OSError, UnicodeDecodeError):
                continue
            if len(t) < 1500:
                SRC.append(t)
    return SRC


def clean(t):
    """Without spaces other than ASCII, which are a known finding."""
    return ''.join('é' if c.isspace() and ord(c) > 127 else c for c in t).encode('utf-8', 'replace').decode('utf-8')


def text(r):
    x = r.random()
    if x < .35:
        t, k = gram.Gram(r).program(), 'derived'
    elif x < .45:
        t, k = gram.mutate(r, gram.Gram(r).program()), 'derived, mutated'
    elif x < .55:
        t, k = gram.Smart(r).program()[0], 'bound'
    elif x < .7:
        t, k = gram.mutate(r, gram.Smart(r).program()[0]), 'bound, mutated'
    elif x < .95:
        s = sources()
        t, k = gram.mutate(r, r.choice(s) if s else BASE), 'script, mutated'
    else:
        t, k = ''.join(r.choice(gram.ODD + ('a', ' ', '\n')) if r.random() < .7 else chr(r.randrange(1, 0x3000)) for _ in range(r.randint(0, 60))), 'characters'
    t = clean(t)
    if gram.deepest(t) > (6 if k in ('derived', 'bound') else 5) or len(t) > 3000:
        return text(r)
    return t, k


RULES = ('1 "doc" = .l({[.w? fn:"fn"] "b":!"bool"})\n', '10 list = .s!(", " item:"item")\n11 item = {.$:"num" .t!:"text" .._seps!:"name"}\n20 document = ["[" ?w list:"list" ?w "]"]\n',
         '_seps: "(){}[],.:;"\n1 word = [.._seps!:"word"]\n2 document = .l({word:"w" ["#" ..."\\n"?:"comment"]})\n',
         '1 a = {"x":"x" "y":!"x"}\n2 document = .r!([a:"a" .w?])\n', '100 document = [.w? "n" .$_:"num" ?[.w? "," .w? .$:"num2"] .w?]\n')
DOCS = ('[1, 2, "a"]', 'x y x', 'a b\n# c\nd', 'n 12, 3', '', '[a, b]', 'n 1e5', '[]', '\u00e9 x', '"')
DATA = ('1', '"a"', '[1, 2]', '{a: 1, b: [true]}', '(1, 2, 3)', 'none()', 'some(1)', '#ff0000', '-1', 'mat4 {1,0; 0,1}', 'link { 1 }', '[[], {}]', 'ok(1)', '{"a b": "c"}', '1e400')

META = ('fn rules(a: str, b: str) {\n    s := syntax(in: "r", string: a)\n    if is_err(s) {\n        emit(unwrap_err(s))\n    } else {\n'
        '        d := meta(syntax: unwrap(s), in: "d", string: b)\n        if is_err(d) {\n            emit(unwrap_err(d))\n        } else {\n'
        '            d := unwrap(d)\n            emit(json_from_meta_data(d))\n        }\n    }\n}\n'
        'fn data(a: str) {\n    d := load_data(string: a)\n    if is_err(d) {\n        emit(unwrap_err(d))\n    } else {\n        emit(unwrap(d))\n    }\n}\n')


def loads(i, t):
    out = []
    for c in 'pq':
        m = '%s%d' % (c, i)
        out += [('mod', m), ('load', m, 'base.dyon', BASE), ('load', m, 'a.dyon', t), ('rt', 'r'), ('call', 'r', m, 'lst')]
    return out


RECURSIVE = '1 document = [document "a"]\n'
PROBES = (('deep-negation', 'fn f() {\n    x := %s1\n}\n' % ('-' * 100000)), ('deep-type', 'fn f(x: %sf64%s) {}\n' % ('opt[' * 100000, ']' * 100000)),
          ('line-separator', 'fn f() { }\u2028\n'), ('recursive-rule', META))


def probes(ctx):
    """Inputs that are known to crash."""
    for name, t in PROBES:
        ops = [('mod', 'm'), ('load', 'm', 'a.dyon', t)]
        if t is META:
            ops += [('rt', 'r'), ('call', 'r', 'm', 'rules', enc(st(RECURSIVE)), enc(st('aa')))]
        rep = ctx.run(ops, crash_ok=True)
        if rep.died not in (None, 'hang', 'blocked') or any(e[0] in ('panic', 'abort') for e in rep.events):
            ctx.violation('C20-' + name, 'loading ended with %s\n%s' % (rep.died or [show(e[1]) for e in rep.events if e[0] == 'panic'], t[:200]), ops)


def case(ctx, rng, i):
    if i == 0:
        probes(ctx)
    if i % 4 == 3:
        return meta(ctx, rng)
    js = [text(rng) for _ in range(BATCH)]
    ops = [o for k, (t, _) in enumerate(js) for o in loads(k, t)]
    rep = ctx.run(ops)
    crash = [e for e in rep.events if e[0] in ('panic', 'abort')]
    if rep.died or crash:
        # Which one?
        for t, k in js:
            one = loads(0, t)
            rep = ctx.run(one)
            crash = [e for e in rep.events if e[0] in ('panic', 'abort')]
            if rep.died == 'hang' and gram.deepest(t) > 3:
                ctx.inconclusive('slow', t)
            elif rep.died or crash:
                ctx.violation('C20 crash', 'loading a text ended with %s\n%s' % (rep.died or [show(x) for x in crash[0][1:]], t), one)
                break
            else:
                judge(ctx, t, k, rep.events, one)
        return
    # Four loads per text.
    parts, n = [], 0
    for e in rep.events:
        if e[0] == 'load':
            if n % 4 == 0:
                parts.append([])
            n += 1
        if parts:
            parts[-1].append(e)
    if len(parts) != len(js) or n != 4 * len(js):
        ctx.inconclusive('loads missing', repr(rep.events[-2:]))
        return
    for (t, k), ev in zip(js, parts):
        judge(ctx, t, k, ev, loads(0, t))


def judge(ctx, t, k, ev, one):
    halves = [[], []]
    h = -1
    for e in ev:
        if e[0] == 'load':
            h += 1
        halves[h // 2].append(e)
    a, b = halves
    la, lb = [[e for e in x if e[0] == 'load'] for x in halves]
    if la[0][1][1] != 'ok' or lb[0][1][1] != 'ok':
        ctx.inconclusive('base rejected')
        return
    ctx.seen(t, True)
    ctx.cov[k] += 1
    va, vb = (la[1][1][1], la[1][2][1]), (lb[1][1][1], lb[1][2][1])
    ctx.cov['accepted' if va[0] == 'ok' else 'rejected'] += 1
    if va[0] != 'ok':
        ctx.kind('messages', kindof(va[1]))
    ctx.sample('%s\n%s' % (va, t))
    if va != vb:
        ctx.violation('C20 differs', 'two loads of a text gave %s and %s\n%s' % (va, vb, t), one)
        return
    if va[0] != 'ok':
        if not va[1].strip():
            ctx.violation('C20 message', 'a text was rejected without a message\n' + t, one)
        for x in halves:
            got = [show(e[1]) for e in x if e[0] == 'e']
            end = [e for e in x if e[0] == 'end']
            if got != ["'twice'", "'lst'", '42.0'] and got != ["'lst'", "'twice'", '42.0'] or not end or end[0][1][1] != 'ok':
                ctx.violation('C20 module', 'after a failed load the module has functions %s (%s)\n%s' % (got, [show(y) for e in end for y in e[1:]], t), one)
                return


def kindof(m):
    for l in m.split('\n')[1:]:
        if l.strip():
            l = l.strip()
            return 'syntax' if l.startswith('Error #') else ''.join(c for c in l if c.isalpha() or c == ' ').split('  ')[0][:24]
    return m[:20]


def meta(ctx, r):
    calls = []
    for _ in range(10):
        if r.random() < .6:
            a, b = r.choice(RULES), r.choice(DOCS)
            if r.random() < .5:
                a = gram.mutate(r, a)
            if r.random() < .5:
                b = gram.mutate(r, b)
            calls.append(('rules', clean(a), clean(b)))
        else:
            a = r.choice(DATA)
            if r.random() < .7:
                a = gram.mutate(r, a if r.random() < .5 else '[%s, %s]' % (a, r.choice(DATA)))
            calls.append(('data', clean(a)))
    for c in calls:
        ops = [('mod', 'm'), ('load', 'm', 'a.dyon', META), ('rt', 'r')] + [('call', 'r', 'm', c[0]) + tuple(enc(st(x)) for x in c[1:])] * 2
        rep = ctx.run(ops)
        crash = [e for e in rep.events if e[0] in ('panic', 'abort')]
        if rep.died == 'hang' or rep.died == 'signal 6' and c[0] == 'rules':
            # Rules that call themselves without reading anything: a known finding.
            ctx.inconclusive('endless rules', repr(c))
            continue
        if rep.died or crash:
            ctx.violation('C20 crash', 'parsing ended with %s\n%s' % (rep.died or [show(x) for x in crash[0][1:]], '\n----\n'.join(c)), ops)
            continue
        got = [show(e[1], 10000) for e in rep.events if e[0] == 'e']
        ends = [e for e in rep.events if e[0] == 'end']
        if len(ends) != 2 or ends[0][1][1] != ends[1][1][1] or len(got) % 2 or got[:len(got) // 2] != got[len(got) // 2:]:
            ctx.violation('C20 differs', 'two runs on the same text gave %s %s\n%s' % (got, [show(e[1]) for e in ends], '\n----\n'.join(c)), ops)
            continue
        ctx.seen(c, True)
        ctx.cov[c[0]] += 1
