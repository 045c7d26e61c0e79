"""C25: error reports point at the failing place and call path."""
import re
import places
import stdlib
from wire import enc, show, num, st

PLAN = {'quick': (9000, 300, 300), 'thorough': (300000, 6000, 2400)}
RULE = ('Random call chains of 1 to 7 functions over 1 to 4 files (imported, or loaded into one module), through plain and mutable calls, aliases, closures and `?` propagation, inside loops, branches, '
        'literals and arguments, with comments, blank lines, text of several bytes per character, finished calls and caught errors around them, ending in one of 30 failing constructs; the error of '
        'the call, of `try` and of `join` is parsed. Also texts with one of 20 mistakes that the loader must report, in one of several files. Also faults in about 120 places of an expression (lib/places.py). Non-trivial: a chain of 2 or more functions or a text '
        'after another file; distinct by texts.')
TECHNIQUE = 'report monitor: the generator records line and column of the failing construct and the chain of calls; call path, files, positions and quoted lines of the real message are compared with the record'
NOTE = ('The position must lie within the failing construct. Columns count bytes (a dependency prints them), so text of several bytes per character stands on other lines than the construct.')

# Failing expressions: text, and what must be declared before.
RUN = [
    ('clone(ar[9])', 'ar'), ('clone(ar[i9])', 'ar i9'), ('clone(ob.nokey)', 'ob'), ('clone(ob["nokey"])', 'ob'), ('clone(ar2[0][7])', 'ar2'), ('clone(ob2.a.b)', 'ob2'),
    ('unwrap(none())', ''), ('unwrap(err("e1"))', ''), ('unwrap_err(ok(1))', ''), ('pop(mut em)', 'em'), ('remove(mut ar, 8)', 'ar'), ('fail_ret("f1")', ''),
    ('blur(1) + blur("a")', ''), ('blur("a") * blur(2)', ''), ('blur([1]) - blur(2)', ''), ('len(blur(3))', ''), ('sqrt(blur("q"))', ''), ('abs(blur([]))', ''),
    ('-blur("s")', ''), ('!blur(1)', ''), ('keys(blur(1))', ''), ('chars(blur(1))', ''), ('trim(blur(1))', ''), ('x(blur(1))', ''),
    ('has(blur(1), "a")', ''), ('has(ob, blur(1))', 'ob'), ('parse_number(blur(2))', ''), ('why(blur(1))', ''), ('blur(1) ^ blur("a")', ''), ('det(blur(1))', ''),
]
# Failing statements; the span of the construct is marked by «».
STMT = [
    ('«nn = blur("t")»', 'nn'), ('«ar[7] = 2»', 'ar'), ('«ob.zz = 2»', 'ob'), ('if «blur(1)» {', ''), ('for i «blur("n")» {', ''), ('«fail("f2")»', ''), ('«swap(mut ar, 0, 9)»', 'ar'),
    ('«insert(mut ar, 9, 1)»', 'ar'), ('«nn += blur("a")»', 'nn'), ('«ar[6] += 2»', 'ar'), ('«nn -= blur(true)»', 'nn'), ('«push(mut bl, 1)»', 'bl'),
]
# Failures of library functions and operators whose report gives only the place, without a call path.
PLACE = {'!blur(1)', '«fail("f2")»', 'pop(mut em)', 'blur(1) + blur("a")', 'unwrap(none())', '«push(mut bl, 1)»', 'blur("a") * blur(2)', 'remove(mut ar, 8)', '«swap(mut ar, 0, 9)»',
         '«insert(mut ar, 9, 1)»', 'blur(1) ^ blur("a")', 'fail_ret("f1")', 'len(blur(3))', 'blur([1]) - blur(2)', '-blur("s")'}
DECL = {'ar': 'ar := [1, 2]', 'i9': 'i9 := 9', 'ob': 'ob := {k: 1}', 'ar2': 'ar2 := [[1]]', 'ob2': 'ob2 := {a: {c: 1}}', 'em': 'em := []', 'nn': 'nn := 1', 'bl': 'bl := blur(1)'}
NOISE = ['// comment', '// commentaire é€𝕏', '', '', '/* one */', '/* two\n   lines ü */', '\t', '   ']
# Texts that the loader rejects, the construct marked by «».
LOAD = [
    ('emit(«nofn(1)»)', ''), ('emit(«novar»)', ''), ('emit(«abs(1, 2)»)', ''), ('emit(«sqrt("a")»)', ''), ('emit(«tn(true)»)', ''), ('emit(«1 + "a"»)', ''),
    ('«push(mut novar, 1)»', ''), ('emit(«len(2)»)', ''), ('emit(«good(1, 2)»)', ''), ('«good(1)»', ''), ('emit(«void(1)»)', ''), ('«novar = 2»', ''),
    ('emit(«good("a")»)', ''), ('«emit(1)) »', ''), ('if «1» {\n}', ''), ('emit(«[1»)', ''), ('emit(«"open»)', ''),
    ('«mutf(1)»', ''), ('emit(«~ nocur»)', ''),
]


class File:
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns
        self.lines = ['ns ' + ns] if ns else []

    def add(self, text):
        self.lines += text.split('\n')

    def noise(self, r, k=2):
        for _ in range(r.randint(0, k)):
            self.add(r.choice(NOISE))

    def text(self):
        return '\n'.join(self.lines) + '\n'


class Gen:
    def __init__(self, r):
        self.r = r

    def mark(self, f, line):
        """Adds a line with a marked construct; returns its position."""
        a, b = line.index('«'), line.index('»') - 1
        t = line.replace('«', '').replace('»', '')
        n = len(f.lines) + 1
        f.add(t)
        return f.name, n, a + 1, n + t.count('\n'), b + 1 if '\n' not in line[a:b] else 10 ** 6, t

    def quiet(self, f, ind):
        """Statements that leave no trace."""
        r = self.r
        for _ in range(r.randint(0, 2)):
            f.noise(r, 1)
            self.k += 1
            f.add(ind + r.choice(('q%d := good(2)' % self.k, 'q%d := try boom(%d)' % (self.k, self.k), 'for z%d 2 {\n%s    void(1)\n%s}' % (self.k, ind, ind),
                                  'q%d := good(good(1))' % self.k, 'q%d := \\(x: f64) = good(x)\n%sq%db := \\q%d(3)' % (self.k, ind, self.k, self.k), 'void(%d)' % self.k,
                                  'q%d := is_err(deep(%d))' % (self.k, self.k), 'q%d := try unwrap(deep(%d))' % (self.k, self.k))))

    def wrap(self, f, expr, ind, depth=0):
        """Puts the marked expression somewhere inside the body; returns its position."""
        r = self.r
        z = r.random()
        if z < .25 and depth < 3:
            self.k += 1
            f.add(ind + r.choice(('for y%d 2 {' % self.k, 'if true {', 'loop {', 'if 1 == 2 {\n%s    void(1)\n%s} else {' % (ind, ind), 'for y%d [1, 3) {' % self.k, '{')))
            self.quiet(f, ind + '    ')
            p = self.wrap(f, expr, ind + '    ', depth + 1)
            f.add(ind + '}')
            return p
        self.k += 1
        v = 'v%d' % self.k
        t = r.choice(('%s := EE', '%s := EE', '%s := [1, EE]', '%s := {k: EE}', '%s := [EE, 2, 3]', '%s := some(EE)', '%s := 1 + idn(EE)', 'emit(EE)', 'emit([EE])', '%s := idn(EE)', '%s := idn(idn(EE))',
                      '%s := idn(good(1) + idn(EE))', '%s := if true {EE} else {2}', '%s := good(1) + idn(EE)', '%s := sum y 3 {idn(EE)}', '%s := [[EE], 1]'))
        t = (t % v if '%s' in t else t).replace('EE', '«%s»' % expr)
        return self.mark(f, ind + t)

    def program(self):
        r = self.r
        nf = r.randint(1, 4)
        one = r.random() < .3       # several files in one module
        files = [File('f%d%s' % (i, r.choice(('.dyon', '', ' x.dyon', 'é'))), 'n%d' % i if r.random() < .5 else '') for i in range(nf)]
        n = r.randint(1, 7)
        # Level n - 1 fails; level 0 is called by the host.
        home = sorted(r.randrange(nf) for _ in range(n))
        home.reverse()
        self.k = 0
        uses = {}
        for f in files:
            f.uses_at = len(f.lines)
        bodies = []
        self.one = one
        # The functions without traces are in the first file.
        f = files[0]
        al = {}
        for i, f in enumerate(files):
            # Aliases of the namespaces of other files below.
            c = [g for g in files[:i] if g.ns]
            if c and r.random() < .6:
                g = r.choice(c)
                al[f] = (g, 'al%d' % i)
                f.add('use %s as al%d' % (g.ns, i))
        f = files[0]
        f.noise(r)
        f.add('fn good(x: f64) -> f64 {\n    return x + 1\n}')
        f.add('fn void(x: f64) {\n    y := x\n}')
        f.add('fn idn(x: any) -> any {\n    return clone(x)\n}')
        f.add('fn boom(x: f64) -> any {\n    fail("not this")\n    return 1\n}')
        f.add('fn deep(x: f64) -> res {\n    return err("nor this")\n}')
        f.add('fn mutf(mut x: f64) {\n    x = 2\n}')
        order = list(range(n - 1, -1, -1))
        prop = set()        # functions that return err and propagate it
        np = 0
        if n > 1 and r.random() < .4:
            np = r.randint(1, n - 1)
        names = ['g%d' % i for i in range(n)]
        path = [None] * n
        poss = []
        kinds = [None] * n
        for i in order:
            kinds[i] = 'prop' if i >= n - np else r.choice(('plain', 'plain', 'plain', 'mut', 'closure'))
        kinds[0] = 'plain' if kinds[0] == 'mut' else kinds[0]
        hops = []
        for i in order:
            f = files[home[i]]
            f.noise(r)
            k = kinds[i]
            nm = names[i]
            last = i == n - 1
            if k == 'prop':
                f.add('fn %s(a: any) -> res {' % nm)
            elif k == 'mut':
                f.add('fn %s(mut m: any, a: any) -> any {' % nm)
            else:
                f.add('fn %s(a: any) -> any {' % nm)
            self.quiet(f, '    ')
            if last and k == 'prop':
                f.add('    return err("boom")')
            elif last:
                self.fail(f, poss, k)
            else:
                g = files[home[i + 1]]
                callee = names[i + 1]
                ck = kinds[i + 1]
                if g is not f and al.get(f, (None,))[0] is g and r.random() < .7 and ck != 'mut':
                    callee = '%s::%s' % (al[f][1], callee)
                if ck == 'prop' and k == 'prop':
                    p = self.wrap(f, '%s(%d)?' % (callee, r.randint(0, 9)), '    ') if r.random() < .6 else self.mark(f, '    v := «%s(2)?»' % callee)
                    hops.append((nm, f.name, p))
                elif ck == 'prop':
                    p = self.wrap(f, r.choice(('unwrap(%s(%d))', 'unwrap(%s(%d))')) % (callee, r.randint(0, 9)), '    ')
                    poss.append(p)
                elif ck == 'mut':
                    f.add('    mv := 1')
                    self.wrap(f, '%s(mut mv, 2)' % callee, '    ')
                elif k == 'closure':
                    f.add('    cc := \\(x: any) = %s' % r.choice(('%s(x)', '1 + %s(x)', 'idn(%s(x))')) % callee)
                    self.wrap(f, '\\cc(3)', '    ')
                else:
                    self.wrap(f, '%s(%s)' % (callee, r.choice(('1', 'a', '[1]', 'good(1)'))), '    ')
            self.quiet(f, '    ')
            f.add('    return %s' % ('ok(1)' if k == 'prop' else '5'))
            f.add('}')
        path = []
        for i in range(n):
            if kinds[i] == 'prop':
                break
            path.append((names[i] + ('(mut,_)' if kinds[i] == 'mut' else ''), files[home[i]].name))
            if kinds[i] == 'closure' and i + 1 < n and kinds[i + 1] not in ('prop', 'mut'):
                path.append(('cc', files[home[i]].name))
        self.files, self.path, self.hops = files, path, hops
        self.pos = [(p, None) for p in poss]
        self.entry = files[home[0]]
        self.kinds = kinds
        self.poss = poss
        self.home = home

    def fail(self, f, poss, k):
        r = self.r
        if r.random() < .3:
            t, ds = r.choice(STMT)
            for d in ds.split():
                f.add('    ' + DECL[d])
            f.noise(r, 1)
            poss.append(self.mark(f, '    ' + t))
            if t.endswith('{'):
                f.add('        void(1)\n    }')
            self.failing = t
        else:
            t, ds = r.choice(RUN)
            for d in ds.split():
                f.add('    ' + DECL[d])
            f.noise(r, 1)
            poss.append(self.wrap(f, t, '    '))
            self.failing = t


POS = re.compile(r'^(\d+),(\d+): (.*)$')
HOP = re.compile(r'^In function `(.*)` \((.*)\)$')


def parse(msg):
    """(call path, hops, positions) of a message."""
    ls = msg.split('\n')
    path = []
    i = 0
    while i < len(ls) and ls[i]:
        m = re.match(r'^([^ ]+) \((.*)\)$', ls[i])
        if not m:
            path = None     # the report starts with the message
            i = -1
            break
        path.append((m.group(1), m.group(2)))
        i += 1
    hops, pos = [], []
    i += 1
    while i < len(ls):
        m = HOP.match(ls[i])
        if m:
            hops.append([m.group(1), m.group(2), len(pos)])
        m = POS.match(ls[i])
        if m:
            caret = i + 1 < len(ls) and POS.match(ls[i + 1])
            pos.append((int(m.group(1)), int(m.group(2)), m.group(3)))
            if caret and caret.group(3).strip() == '^':
                pos[-1] += (caret.group(3).index('^') + 1,)
                i += 1
        i += 1
    return path, hops, pos


def wrongpos(p, want):
    """Why a printed position is not within the construct."""
    name, l1, c1, l2, c2, text = want
    if not l1 <= p[0] <= l2:
        return 'line %d instead of %d' % (p[0], l1)
    if l1 == l2 and not c1 <= p[1] <= c2:
        return 'column %d instead of %d to %d' % (p[1], c1, c2)
    if l1 == l2 and p[2].strip() and p[2].strip() not in text:
        return 'the line %r is quoted instead of %r' % (p[2], text)
    if l1 == l2 and (len(p) < 4 or text[:c2] and p[2][p[3] - 1:p[3]] != text[p[1] - 1:p[1]]):
        return 'the caret is not under column %d' % p[1]
    return None


def running(ctx, r):
    g = Gen(r)
    g.program()
    ops = [('limit', 100000), ('rt', 'r')]
    if g.one:
        ops += [('mod', 'm')] + [('load', 'm', f.name, f.text()) for f in g.files]
        m = 'm'
    else:
        for i, f in enumerate(g.files):
            ops += [('mod', 'm%d' % i)] + ([('import', 'm%d' % i, 'm%d' % (i - 1))] if i else []) + [('load', 'm%d' % i, f.name, f.text())]
        m = 'm%d' % (len(g.files) - 1)
    top = r.choice(('call', 'try', 'join'))
    head = []
    if top == 'call':
        ops.append(('callret', 'r', m, 'g0', enc(num(1))))
    else:
        t = 'fn top() -> any {\n    return unwrap_err(try g0(1))\n}\n' if top == 'try' else 'fn top() -> any {\n    th := go g0(1)\n    return unwrap_err(join(thread: th))\n}\n'
        ops += [('load', m, 'top.dyon', t), ('callret', 'r', m, 'top')]
        head = [('top', 'top.dyon')]
    if g.kinds[0] == 'prop':
        return
    text = '\n'.join('# %s\n%s' % (f.name, f.text()) for f in g.files)
    rep = ctx.run(ops)
    if rep.died or any(e[0] in ('panic', 'abort') for e in rep.events):
        if rep.died == 'hang':
            return ctx.inconclusive('slow', text)
        return ctx.violation('C25 crash', 'the run ended with %s\n%s' % (rep.died or 'panic', text), ops)
    for e in rep.events:
        if e[0] == 'load' and e[1][1] != 'ok':
            return ctx.inconclusive('rejected', show(e[2], 900) + text)
    fin = rep.events[-1]
    ok = fin[1][1]
    if top == 'call' and ok != 'err' or top != 'call' and (ok != 'ok' or fin[2][0] != 's'):
        return ctx.inconclusive('did not fail', '%s %s' % (show(fin[2]), text))
    msg = fin[2][1]
    z = parse(msg)
    ctx.seen(text, len(g.kinds) > 1)
    ctx.kind('failing construct', getattr(g, 'failing', 'err'))
    ctx.kind('chain', '/'.join(g.kinds))
    ctx.cov['positions compared'] += len(g.poss) + len(g.hops)
    ctx.cov['frames compared'] += len(g.path)
    full = '\nmessage:\n%s\n%s' % (msg, text)
    want = head + g.path
    if z[0] != want and not (z[0] is None and getattr(g, 'failing', None) in PLACE):
        return ctx.violation('C25 path', 'the call path is %s, expected %s%s' % (z[0], want, full), ops)
    _, hops, pos = z
    wpos = [p for _, _, p in g.hops] + g.poss
    if [tuple(h[:2]) for h in hops] != [h[:2] for h in g.hops]:
        return ctx.violation('C25 hops', 'the error passed through %s, expected %s%s' % (hops, [h[:2] for h in g.hops], full), ops)
    if len(pos) != len(wpos):
        return ctx.violation('C25 count', '%d positions are printed, expected %d%s' % (len(pos), len(wpos), full), ops)
    for p, w in zip(pos, wpos):
        e = wrongpos(p, w)
        if e:
            return ctx.violation('C25 position', '%s: %s%s' % (w[0], e, full), ops)


def loading(ctx, r):
    g = Gen(r)
    g.k = 0
    f = File(r.choice(('a.dyon', 'b c.dyon', 'é')), 'n1' if r.random() < .3 else '')
    f.noise(r)
    f.add('fn good(x: f64) -> f64 {\n    return x + 1\n}')
    f.add('fn void(x: f64) {\n    y := x\n}')
    f.add('fn idn(x: any) -> any {\n    return clone(x)\n}')
    f.add('fn boom(x: f64) -> any {\n    fail("not this")\n    return 1\n}')
    f.add('fn deep(x: f64) -> res {\n    return err("nor this")\n}')
    f.add('fn mutf(mut x: f64) {\n    x = 2\n}')
    f.noise(r)
    f.add('fn t() {')
    g.quiet(f, '    ')
    ind = '    '
    n = r.randint(0, 2)
    for j in range(n):
        f.add(ind + r.choice(('if true {', 'for w%d 2 {' % j, '{')))
        ind += '    '
    t, ds = r.choice(LOAD)
    if '\n' in t:
        t = t.replace('\n', '\n' + ind)
    if n and t == '«good(1)»':
        return
    p = g.mark(f, ind + t)
    for j in range(n):
        ind = ind[4:]
        f.add(ind + '}')
    g.quiet(f, '    ')
    f.add('}')
    f.noise(r)
    ops = [('limit', 100000), ('rt', 'r'), ('mod', 'm0')]
    k = r.randint(0, 2)
    for j in range(k):
        o = File('other%d.dyon' % j, '')
        o.noise(r, 9)
        o.add('fn oth%d() {\n    x := 1\n}' % j)
        ops.append(('load', 'm0', o.name, o.text()))
    ops.append(('load', 'm0', f.name, f.text()))
    rep = ctx.run(ops)
    text = f.text()
    if rep.died or any(e[0] in ('panic', 'abort') for e in rep.events):
        return ctx.violation('C25 crash', 'the run ended with %s\n%s' % (rep.died or 'panic', text), ops) if rep.died != 'hang' else ctx.inconclusive('slow', text)
    e = rep.events[-1]
    if e[1][1] == 'ok':
        return ctx.inconclusive('accepted', t)
    msg = e[2][1]
    ctx.seen((text, k), k)
    ctx.kind('loader mistake', t)
    full = '\nmessage:\n%s\n%s' % (msg, text)
    if not msg.lstrip().startswith('In `%s' % f.name):
        return ctx.violation('C25 file', 'the message does not name the file %s%s' % (f.name, full), ops)
    z = [POS.match(l) for l in msg.split('\n')]
    z = [(int(m.group(1)), int(m.group(2)), m.group(3)) for m in z if m]
    if not z:
        return ctx.violation('C25 no position', 'no position is printed%s' % full, ops)
    bad = wrongpos(z[0] + ((z[1][2].index('^') + 1,) if len(z) > 1 and z[1][2].strip() == '^' else ()), p)
    if bad:
        return ctx.violation('C25 load position', '%s%s' % (bad, full), ops)


ARG_OK = {'f64': ('1', '0', '2.5'), 'str': ('"a"', '""', '"é"'), 'bool': ('true', 'false'), 'vec4': ('(1, 2)',), 'mat4': ('mat4 {1,2; 3,4}',), '[': ('[]',), '{}': ('{k: 1}', '{}'), 'opt': ('some(1)', 'none()'),
          'res': ('ok(1)', 'err(2)'), 'link': ('link { 1 }', 'link { }'), 'any': ('1', '"x"'), 'thr': ('go thr()',), 'in': ('in thr2',), 'sec': ('explain_why(true, "w")',)}
ARG_BAD = {'f64': ('"zz"', '[5]', '{}'), 'str': ('[5]', '7', 'true'), 'bool': ('"zz"', '1'), 'vec4': ('"zz"', '[1]'), 'mat4': ('"zz"', '[1]'), '[': ('"zz"', '5'), '{}': ('"zz"', '5'), 'opt': ('"zz"', '[]'),
           'res': ('"zz"', '[]'), 'link': ('5', '[]'), 'thr': ('"zz"', '5'), 'in': ('"zz"', '5'), 'sec': ('"zz"', '[]')}
ARG_SKIP = ('read_', 'load', 'save', 'download', 'sleep', 'print', 'eprint', 'debug', 'wait', 'args_os', 'backtrace', 'check_', 'syntax', 'meta', 'module', 'call')


def arg_key(t):
    return '[' if t[0] == '[' else t.split('[')[0]


ARGS = [(n, a, r, k) for n, a, r in stdlib.SIGS if not n.startswith(ARG_SKIP) for k in range(len(a)) if arg_key(a[k]) in ARG_BAD]


def argument(ctx, r, i):
    """A library function with one argument of another type, hidden from the loader: the report points at this argument or at the call, not at another argument."""
    name, args, ret, k = ARGS[i % len(ARGS)]
    bare, _, marks = name.partition('(')
    marks = marks[:-1].split(',') if marks else ['_'] * len(args)
    ls = ['fn thr() -> any {', '    return 5', '}', 'fn thr2(x: any) { }', 'fn nest(x: any) -> any {', '    return clone(x)', '}']
    ls += [l for _ in range(r.randint(0, 3)) for l in r.choice(NOISE).split('\n')] + ['fn t() {']
    es = []
    for j, t in enumerate(args):
        key = arg_key(t)
        v = r.choice(ARG_BAD[key] if j == k else ARG_OK.get(key, ('1',)))
        n = 'arg%d' % j
        ls.append('    %s := blur(%s)' % (n, v))
        mut = marks[j] == 'mut'
        plain = mut or key in ('thr', 'in', 'sec') or r.random() < .5
        es.append('«%s%s»' % ('mut ' if mut else '', n) if plain else '«%s»' % r.choice(('nest(%s)', 'nest(nest(%s))', 'clone(%s)')) % n)
    w, _, ns = bare.partition('__')
    call = '%s(%s)' % (w, ', '.join('%s: %s' % z for z in zip(ns.split('_'), es))) if ns else '%s(%s)' % (bare, ', '.join(es))
    text = '    ' + (call if ret == 'void' else r.choice(('z := %s', 'z := [1, %s]', 'z := {k: %s}')) % call)
    spans, out, c0 = [], '', text.index(w + '(') + 1
    for ch in text:
        if ch == '«':
            spans.append([len(out) + 1, 0])
        elif ch == '»':
            spans[-1][1] = len(out)
        else:
            out += ch
    ls.append(out)
    line = len(ls)
    ls.append('}')
    src = '\n'.join(ls) + '\n'
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', src), ('rt', 'r'), ('call', 'r', 'm', 't')]
    rep = ctx.run(ops)
    ld, end = rep.of('load'), rep.of('end')
    if not ld or ld[0][1][1] != 'ok' or not end or end[0][1][1] == 'ok':
        # Some take values of several types.
        ctx.cov['argument_not_failing'] += 1
        return
    msg = end[0][2][1]
    at = re.findall(r'^(\d+),(\d+): ', msg, re.M)
    ctx.seen(src)
    ctx.cov['argument_reports'] += 1
    ctx.kind('argument', '%s %d' % (name, k))
    d = None
    if not at:
        d = 'the report has no position'
    elif int(at[-1][0]) != line:
        d = 'the report points at line %s, the call is on line %d' % (at[-1][0], line)
    else:
        c = int(at[-1][1])
        if not (c0 <= c < spans[0][0] or spans[k][0] <= c <= spans[k][1] + 1):
            d = 'the report points at column %d, outside of argument %d (columns %d to %d) and of the name of the call' % (c, k, spans[k][0], spans[k][1])
    if d:
        ctx.violation('C25-argument', '%s\n%s\n\n%s' % (d, msg, src), ops)


HOLES = (('unwrap(look(b))', ('err', st('m'), ())), ('unwrap(look(b))', ('?', None)), ('f1(xs[look(b)])', num(7)), ('f1(os[look(b)].k)', num(7)),
         ('f1(o[look(b)])', st('zz')), ('f1(1 + look(b))', st('q')), ('f1(look(b) * 2)', st('q')), ('f1(-look(b))', st('q')), ('f1(xs[look(b)])', st('q')),
         ('f1(o[look(b)])', num(1)), ('f1(\\clo(1, 2, unwrap(look(b))))', ('?', None)), ('f1(s((1, 2), look(b)))', st('q')), ('f1(if look(b) {1} else {2})', num(1)),
         ('f1(sum j look(b) {1})', st('q')), ('f1(sum j 1 {unwrap(look(b))})', ('?', None)), ('fail_ret(str(look(b)))', num(1)))
WRONG = [k for k, p in enumerate(places.PLACES) if re.match(r'z := (mat4 \{E|mat4 \{@|\(@|\(E,)', p) and '*' not in p]


def place(ctx, r, k):
    """A fault in one of the places of an expression: the report points there."""
    if r.random() < .15:
        k = r.choice(WRONG)
        hole, v = r.choice(('look(b)', 'clone(look(b))')), r.choice((st('q'), ('?', None), ('a', ())))
    else:
        hole, v = r.choice(HOLES)
    text, before, line = places.program(r, k, hole, 't(b)')
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r'), ('callret', 'r', 'm', 'main', enc(v))]
    rep = ctx.run(ops)
    ld, end = rep.of('load'), rep.of('end')
    if not ld or ld[0][1][1] != 'ok':
        ctx.cov['place_not_loaded'] += 1
        return
    if not end or end[0][1][1] == 'ok':
        if not end or 'try' not in places.PLACES[k % len(places.PLACES)]:
            ctx.violation('C25-place', 'no error was reported\n%s' % text, ops)
        return
    msg = end[0][2][1]
    l = text.split('\n')[line - 1]
    c0 = l.index(hole) + 1
    c1 = c0 + len(hole)
    ctx.seen(text)
    ctx.cov['place_reports'] += 1
    ctx.kind('place', places.PLACES[k % len(places.PLACES)])
    at = re.findall(r'^(\d+),(\d+): ', msg, re.M)
    d = None
    if not at:
        d = 'the report has no position'
    elif int(at[-1][0]) != line or not c0 <= int(at[-1][1]) <= c1:
        d = 'the report points at %s,%s; what failed is on line %d, columns %d to %d' % (at[-1] + (line, c0, c1))
    if d:
        ctx.violation('C25-place', '%s\n%s\n\n%s' % (d, msg, text), ops)


def case(ctx, rng, i):
    if i % 6 == 2:
        return place(ctx, rng, i // 6)
    if i % 6 == 5:
        return argument(ctx, rng, i // 6)
    (loading if rng.random() < .25 else running)(ctx, rng)
