"""C22: names resolve to the intended function across modules."""
from wire import enc, show, num, st, boolean

PLAN = {'quick': (3000, 300, 300), 'thorough': (200000, 6000, 2400)}
RULE = ('Random sets of modules: namespaces, imports (also diamonds, several files loaded into one module, transitive modules), same-named functions that shadow each other and library '
        'functions, aliases of whole namespaces and of single, renamed functions, mutable and named-argument functions; every function logs its own tag and calls others directly, through '
        'an alias, in a thread, in a closure or while listened to. The tags of every run are compared with a resolver written from the rules; calls of missing functions and with a wrong '
        'number or type of arguments must be rejected when loading, and by name at run time. Non-trivial: a function that calls at least one other; distinct by module set.')
TECHNIQUE = 'trace monitor: every function body logs its identity; the logged call tree of each run is compared with an independent name resolver'
NOTE = 'Which of two different functions with one name in one namespace an alias selects is not specified and not generated.'

NAMES = ('f', 'g', 'h', 'k', 'q2')
LIBS = ('abs', 'trim', 'ceil', 'floor', 'sqrt', 'sin', 'explain_time')
NSS = ('na', 'nb', 'na::nc', 'std2', 'na::nb')
TY = ('f64', 'str', 'bool', '[f64]', 'any')
LIT = {'f64': ('1', '2.5'), 'str': ('"s"', '""'), 'bool': ('true', 'false'), '[f64]': ('[1, 2]', '[3]'), 'any': ('1', '"x"')}
BAD = {'f64': '"s"', 'str': '1', 'bool': '"s"', '[f64]': 'true'}


class Fn:
    def __init__(self, mod, name, args, mut, named, ns, ret):
        self.mod, self.name, self.args, self.mut, self.named, self.ns, self.ret = mod, name, args, mut, named, ns, ret
        self.tag = '%s/%s' % (mod, self.key())
        self.calls = []
        self.trace = None

    def base(self):
        return self.name + ''.join('__' + '_'.join(self.named) if self.named else '')

    def key(self):
        return self.base() + ('(' + ','.join('mut' if m else '_' for m in self.mut) + ')' if any(self.mut) else '')

    def compute(self):
        t = [self.tag]
        for how, tgt, _ in self.calls:
            t += tgt.trace
            if how.endswith('-in'):
                t.append(float(len(tgt.args)))
            t.append(tgt.code)
        self.trace = t


def argtexts(r, fn, ls, n):
    out = []
    for j, (t, m) in enumerate(zip(fn.args, fn.mut)):
        v = r.choice(LIT[t])
        if m:
            x = 'v%d_%d' % (n, j)
            ls.append('%s := %s' % (x, v))
            v = 'mut ' + x
        out.append(v)
    return out


def calltext(called, fn, args):
    """`called` is the name (maybe with an alias in front) to use for fn.name."""
    if fn.named:
        return '%s(%s)' % (called, ', '.join('%s: %s' % z for z in zip(fn.named, args)))
    return '%s(%s)' % (called, ', '.join(args))


class Lib:
    """A call of a library function through an alias."""
    trace, args = [], []

    def __init__(self, code):
        self.code = code


class Gen:
    def __init__(self, r):
        self.r, self.mods, self.count, self.neg, self.tags = r, [], 0, [], 0

    def newfn(self, mod, taken):
        r = self.r
        for _ in range(30):
            name = r.choice(NAMES) if r.random() < .8 else r.choice(LIBS)
            n = r.choice((0, 1, 1, 1, 2, 3))
            args = [r.choice(TY) for _ in range(n)]
            mut = [r.random() < .15 and name in NAMES for _ in args]
            named = r.sample(('d', 'e', 'w'), n) if n and r.random() < .15 and name in NAMES and not any(mut) else None
            f = Fn(mod, name, args, mut, named, '', True)
            if f.base() not in [x.base() for x in taken]:
                return f
        return None

    def uses(self, base):
        """`use` lines and the aliases they make, from the functions imported so far."""
        r = self.r
        al, lines = {}, []
        self.std = {}
        nss = sorted({f.ns for f in base if f.ns})
        for a in r.sample(('al', 'am', 'f'), r.randint(0, 3)):
            if not nss and r.random() < .7:
                continue
            ns = r.choice(nss) if nss and r.random() < .9 else r.choice(('std', 'nowhere'))
            fs = {}
            for f in base:
                if f.ns == ns:
                    fs.setdefault(f.key(), set()).add(f)
            amb = {k.split('(')[0] for k, v in fs.items() if len(v) > 1}
            here = al.setdefault(a, {})
            if ns == 'std':
                here['abs'] = None
                if r.random() < .5:
                    lines.append('use std as ' + a)
                    self.std[a] = {x: x for x in ('abs', 'push', 'unwrap_or', 'dot', 'floor')}
                else:
                    ren = {x: r.choice((x, x + '2', 'k')) for x in r.sample(('abs', 'push', 'unwrap_or', 'dot', 'floor'), 2)}
                    if len(set(ren.values())) < 2:
                        ren = {'abs': 'abs', 'push': 'pp'}
                    lines.append('use std::{%s} as %s' % (', '.join(x if x == y else '%s as %s' % (x, y) for x, y in ren.items()), a))
                    self.std[a] = ren
                for y in self.std[a].values():
                    here[y] = None
                continue
            if r.random() < .5:
                lines.append('use %s as %s' % (ns, a))
                for k, v in fs.items():
                    here[k] = list(v)[0] if k.split('(')[0] not in amb else 'amb'
                if r.random() < .3 and fs:
                    # A specific function over the whole namespace.
                    k = r.choice(sorted(fs))
                    b = k.split('(')[0]
                    to = [x for x in sorted(fs) if x.split('(')[0] == b]
                    nm = r.choice(NAMES)
                    if b not in amb and '__' not in b:
                        lines.insert(r.randint(0, len(lines)), 'use %s::{%s as %s} as %s' % (ns, b, nm, a))
                        for x in to:
                            here[nm + x[len(b):]] = list(fs[x])[0]
            else:
                pick, seen, items = sorted({k.split('(')[0] for k in fs}), set(), []
                for b in r.sample(pick, min(len(pick), r.randint(1, 3))):
                    nm = b
                    if r.random() < .5:
                        nm = r.choice(NAMES + ('zz', 'ff')) + ('__' + b.split('__')[1] if '__' in b else '')
                    if nm in seen or b in amb:
                        continue
                    seen.add(nm)
                    items.append(b if nm == b else '%s as %s' % (b, nm))
                    for x in fs:
                        if x.split('(')[0] == b:
                            here[nm + x[len(b):]] = list(fs[x])[0]
                if not items:
                    continue
                lines.append('use %s::{%s} as %s' % (ns, ', '.join(items), a))
        return lines, al

    def text(self, name, base, nfns=None):
        """A new file loaded where the functions `base` are visible: its text and functions."""
        r = self.r
        ns = r.choice(NSS) if r.random() < .65 else ''
        lines, al = self.uses(base)
        own = []
        for _ in range(nfns or r.randint(1, 4)):
            f = self.newfn(name, own)
            if f:
                f.ns = ns
                own.append(f)
        vis = {}
        for f in base:
            vis[f.key()] = f
        for f in own:
            vis[f.key()] = f
        done, texts = [], []
        for f in own:
            cand = [('plain', k, v) for k, v in vis.items() if v in done or v not in own]
            cand += [('alias', a + '::' + k, v) for a, d in al.items() for k, v in d.items() if isinstance(v, Fn)] * 2
            ls = []
            tot = 0
            for a, d in self.std.items():
                if r.random() < .5:
                    lib = r.choice(sorted(d))
                    self.count += 1
                    n, c = self.count, '%s::%s' % (a, d[lib])
                    if lib == 'push':
                        ls += ['w%d := [1]' % n, '%s(mut w%d, 2)' % (c, n), 'emit(len(w%d))' % n]
                        code = 2.0
                    elif lib == 'unwrap_or':
                        # The second argument is not needed, and not evaluated.
                        z = [v for how, k, v in cand if how == 'plain' and not v.named and not any(v.mut)]
                        z = r.choice(z) if z else None
                        ls.append('emit(%s(some(4), %s))' % (c, calltext(z.name, z, argtexts(r, z, [], 0)) if z else '5'))
                        code = 4.0
                    else:
                        ls.append('emit(%s(%s))' % (c, {'abs': '0 - 3', 'dot': '(1, 2, 3), (1, 1, 1)', 'floor': '7.5'}[lib]))
                        code = {'abs': 3.0, 'dot': 6.0, 'floor': 7.0}[lib]
                    f.calls.append(('alias-std-' + lib, Lib(code), n))
            for _ in range(r.randint(0, 3)):
                if not cand:
                    break
                how, k, v = r.choice(cand)
                if tot + len(v.trace) > 40:
                    continue
                tot += len(v.trace)
                self.count += 1
                n = self.count
                called = k.split('(')[0]
                if v.named:
                    called = called[:called.index('__')]
                z = r.random()
                args = argtexts(r, v, ls, n)
                c = calltext(called, v, args)
                # A function of the library with this name is lazy or an operator nowhere.
                if z < .15 and not any(v.mut) and not v.named:
                    ls += ['t%d := go %s' % (n, c), 'x%d := unwrap(join(thread: t%d))' % (n, n)]
                    how += '-go'
                elif z < .3 and not any(v.mut):
                    ls += ['c%d := \\() = %s' % (n, c), 'x%d := \\c%d()' % (n, n)]
                    how += '-closure'
                elif z < .45 and not any(v.mut):
                    # The listener of the called function gets the arguments, once.
                    ls += ['r%d := in %s' % (n, k), 'x%d := %s' % (n, c), 'y%d := unwrap(next(r%d))' % (n, n), 'emit(len(y%d))' % n]
                    how += '-in'
                elif z < .6:
                    ls.append('x%d := if true { %s } else { 0 }' % (n, c) if r.random() < .5 else 'x%d := sum i%d 1 { %s }' % (n, n, c))
                else:
                    ls.append('x%d := %s' % (n, c))
                ls.append('emit(x%d)' % n)
                f.calls.append((how, v, n))
            f.compute()
            self.tags += 1
            f.code = float(self.tags)
            f.size = len(f.trace)
            f.body = ls
            done.append(f)
        r.shuffle(own2 := list(own))
        for f in own2:
            texts.append(self.fntext(f))
        head = ('ns %s\n' % ns if ns else '') + ''.join(l + '\n' for l in lines)
        # Offending calls: each makes the file unloadable.
        bad = []
        for how, k, v in [('plain', k, v) for k, v in vis.items()] + [('alias', a + '::' + k, v) for a, d in al.items() for k, v in d.items() if isinstance(v, Fn)]:
            called = k.split('(')[0]
            ls = []
            if not v.named and not any(v.mut):
                args = argtexts(r, v, ls, 0)
                bad.append((how + ' arity', calltext(called, v, args + ['1'])))
                if args:
                    bad.append((how + ' arity', calltext(called, v, args[:-1])))
                for j, t in enumerate(v.args):
                    if t in BAD:
                        bad.append((how + ' type', calltext(called, v, args[:j] + [BAD[t]] + args[j + 1:])))
        names = {k.split('(')[0] for k in vis}
        for nm in NAMES + ('zz', 'ff', 'nofn'):
            if nm not in names:
                bad.append(('plain missing', nm + '()'))
                bad.append(('plain missing', nm + '(1)'))
            for a, d in al.items():
                if nm not in {k.split('(')[0] for k in d}:
                    bad.append(('alias missing', '%s::%s(%s)' % (a, nm, r.choice(('', '1', '1, "s"')))))
            bad.append(('alias unknown', 'nowhere::%s(1)' % nm))
        neg = [(kind, head + ''.join(texts) + 'fn offend_%d() -> any {\n    x := %s\n    return clone(x)\n}\n' % (self.count, c)) for kind, c in r.sample(bad, min(len(bad), 3))]
        return head + ''.join(texts), own2, neg

    def fntext(self, f):
        nm = f.name + ('(' if not f.named else '(')
        args = []
        for j, (t, m) in enumerate(zip(f.args, f.mut)):
            args.append('%s%s: %s' % ('mut ' if m else '', f.named[j] if f.named else 'p%d' % j, t))
        head = 'fn %s(%s) -> f64 {\n' % (f.base(), ', '.join(args))
        return head + '    emit("%s")\n' % f.tag + ''.join('    %s\n' % l for l in f.body) + '    return %d\n}\n' % f.code


VAL = {'1': num(1.0), '2.5': num(2.5), '"s"': st('s'), '""': st(''), 'true': boolean(True), 'false': boolean(False), '[1, 2]': ('a', [num(1.0), num(2.0)]), '[3]': ('a', [num(3.0)]),
       '"x"': st('x')}


def visible(fns):
    d = {}
    for f in fns:
        d[f.key()] = f
    return d


def emits(evs):
    """The logged values, and how the run ended."""
    out, end = [], None
    for e in evs:
        if e[0] == 'e':
            v = e[1]
            out.append(v[1] if v[0] in 'nb' else tuple(sorted(v[1].split())) if v[0] == 's' and v[1].endswith(' ') else v[1] if v[0] == 's' else show(v))
        elif e[0] == 'end':
            end = e
    return out, end


def host(ctx, r):
    g = Gen(r)
    ops, mods, negs, exp = [('limit', 20000), ('rt', 'r')], [], [], []
    for i in range(r.randint(1, 5)):
        imp = r.sample(range(len(mods)), r.randint(0, min(3, len(mods))))
        fns = [f for j in imp for f in mods[j][1]]
        nm = 'm%d' % i
        pre = [('import', j) for j in imp]
        ops += [('mod', nm)] + [('import', nm, 'm%d' % j) for j in imp]
        for k in range(r.choice((1, 1, 1, 2, 3))):
            t, own, neg = g.text('%s.%d' % (nm, k), fns)
            for kind, nt in neg:
                negs.append((kind, list(pre), nt))
            ops.append(('load', nm, '%s_%d.dyon' % (nm, k), t))
            pre.append(('load', t))
            exp.append(('load', 'ok', t))
            fns = fns + own
        mods.append((nm, fns))
    for i, (nm, fns) in enumerate(mods):
        vis = visible(fns)
        for k, f in r.sample(sorted(vis.items()), min(len(vis), 4)):
            if any(f.mut):
                continue
            ls = argtexts(r, f, [], 0)
            ops.append(('callret', 'r', nm, k) + tuple(enc(VAL[x]) for x in ls))
            exp.append(('run', f, '%s called as %s in %s' % (f.tag, k, nm)))
        if r.random() < .5:
            k = r.choice(('f', 'g(mut)', 'nofn', 'len', 'f__d', 'q2', 'zz'))
            ops.append(('find', nm, k))
            exp.append(('find', 'loaded' if k in vis else 'external' if k == 'len' else 'none', k))
    for q, (kind, pre, nt) in enumerate(r.sample(negs, min(len(negs), 6))):
        nm = 'n%d' % q
        ops.append(('mod', nm))
        for p in pre:
            if p[0] == 'import':
                ops.append(('import', nm, 'm%d' % p[1]))
            else:
                ops.append(('load', nm, 'n.dyon', p[1]))
                exp.append(('load', 'ok', p[1]))
        ops.append(('load', nm, 'n.dyon', nt))
        exp.append(('load', 'err', kind + '\n' + nt))
    rep = ctx.run(ops)
    text = '\n'.join('-- %s\n%s' % (' '.join(map(str, o[:3])) if o[0] != 'load' else 'load %s %s' % o[1:3], o[3] if o[0] == 'load' else '') for o in ops if o[0] in ('mod', 'import', 'load'))
    if bad(ctx, rep, ops, text):
        return
    parts, cur = [], []
    for e in rep.events:
        cur.append(e)
        if e[0] in ('load', 'end', 'find'):
            parts.append(cur)
            cur = []
    if len(parts) != len(exp):
        ctx.inconclusive('%d results for %d steps' % (len(parts), len(exp)), text)
        return
    for x, ev in zip(exp, parts):
        last = ev[-1]
        if x[0] == 'load':
            ctx.cov['rejections expected' if x[1] == 'err' else 'files loaded'] += 1
            if x[1] == 'err':
                ctx.kind('offence', x[2].split('\n')[0])
            if last[1][1] != x[1]:
                ctx.violation('C22 load', 'loading gave %s %s, expected %s\n%s' % (last[1][1], show(last[2]), x[1], x[2] if x[1] == 'err' else text), ops)
                return
        elif x[0] == 'find':
            if last[1][1] != x[1]:
                ctx.violation('C22 find', '%s is %s, expected %s\n%s' % (x[2], last[1][1], x[1], text), ops)
                return
        else:
            judge(ctx, ev, x[1].trace, x[1].code, x[2], text, ops)
            note(ctx, x[1], text)


def note(ctx, f, text):
    ctx.seen((text, f.key()), len(f.calls) > 0)
    for how, v, _ in f.calls:
        ctx.kind('reference', how)


def bad(ctx, rep, ops, text):
    z = [e for e in rep.events if e[0] in ('panic', 'abort', 'unbal', 'badref')]
    if rep.died or z:
        if rep.died == 'hang':
            ctx.inconclusive('slow', text)
        else:
            ctx.violation('C22 crash', 'the run ended with %s\n%s' % (rep.died or (z[0][0], [show(v) for v in z[0][1:]]), text), ops)
        return True
    return False


def judge(ctx, ev, trace, code, what, text, ops):
    got, end = emits(ev)
    ctx.cov['calls traced'] += len(got)
    if end[1][1] != 'ok':
        ctx.violation('C22 error', '%s: the run failed: %s\n%s' % (what, [show(v) for v in end[1:]], text), ops)
    elif got != trace:
        ctx.violation('C22 target', '%s: functions that ran %s, expected %s\n%s' % (what, got, trace, text), ops)
    elif code is not None and end[2][1] != code:
        ctx.violation('C22 result', '%s: result %s, expected %s\n%s' % (what, show(end[2]), code, text), ops)


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def script(ctx, r):
    """Modules made and called by name by a script."""
    g = Gen(r)
    ls, mods, exp, want = [], [], [], []
    tr0 = []
    boot = None
    if r.random() < .5:
        # A module that loads others, with functions of its own passed on or not.
        t, own, _ = g.text('boot', [], 3)
        t += 'fn boot(name: str, text: str, imports: [any]) -> any {\n    return module(in: name, string: text, imports: imports)\n}\n'
        t += 'fn boot_use(name: str, text: str, imports: [any]) -> any {\n    return module(in: name, string: text, imports: imports, tr: false, usetr: true)\n}\n'
        t += 'fn boot_no(name: str, text: str, imports: [any]) -> any {\n    return module(in: name, string: text, imports: imports, tr: false, usetr: false)\n}\n'
        on = r.random() < .7
        ls.append('boot := unwrap(module(in: "boot", string: %s, imports: [], tr: %s, usetr: %s))' % (q(t), 'true' if on else 'false', r.choice(('true', 'false'))))
        boot = (on, own)
    for i in range(r.randint(1, 4)):
        imp = r.sample(range(len(mods)), r.randint(0, min(3, len(mods))))
        fns, extra = [], []
        nm = 'm%d' % i
        by = r.choice(('boot', 'boot_use', 'boot_no')) if boot and r.random() < .6 else None
        if by and by != 'boot_no' and boot[0]:
            fns, extra = list(boot[1]), ['boot', 'boot_no', 'boot_use']
        for j in imp:
            fns += mods[j][1]
            extra = extra + mods[j][2]
        t, own, neg = g.text(nm, fns)
        ims = '[' + ', '.join('m%d' % j for j in imp) + ']'

        def make(text):
            if by:
                return 'call_ret(boot, "%s", ["%s", %s, %s])' % (by, nm, q(text), ims)
            if r.random() < .3:
                return 'module(in: "%s", string: %s, imports: %s, tr: %s, usetr: %s)' % (nm, q(text), ims, r.choice(('true', 'false')), r.choice(('true', 'false')))
            return 'module(in: "%s", string: %s, imports: %s)' % (nm, q(text), ims)
        for kind, nt in neg[:2]:
            ls.append('emit(is_err(%s))' % make(nt))
            want.append(True)
            ctx.kind('offence', kind)
        ls.append('%s := unwrap(%s)' % (nm, make(t)))
        # What was passed on from the loading module stays part of the new module.
        mods.append((nm, fns + own, extra))
        exp.append(t)
    notes = []
    for nm, fns, extra in mods:
        vis = visible(fns)
        for k, f in r.sample(sorted(vis.items()), min(len(vis), 4)):
            if any(f.mut):
                continue
            args = argtexts(r, f, [], 0)
            z = r.random()
            if z < .7:
                ls.append('emit(call_ret(%s, "%s", [%s]))' % (nm, k, ', '.join(args)))
                want += f.trace + [f.code]
            elif z < .85:
                ls.append('emit(names(%s))' % nm)
                want.append(tuple(sorted([f.key() for f in fns] + extra)))
            else:
                ls.append('call(%s, "%s", [%s])' % (nm, k, ', '.join(args)))
                want += f.trace
            notes.append(f)
    fail = None
    z = r.random()
    nm, fns, _ = r.choice(mods)
    vis = visible(fns)
    if z < .25:
        k = r.choice([x for x in ('nofn', 'abs', 'emit', 'zz', 'floor', '') if x not in vis])
        ls.append('emit(call_ret(%s, "%s", [1]))' % (nm, k))
        fail = 'Could not find function'
    elif z < .6 and vis:
        k = r.choice(sorted(vis))
        n = r.choice([x for x in range(5) if x != len(vis[k].args)])
        ls.append('%s(%s, "%s", [%s])%s' % (r.choice(('emit(call_ret', 'call')), nm, k, ', '.join(['1'] * n), ''))
        if ls[-1].startswith('emit'):
            ls[-1] += ')'
        fail = 'Expected `%d` arguments, found `%d`' % (len(vis[k].args), n)
    text = 'fn names(m: any) -> str {\n    fs := functions(module: m)\n    s := ""\n    for i len(fs) {\n        if fs[i].type == "loaded" {\n            s += fs[i].name + " "\n        }\n    }\n' \
           '    return clone(s)\n}\nfn main() -> f64 {\n%s    return 7\n}\n' % ''.join('    %s\n' % l for l in ls)
    ops = [('limit', 20000), ('rt', 'r'), ('mod', 'd'), ('load', 'd', 'd.dyon', text), ('callret', 'r', 'd', 'main')]
    rep = ctx.run(ops)
    show_ = text + '\n' + '\n--\n'.join(exp)
    if bad(ctx, rep, ops, show_):
        return
    ev = rep.events
    ld = [e for e in ev if e[0] == 'load'][0]
    if ld[1][1] != 'ok':
        ctx.inconclusive('driver rejected', show(ld[2]))
        return
    if fail is None:
        judge(ctx, ev, want, 7.0, 'script', show_, ops)
    else:
        got, end = emits(ev)
        ctx.cov['calls traced'] += len(got)
        ctx.cov['failing calls by name'] += 1
        if end[1][1] != 'err' or fail not in show(end[2]):
            ctx.violation('C22 by name', 'a call by name ended with %s, expected the error: %s\n%s' % ([show(v) for v in end[1:]], fail, show_), ops)
        elif got != want:
            ctx.violation('C22 target', 'functions that ran %s, expected %s\n%s' % (got, want, show_), ops)
    for f in notes:
        note(ctx, f, show_)


def lifetimes(ctx, r):
    """Calls by name of functions whose arguments must outlive each other."""
    n = r.randint(2, 3)
    lts = {}
    for i in range(n):
        if r.random() < .6:
            lts[i] = r.choice([j for j in range(n) if j != i])
    # Cycles of lifetimes are rejected when loading.
    for i in list(lts):
        j, k = i, 0
        while j in lts and k < 5:
            j, k = lts[j], k + 1
        if k == 5:
            del lts[i]
    mod = 'fn f(%s) -> f64 {\n    emit("f")\n    return 3\n}\n' % ', '.join("p%d: %s[]" % (i, "'p%d " % lts[i] if i in lts else '') for i in range(n))
    order = list(range(n))
    r.shuffle(order)
    lit = {i for i in range(n) if r.random() < .15}
    ok = True
    for i, j in lts.items():
        if i in lit:
            ok = False
        elif j not in lit and order.index(i) > order.index(j):
            ok = False
    ls = ['m := unwrap(module(in: "m", string: %s, imports: []))' % q(mod)] + ['a%d := [%d]' % (i, i) for i in order]
    ls.append('emit(call_ret(m, "f", [%s]))' % ', '.join('[5]' if i in lit else 'a%d' % i for i in range(n)))
    text = 'fn main() -> f64 {\n%s    return 7\n}\n' % ''.join('    %s\n' % l for l in ls)
    ops = [('limit', 20000), ('rt', 'r'), ('mod', 'd'), ('load', 'd', 'd.dyon', text), ('callret', 'r', 'd', 'main')]
    rep = ctx.run(ops)
    if bad(ctx, rep, ops, text):
        return
    if rep.events[0][1][1] != 'ok':
        ctx.inconclusive('driver rejected', show(rep.events[0][2]))
        return
    got, end = emits(rep.events)
    ctx.seen(text, bool(lts))
    ctx.kind('lifetimes by name', 'ok' if ok else 'error')
    if end[1][1] != ('ok' if ok else 'err') or got != (['f', 3.0] if ok else []):
        ctx.violation('C22 lifetimes', 'a call by name gave %s %s, expected it to be %s\n%s' % (got, [show(v) for v in end[1:]], 'accepted' if ok else 'rejected', text), ops)


def case(ctx, rng, i):
    z = rng.random()
    if z < .5:
        host(ctx, rng)
    elif z < .9:
        script(ctx, rng)
    else:
        lifetimes(ctx, rng)
