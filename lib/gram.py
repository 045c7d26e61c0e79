"""Texts derived at random from the grammar of the language, with no regard to meaning; and mutations of texts."""
import re

import stdlib

NAMES = ('a', 'b', 'n', 'x', 'i', 'k', 'f', 'g', 'return')
FNS = ('f', 'g', 'h', 'emit', 'blur', 'go_', 'len', 'push', 'clone', 'some', 'ok', 'err', 'unwrap', 'str', 'typeof', 'none')
LIB = [s[0] for s in stdlib.SIGS if not s[0].startswith(('read_', 'load', 'save', 'download', 'sleep', 'call', 'print', 'eprint', 'debug', 'wait', 'join'))]
TYPES = ('any', 'bool', 'f64', 'str', 'vec4', 'mat4', 'link', 'opt', 'res', 'opt[f64]', 'res[str]', 'sec[bool]', 'sec[f64]', '[]', '[f64]', '[[]]', '{}',
         'thr', 'thr[f64]', 'in', 'in[[]]', '\\(f64) -> f64', '\\() -> any', 'Foo', 'Foo f64', 'Foo [f64]', '[Foo f64]')


class Gram:
    def __init__(self, r, budget=60, fns=FNS, run=False):
        self.r, self.b, self.fns, self.run = r, budget, fns, run
        self.labels = ('p', 'q')

    def name(self):
        return self.r.choice(NAMES[:-1] if self.r.random() < .97 else NAMES)

    def leaf(self):
        r = self.r
        return r.choice((lambda: str(r.choice((0, 1, 2, 3, 0.5, -1, 1e9))) if not self.run else str(r.randint(0, 3)), lambda: '"%s"' % r.choice(('', 'a', 'k', '\\n', '\\u{e9}', 'é€')),
                         lambda: r.choice(('true', 'false')), self.name, self.name, self.name, self.item, lambda: '#ff00' + r.choice(('aa', 'ff', 'zz', '')),
                         lambda: '[]', lambda: '{}', lambda: 'none()'))()

    def item(self):
        r = self.r
        s = ('~ ' if r.random() < .08 else '') + self.name()
        if r.random() < .08:
            s += '?'
        for _ in range(r.choice((0, 1, 1, 2))):
            s += r.choice(('[0]', '[1]', '["k"]', '.k', '.x', '[%s]' % self.name(), '[%s]' % (self.expr(3) if self.b > 0 else '0')))
            if r.random() < .1:
                s += '?'
        return s

    def args(self, d, lo=0, hi=3):
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            x = r.random()
            if x < .15:
                out.append('mut ' + self.item())
            elif x < .2:
                out.append(''.join(r.choice('xyzw') for _ in range(r.randint(2, 4))) + ' ' + self.leaf())
            else:
                out.append(self.expr(d))
        return out

    def call(self, d):
        r = self.r
        x = r.random()
        f = r.choice(self.fns if r.random() < .6 else LIB)
        if x < .12:
            w, _, ns = f.partition('__')
            ks = ns.split('_') if ns else r.sample(('a', 'b', 'c'), r.randint(1, 2))
            return '%s(%s)' % (w, ', '.join('%s: %s' % (k, self.expr(d)) for k in ks))
        if x < .17:
            return 'al::%s(%s)' % (f, ', '.join(self.args(d)))
        if x < .24:
            return '\\%s(%s)' % (self.item(), ', '.join(self.args(d)))
        return '%s(%s)' % (f, ', '.join(self.args(d)))

    def head(self, d):
        r = self.r
        x = r.random()
        lab = "'%s: " % r.choice(self.labels) if r.random() < .1 else ''
        if x < .2:
            return lab, '%s in %s' % (self.name(), self.expr(1))
        vs = []
        for _ in range(r.choice((1, 1, 1, 2))):
            y = r.random()
            vs.append('%s%s' % (self.name(), '' if y < .2 else ' %s' % r.choice(('2', '3', self.leaf())) if y < .8 else ' [%s, %s)' % (self.leaf(), r.choice(('3', self.leaf())))))
        return lab, ', '.join(vs)

    def loop(self, d):
        k = self.r.choice(('sum', 'prod', 'min', 'max', 'any', 'all', 'sift', 'sum_vec4', 'prod_vec4', '∑', '∏', '∃', '∀'))
        lab, h = self.head(d)
        return '%s%s %s %s' % (lab, k, h, self.block(d - 1, True))

    def block(self, d, value=None):
        ls = self.stmts(d, self.r.choice((0, 0, 1, 2) if value else (0, 1, 1, 2)))
        if value or self.r.random() < .3:
            ls.append(self.expr(max(d, 1)))
        if not ls:
            ls = [self.expr(1)]
        if len(ls) == 1 and '\n' not in ls[0] and self.r.random() < .5:
            return '{ %s }' % ls[0]
        return '{\n%s\n}' % '\n'.join(ls)

    def expr(self, d):
        r = self.r
        self.b -= 1
        if d <= 0 or self.b <= 0 or r.random() < .2:
            return self.leaf()
        x = r.randint(0, 24)
        if x <= 4:
            return self.call(d - 1)
        if x <= 7:
            return '%s %s %s' % (self.expr(d - 1), r.choice(('+', '-', '*', '/', '%', '^', '&&', '||', 'x', '·', 'or', 'and', 'xor', '==', '!=', '<', '<=', '>', '>=', '*.')),
                                 self.expr(d - 1))
        if x == 8:
            return r.choice(('-%s', '!%s', '(%s)', '|%s|', '¬%s')) % self.leaf()
        if x == 9:
            return '[%s]' % ', '.join(self.expr(d - 1) for _ in range(r.randint(0, 3)))
        if x == 10:
            return '[%s; %s]' % (self.expr(d - 1), r.choice(('2', self.leaf())))
        if x == 11:
            return '{%s}' % ', '.join('%s: %s' % (r.choice(('k', 'x', '"y z"')), self.expr(d - 1)) for _ in range(r.randint(0, 2)))
        if x == 12:
            return '(%s)' % ', '.join(self.expr(d - 2) for _ in range(r.randint(1, 4)))
        if x == 13:
            return 'mat4 {%s}' % '; '.join(', '.join(self.leaf() for _ in range(r.randint(1, 4))) for _ in range(r.randint(1, 4)))
        if x == 14:
            return 'link { %s }' % ' '.join(self.leaf() for _ in range(r.randint(0, 3)))
        if x == 15:
            lab, h = self.head(d)
            return '%slink %s { %s }' % (lab, h, ' '.join(self.leaf() for _ in range(r.randint(0, 2))))
        if x <= 17:
            return self.loop(d - 1)
        if x == 18:
            return 'if %s %s%s else %s' % (self.expr(d - 1), self.block(d - 1, True), r.choice(('', '', ' else if %s %s' % (self.leaf(), self.block(1, True)))),
                                           self.block(d - 1, True))
        if x == 19:
            return '\\(%s)%s = %s' % (', '.join('%s%s' % (self.name(), r.choice(('', ': ' + r.choice(TYPES)))) for _ in range(r.randint(0, 2))),
                                      r.choice(('', '', ' ~ ' + self.name())), r.choice((self.expr(d - 1), self.block(d - 1, True), 'grab %s' % self.leaf(), 'grab \'2 %s' % self.name())))
        if x == 20:
            return 'go ' + r.choice((self.call(d - 1), 'f()', 'g(1)'))
        if x == 21:
            return r.choice(('in %s' % r.choice(self.fns), 'in al::f', 'grab %s' % self.leaf(), 'try %s' % self.expr(d - 1), "grab '2 %s" % self.name()))
        if x == 22:
            return 'vec%d %s %s' % (r.randint(2, 4), self.name(), self.expr(d - 1))
        if x == 23:
            return self.item()
        return self.expr(d - 1) + '?'

    def stmt(self, d):
        r = self.r
        self.b -= 1
        x = r.randint(0, 19)
        if x <= 5:
            return '%s := %s' % (self.name() if r.random() < .8 else ('~ ' + self.name()) if r.random() < .4 else self.item(), self.expr(d))
        if x <= 8:
            return '%s %s %s' % (self.item() if r.random() < .97 else self.leaf(), r.choice(('=', '=', '+=', '-=', '*=', '/=', '%=', '^=')), self.expr(d))
        if x <= 11:
            return self.call(d)
        if x == 12:
            return 'if %s %s%s' % (self.expr(2), self.block(d - 1), r.choice(('', ' else ' + self.block(d - 1))))
        if x <= 15:
            lab, h = self.head(d)
            return '%sfor %s %s' % (lab, h, self.block(d - 1))
        if x == 16:
            lab = "'%s: " % r.choice(self.labels) if r.random() < .3 else ''
            return lab + 'loop {\n%s\nbreak\n}' % '\n'.join(self.stmts(d - 1, r.randint(0, 2)))
        if x == 17:
            n = self.name()
            return 'for %s := 0; %s < %s; %s += 1 %s' % (n, n, self.r.choice(('2', self.leaf())), n, self.block(d - 1))
        if x == 18:
            return r.choice(('break', 'continue', "break 'p", "continue 'q", 'return', 'return %s' % self.expr(d), 'return = %s' % self.leaf()))
        return self.expr(d)

    def stmts(self, d, n):
        return [self.stmt(max(d, 1)) for _ in range(n) if self.b > 0]

    def arg(self):
        r = self.r
        n = self.name()
        lt = "'return " if r.random() < .06 else "'%s " % self.name() if r.random() < .06 else ''
        ty = r.choice(TYPES) if r.random() < .6 or lt else ''
        s = ('mut ' if r.random() < .15 else '') + n + (': ' + lt + ty if lt or ty else '')
        if r.random() < .06:
            s += ' => ' + r.choice(('true', '0', 'none()', 'ok(_)', 'err(_)', 'some(_)', 'true | false', '{}', '[]', self.leaf()))
        return s

    def fn_lifetimes(self, name):
        """A function whose arguments' lifetimes form chains, trees or cycles, and one that calls it."""
        r = self.r
        ns = r.sample(NAMES[:-1] + ('p', 'q'), r.randint(2, 6))
        args, ret = [], r.random() < .6
        for n in ns:
            x = r.random()
            lt = '' if x < .2 else "'return" if x < .4 else "'%s" % r.choice(ns)
            args.append((r.random() < .4, n, lt, r.choice(('', '', ' []', ' any', ' f64', ' {}')) if lt else r.choice(('', 'any', '[]', '{}'))))
        item = lambda: r.choice(ns) + r.choice(('', '', '[0]', '.k', '[0][1]'))
        ls = ['%s %s %s' % (item(), r.choice(('=', '=', ':=')), r.choice((item(), '[%s]' % item(), '[%s, %s]' % (item(), item()), '{k: %s}' % item(), 'clone(%s)' % item())))
              for _ in range(r.randint(0, 3))]
        if ret:
            ls.append('return %s' % r.choice((item(), '[%s]' % item(), 'clone(%s)' % item(), '1')))
        call = '%s(%s)' % (name, ', '.join(('mut ' if m else '') + 'v%d' % i if r.random() < .9 else r.choice(('1', '[v0]', 'clone(v0)')) for i, (m, _, _, _) in enumerate(args)))
        order = ['v%d := %s' % (i, r.choice(('[1]', '[[1]]', '1', '{k: 1}'))) for i in range(len(args))]
        if r.random() < .6:
            r.shuffle(order)
        s = 'fn %s(%s)%s {\n%s\n}\n' % (name, ', '.join(('mut ' if m else '') + n + (': ' + lt + ty if lt or ty else '') for m, n, lt, ty in args), ' ->' if ret else '', '\n'.join(ls))
        s += 'fn %s_caller() {\n%s\n%s\n}\n' % (name, '\n'.join(order), 'w := ' + call if ret else call)
        return s

    def fn(self, name):
        r = self.r
        if r.random() < .15:
            return self.fn_lifetimes(name)
        seen, args = set(), []
        for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3))):
            a = self.arg()
            k = a.replace('mut ', '').split(':')[0].split(' ')[0]
            if k not in seen or r.random() < .05:
                args.append(a)
            seen.add(k)
        cur = ' ~ ' + ', '.join(r.choice(('', 'mut ')) + self.name() + r.choice(('', ': ' + r.choice(TYPES))) for _ in range(r.choice((1, 1, 2)))) if r.random() < .12 else ''
        if r.random() < .15:
            return '%s(%s)%s = %s\n' % (name, ', '.join(args), cur, self.expr(3))
        ret = r.random() < .5
        ls = self.stmts(3, r.randint(0, 4))
        if ret and r.random() < .95:
            ls.append('return %s' % self.expr(3) if r.random() < .9 else 'return = %s' % self.expr(2))
        s = 'fn %s(%s)%s%s {\n%s\n}\n' % (name, ', '.join(args), cur, ' ->' + (' ' + r.choice(TYPES) if r.random() < .6 else '') if ret else '', '\n'.join(ls))
        if r.random() < .05:
            s += '    (%s) -> %s\n' % (', '.join(r.choice(TYPES) for _ in args), r.choice(TYPES))
        if r.random() < .03:
            s += '    all T { (%s) -> T }\n' % ', '.join('T' for _ in args)
        return s

    def program(self):
        r = self.r
        s = ''
        if r.random() < .1:
            s += 'ns %s\n' % r.choice(('aa', 'aa::bb', 'f'))
        if r.random() < .12:
            s += 'use %s as al\n' % r.choice(('aa', 'zz', 'aa::{f}', 'aa::{f as g}', 'base', 'base::{twice as f}'))
        for n in r.sample(('f', 'g', 'h', 'f__a', 'g__a_b', 'main'), r.randint(1, 3)):
            self.b = max(self.b, 25)
            s += self.fn(n)
        if r.random() < .05:
            s += '// comment\n/* and /* nested */ one */\n'
        return s


def lib_table():
    out = []
    for name, args, ret in stdlib.SIGS:
        if name.startswith(('read_', 'load', 'save', 'download', 'sleep', 'call', 'print', 'eprint', 'debug', 'wait', 'join', 'check_', 'syntax', 'meta_', 'module', 'args_os',
                            'backtrace', 'functions', 'push_ref', 'insert_ref', 'now', 'random')):
            continue
        bare, _, marks = name.partition('(')
        marks = marks[:-1].split(',') if marks else ['_'] * len(args)
        out.append((bare, [m == 'mut' for m in marks], ret))
    return out


TABLE = lib_table()
VALUES = [t for t in TABLE if t[2] != 'void']
VOIDS = [t for t in TABLE if t[2] == 'void']


class Smart:
    """Programs whose names are bound and whose types are hidden from the loader, so that most of them are accepted and fail, if at all, when run."""
    LIT = ('0', '1', '2', '3', '0.5', '7', '-1', '1e300', '0 / 0', '""', '"a"', '"k"', '"é€𝕏"', 'true', 'false', '[]', '[1, 2, 3]', '["a", "b"]', '[[1], [2]]', '{}', '{k: 1, x: [2]}',
           'none()', 'some(1)', 'ok("a")', 'err("e")', '(1, 2)', '(1, 2, 3, 4)', '#ff00aa', 'link { 1 "a" true }', 'mat4 {1,2,3,4; 5,6,7,8; 9,10,11,12; 13,14,15,16}', '\\(q: any) = q',
           'explain_why(true, "w")', 'explain_where(2, 1)')

    def __init__(self, r, budget=50):
        self.r, self.b = r, budget
        self.fns = {}
        self.n = 0
        self.in_fn = None
        self.frozen = ()

    def lit(self):
        s = self.r.choice(self.LIT)
        if s[0] == '\\':
            return 'blur(\\(q: any) = blur(q))'
        return 'blur(%s)' % s

    def var(self, sc, write=False):
        if write:
            sc = [v for v in sc if v not in self.frozen]
        return self.r.choice(sc) if sc else None

    def item(self, sc, write=False):
        v = self.var(sc, write)
        if v is None:
            return None
        s = v
        for _ in range(self.r.choice((0, 0, 1, 1, 2))):
            s += self.r.choice(('[0]', '[1]', '[2]', '["k"]', '.k', '.x', '[%s]' % self.r.choice(sc)))
            if self.r.random() < .04 and self.in_fn == 'ret':
                s += '?'
        return s

    def call(self, sc, d, void=False):
        r = self.r
        fs = [f for f in self.fns if (self.fns[f][1] is False) == void]
        if fs and r.random() < .35:
            f = r.choice(fs)
            marks = self.fns[f][0]
        else:
            f, marks, _ = r.choice(VOIDS if void else VALUES)
        if any(marks) and not self.var(sc, True):
            return 'emit(blur(1))' if void else self.lit()
        es = ['mut ' + self.var(sc, True) if q else self.wrapped(sc, d) for q in marks]
        w, _, ns = f.partition('__')
        if ns:
            return '%s(%s)' % (w, ', '.join('%s: %s' % z for z in zip(ns.split('_'), es)))
        return '%s(%s)' % (f, ', '.join(es))

    def wrapped(self, sc, d):
        e = self.expr(sc, d)
        return e if e.startswith('blur(') and e.count('(') == 1 or self.r.random() < .05 and e[-1] == ')' and e[0].isalpha() and ' ' not in e else 'blur(%s)' % e

    def expr(self, sc, d):
        r = self.r
        self.b -= 1
        x = r.randint(0, 19)
        if d <= 0 or self.b <= 0 or x <= 3:
            v = self.item(sc) if r.random() < .6 else None
            return 'clone(%s)' % v if v else self.lit()
        if x <= 8:
            return self.call(sc, d - 1)
        if x <= 11:
            return '%s %s %s' % (self.wrapped(sc, d - 1), r.choice(('+', '-', '*', '/', '%', '^', '&&', '||', 'x', '·', '==', '!=', '<', '<=', '>', '>=')), self.wrapped(sc, d - 1))
        if x == 12:
            return r.choice(('-%s', '!%s', '|%s|')) % self.wrapped(sc, 0)
        if x == 13:
            return r.choice(('[%s, %s]', '[%s; blur(%s)]', '{k: %s, x: %s}', '(%s, %s)', 'link { %s %s }')) % (self.wrapped(sc, d - 1), self.r.choice(('2', self.wrapped(sc, 0))))
        if x <= 15:
            k = r.choice(('sum', 'prod', 'min', 'max', 'any', 'all', 'sift', 'sum_vec4', 'prod_vec4'))
            n = self.fresh()
            src = r.choice(('%s in %s' % (n, self.wrapped(sc, 1)), '%s 3' % n, '%s %s' % (n, self.wrapped(sc, 0)), '%s [%s, %s)' % (n, self.wrapped(sc, 0), self.wrapped(sc, 0))))
            if ' in ' in src and k.endswith('vec4'):
                k = 'sum'
            return '%s %s {\n%s\n%s\n}' % (k, src, '\n'.join(self.stmts(sc + [n], d - 1, r.choice((0, 0, 1)))) or 'w := 1', self.wrapped(sc + [n], d - 1))
        if x == 16:
            return 'if %s {\n%s\n} else {\n%s\n}' % (self.wrapped(sc, 1), self.wrapped(sc, d - 1), self.wrapped(sc, d - 1))
        if x == 17:
            return r.choice(('vec%d %s %%s' % (r.randint(2, 4), 'i'), '%s(%%s)' % 'blur')) % self.wrapped(sc, 0) if r.random() < .5 else 'link %s 2 { %s }' % (self.fresh(), self.wrapped(sc, 0))
        if x == 18 and sc:
            return '\\%s(%s)' % (self.var(sc), ', '.join(self.wrapped(sc, 0) for _ in range(r.choice((0, 1, 1, 2)))))
        if x == 19 and self.in_fn == 'ret':
            return self.wrapped(sc, d - 1) + '?'
        fs = [f for f in self.fns if self.fns[f][1] and not any(self.fns[f][0])]
        if fs and r.random() < .5:
            f = r.choice(fs)
            return 'join(thread: go %s(%s))' % (f, ', '.join(self.wrapped(sc, 0) for _ in self.fns[f][0]))
        return self.lit()

    def fresh(self):
        self.n += 1
        return 'v%d' % self.n

    def stmts(self, sc, d, k):
        r = self.r
        sc = list(sc)
        out = []
        for _ in range(k):
            self.b -= 1
            x = r.randint(0, 13)
            if x <= 3 or not sc:
                n = self.fresh()
                out.append('%s := %s' % (n, self.wrapped(sc, d)))
                sc.append(n)
            elif x <= 6:
                it = self.item(sc, True)
                if it is None:
                    continue
                out.append('%s %s %s' % (it, r.choice(('=', '=', '+=', '-=', '*=', '/=', '%=', '^=', ':=' if it[-1] in ']kx' and it[-2:] != 'vk' and ('.' in it or '[' in it) else '=')), self.wrapped(sc, d)))
            elif x <= 8:
                out.append(self.call(sc, d, True))
            elif x == 9:
                out.append('emit(%s)' % self.wrapped(sc, d))
            elif x == 10:
                out.append('if %s {\n%s\n}%s' % (self.wrapped(sc, 1), '\n'.join(self.stmts(sc, d - 1, 1)), r.choice(('', ' else {\n%s\n}' % '\n'.join(self.stmts(sc, d - 1, 1))))))
            elif x <= 12:
                n = self.fresh()
                src = r.choice(('%s in %s' % (n, self.wrapped(sc, 1)), '%s 3' % n, '%s %s' % (n, self.wrapped(sc, 0)), '%s [%s, %s)' % (n, self.wrapped(sc, 0), self.wrapped(sc, 0))))
                out.append('for %s {\n%s%s\n}' % (src, '\n'.join(self.stmts(sc + [n], d - 1, r.randint(1, 2))), r.choice(('', '', '\nbreak', '\ncontinue'))))
            else:
                n = self.fresh()
                out.append('for %s := 0; %s < 3; %s += 1 {\n%s\n}' % (n, n, n, '\n'.join(self.stmts(sc, d - 1, 1))))
        return out

    def program(self):
        """The text and the names of functions without arguments."""
        r = self.r
        s, zero = '', []
        for k in range(r.randint(1, 3)):
            self.b = max(self.b, 25)
            name = 'fn%d' % k
            marks = [r.random() < .3 for _ in range(r.choice((0, 0, 1, 2)) if k < 2 else 0)]
            ret = r.random() < .6
            self.in_fn = 'ret' if ret else ''
            args = ['a%d' % j for j in range(len(marks))]
            self.frozen = [a for a, q in zip(args, marks) if not q]
            ls = self.stmts(args, 2, r.randint(1, 4))
            if ret:
                ls.append('return %s' % self.wrapped(args, 2))
            s += 'fn %s(%s)%s {\n%s\n}\n' % (name, ', '.join(('mut ' if q else '') + a + ': any' for q, a in zip(marks, args)), ' -> any' if ret else '', '\n'.join(ls))
            self.fns[name] = (marks, ret)
            if not marks:
                zero.append((name, ret))
        return s, zero


TOKEN = re.compile(r'\s+|[A-Za-z_][A-Za-z_0-9]*|[0-9.]+|"(?:[^"\\\n]|\\.)*"|.', re.S)
ODD = ('(', ')', '{', '}', '[', ']', ',', ';', ':', '::', ':=', '=', '==', '->', '=>', '~', '\\', '?', '.', '|', "'", '"', '#', '-', '+', '*', '/', '^', '&&', '\n', ' ',
       'fn', 'if', 'else', 'for', 'loop', 'in', 'go', 'grab', 'try', 'mut', 'return', 'break', 'continue', 'link', 'mat4', 'vec4', 'sum', 'sift', 'use', 'ns', 'as', 'all',
       'xy', 'x', '0', '1e400', '-0', '99999999999999999999', 'é', '\u200b', '𝕏', '\0', '\\u{110000}', '"\\', '/*', '*/', '//', "'return", '_', 'sec[bool]', 'opt[', 'Foo')


def mutate(r, t):
    ks = TOKEN.findall(t)
    for _ in range(r.choice((1, 1, 1, 2, 3, 6))):
        if not ks:
            break
        i = r.randrange(len(ks))
        j = min(len(ks), i + r.choice((1, 1, 1, 2, 5, 15)))
        x = r.randint(0, 8)
        if x == 0:
            del ks[i:j]
        elif x == 1:
            ks[i:i] = ks[i:j]
        elif x == 2:
            ks.insert(i, r.choice(ODD))
        elif x == 3:
            ks[i] = r.choice(ODD)
        elif x == 4:
            k = r.randrange(len(ks))
            ks[i], ks[k] = ks[k], ks[i]
        elif x == 5:
            k = r.randrange(len(ks))
            ks[k:k] = ks[i:j]
        elif x == 6:
            # A name becomes another name of the text.
            ns = [k for k in range(len(ks)) if ks[k][0].isalpha()]
            if ns:
                ks[r.choice(ns)] = ks[r.choice(ns)]
        elif x == 7 and r.random() < .3:
            ks = ks[:i]
        else:
            w = ks[i]
            p = r.randrange(len(w) + 1)
            ks[i] = w[:p] + chr(r.choice((0, 9, 10, 32, 34, 39, 92, 123, 125, 0xe9, 0x20ac, 0x1d54f, 0xfeff, 0x7f))) + w[p:]
    return ''.join(ks)


def deepest(t):
    """Depth of brackets: parsing takes exponential time in it."""
    d = m = 0
    for c in t:
        if c in '([{':
            d += 1
            m = max(m, d)
        elif c in ')]}':
            d = max(0, d - 1)
    return m
