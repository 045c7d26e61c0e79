"""Statements nested at random inside other statements."""
import re


def ind(ls):
    return ['    ' + l for x in ls for l in x.split('\n')]


FOLD = {'sum': '1', 'prod': '1', 'min': '1', 'max': '1', 'any': 'false', 'all': 'true', 'sift': '1'}
TOP = 11


def recv(t):
    """The text with the functions that its loops over receivers observe."""
    return t + ''.join('\nfn %s(x: f64) { }\n' % f for f in sorted(set(re.findall(r'\bin (zq\d+)', t))))


def enclose(r, ls, x):
    """The statements inside another statement that executes them once.  Loops over receivers need what recv adds."""
    b, k = ind(ls), r.randint(0, 9999)
    lab = "'l%d: " % k if r.random() < .2 else ''
    if x == 0:
        return ['if true {'] + b + ['}']
    if x == 1:
        return ['if false {', '    w := 1', '} else {'] + b + ['}']
    if x == 2:
        return ['if false {', '    w := 1', '} else if true {'] + b + ['} else {', '    w := 1', '}']
    if x == 3:
        return [lab + r.choice(('for i%d 1 {', 'for i%d [2, 3) {')) % k] + b + ['}']
    if x == 4:
        return [lab + 'loop {'] + b + ['    break', '}']
    if x == 5:
        return [lab + 'for k%d := 0; k%d < 1; k%d += 1 {' % (k, k, k)] + b + ['}']
    if x == 6:
        return ['u%d := {' % k] + b + ['    1', '}']
    if x == 7:
        f = r.choice(sorted(FOLD))
        return ['u%d := %s%s i%d %s {' % (k, lab, f, k, r.choice(('1', '1', '[3, 4)')))] + b + ['    ' + FOLD[f], '}']
    if x == 8:
        return ['v%d := "q"' % k] + ls
    if x == 9:
        return ['r%d := in zq%d' % (k, k), 'zq%d(%d)' % (k, k % 9), '%sfor m%d in r%d {' % (lab, k, k)] + b + ['}']
    if x == 10:
        f = r.choice(sorted(FOLD))
        return ['r%d := in zq%d' % (k, k), 'zq%d(%d)' % (k, k % 9), 'u%d := %s%s m%d in r%d {' % (k, lab, f, k, k)] + b + ['    ' + FOLD[f], '}']
    return [r.choice(('for i%d 1, j%d 1 {', 'for i%d [1, 2), j%d [i%d, 2) {')) .replace('%d', str(k))] + b + ['}']


def nested(r, ls, branches=True, most=2, expr=True):
    """Lines of code that execute ls exactly once (with branches=False: as straight code in loops and blocks)."""
    ls = list(ls)
    for _ in range(r.choice((0, 0, 0, 1, 1, 2)[:4 + most])):
        ls = enclose(r, ls, r.randint(0 if branches else 3, TOP if expr else 5))
    return ls


def fn(head, ls):
    return head + ' {\n' + ''.join('    %s\n' % l for x in ls for l in x.split('\n')) + '}\n'
