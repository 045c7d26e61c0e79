"""Every place of a program where an expression can fail: templates with a hole.

`@` is the hole, a call that yields the number 1 when it succeeds; `E` is an expression with an effect. Everything with an effect
that stands before the hole has happened when the hole is evaluated, and nothing that stands after it.
"""
import re
import wrapping

PLACES = '''
z := [E, @, E]
z := [[E], [E, @], [E]]
z := [@; 3]
z := [7; @]
z := {a: E, b: @, c: E}
z := {a: {b: [@]}, c: E}
z := (E, @)
z := (@, E, E)
z := (E, E, E, @)
z := (E, E, @, E)
z := (E, @, E, E)
z := mat4 {E, @, E, E; E, E, E, E; E, E, E, E; E, E, E, E}
z := mat4 {E, E, E, E; @, E, E, E; E, E, E, E; E, E, E, E}
z := mat4 {E, E, E, E; E, E, E, E; E, E, @, E; E, E, E, E}
z := mat4 {E, E, E, E; E, E, E, E; E, E, E, E; E, E, E, @}
z := f3(E, @, E)
z := f3(@, E, E)
z := f3(E, E, @)
z := f1(f1(@))
z := f3(E, f3(E, @, E), E)
z := fl(x: E, y: @)
fm(mut xs, @)
fv(@)
z := \\clo(E, @, E)
z := \\clo(E, E, @)
z := \\hof(@)
z := E + @
z := @ - E
z := E * (@ + E)
z := E ^ @
z := E % @
z := (E, 2) * @
z := -(@)
z := -f1(@)
z := !(f1(@) > 1)
z := f1(E) < @
z := @ == E
z := f1(@) == E
z := xs[@]
z := xss[0][@]
z := xss[@][0]
z := os[@].k
xs[@] = 5
xss[0][@] = 5
xs[0] = @
y = @
y += @
y *= @
o.k = @
o.n := @
os[1].k = @
os[@].k = 3
if f1(@) > 0 {
    after(0)
}
if f1(E) < 0 {
    after(0)
} else if f1(@) > 0 {
    after(0)
}
z := if f1(@) > 0 {E} else {E}
z := if f1(E) > 0 {@} else {E}
z := if f1(E) < 0 {2} else {@}
z := if f1(E) < 0 {2} else if f1(@) > 0 {4} else {3}
for j := @; j < 3; j += 1 {
    after(0)
}
for j := 5; j < @; j += 1 {
    after(0)
}
for j := 0; j < 2; j += @ { y = 2 }
for j @ {
    after(0)
}
for j [@, 3) {
    after(0)
}
for j [0, @) {
    after(0)
}
for j 1 {
    y = E
    y = @
    after(0)
}
loop {
    y += @
    break
}
for j 1 {
    for k 1 {
        y += @
    }
}
z := sum j @ {E}
z := prod j [0, @) {E}
z := min j @ {E}
z := max j [@, 3) {E}
z := any j [0, @) {f1(E) > 0}
z := all j @ {f1(E) > 0}
z := sift j [0, @) {E}
z := sum j 1 {@}
z := prod j 1 {@}
z := min j 1 {@}
z := max j 1 {@}
z := any j 1 {f1(@) > 5}
z := all j 1 {f1(@) > 0}
z := sift j 1 {@}
z := sum j 1, k 1 {E + @}
z := sift j 1, k 1 {@}
z := link j 1 {@}
z := link j @ {E}
z := link {E @ E}
z := str(link {E "," f1(@) E})
z := some(@)
z := ok(@)
z := err(@)
z := clone(@)
z := str(@)
z := sqrt(@)
z := s((1, 2), @)
z := max([E, @])
z := (xy vv(@), E, E)
z := f2(xy vv(@))
z := f3(E, xy vv(@))
z := f3(xy vv(@), E)
z := \\clo(xy vv(@), E)
z := |vv(@)|
z := vv(@) *. (1, 2)
z := mat4 {vv(@); (1, 2); (1, 2); (1, 2)}
z := vec3 i {@}
z := vec4 i {f1(i) + @}
z := {
    y = E
    y + @
}
z := (f1(E) > 0) && (f1(@) > 0)
z := (f1(E) < 0) || (f1(@) > 0)
th := go f1(@)
th := go f3(E, @, E)
z := \\(x: f64) = x + (grab @)
~ cur := @
return @
return f1(@)
return = @
return [E, @]
push(mut xs, @)
insert(mut xs, @, 4)
z := [E, \\clo(1, f1(@), 1)]
z := try f1(@)
z := try [E, @]
z := ok(f1(@))?
z := ok(ok(@))?
z := unwrap(ok(@))
'''


def split(t):
    out, cur, d = [], [], 0
    for l in t.strip('\n').split('\n'):
        cur.append(l)
        d += l.count('{') - l.count('}')
        if d == 0:
            out.append('\n'.join(cur))
            cur = []
    return out


PLACES = split(PLACES)
HEAD = '''fn e(x: f64) -> f64 {
    emit(x)
    return clone(x)
}
fn after(x: f64) {
    emit(99)
}
fn f1(x: f64) -> f64 { return clone(x) }
fn f2(x: f64, y: f64) -> f64 { return x + y }
fn f3(x: f64, y: f64, z: f64) -> f64 { return x + y + z }
fn fl__x_y(x: f64, y: f64) -> f64 { return x + y }
fn fm(mut a: [f64], x: f64) { a[0] = clone(x) }
fn fv(x: f64) { }
fn vv(x: f64) -> vec4 { return (x, 2) }
'''
LOCALS = ('xs := [1, 2]', 'xss := [[1, 2], [3, 4]]', 'os := [{k: 1}, {k: 2}]', 'o := {k: 1}', 'y := 3',
          'clo := \\(x: f64, y: f64, z: f64) = x + y + z', 'hof := \\(x: f64) = \\(y: f64) = y + 1')


def fill(rng, t, hole):
    """The template with the hole and its effects: (text, the effects that come before the hole)."""
    n, before, out, past = 0, [], '', False
    for k, c in enumerate(t):
        if c == '@':
            out += hole
            past = True
        elif c == 'E' and not (t[k - 1:k].isalpha() or t[k + 1:k + 2].isalpha()):
            n += 1
            v = 100 + n
            out += 'e(%d)' % v
            if not past:
                before.append(v)
        else:
            out += c
    return out, before


def around(rng, t):
    """The statements inside others that run them once."""
    ls = t.split('\n')
    for _ in range(rng.choice((0, 0, 1, 1, 2))):
        ls = wrapping.enclose(rng, ls, rng.randint(0, wrapping.TOP))
    return '\n'.join(ls)


def program(rng, k, hole, call):
    """(text, effects before the hole, lines of the hole) of one place, in a function `t` called by `main`."""
    t, before = fill(rng, PLACES[k % len(PLACES)], hole)
    t = around(rng, t)
    ls = (HEAD + 'fn look(b: any) -> any {\n    emit(50)\n    return clone(b)\n}\nfn t(b: any) -> any {\n').rstrip('\n').split('\n')
    for l in LOCALS:
        ls.append('    ' + l)
    n = len(ls)
    body = t.split('\n')
    at = next(n + 1 + j for j, l in enumerate(body) if hole in l)
    ls += ['    ' + l for l in body]
    ls += ['    emit(77)', '    return 1', '}']
    ls += ['fn main(b: any) -> any {', '    p := 11', '    q := [12, 13]', '    probe(1)', '    r := %s' % call, '    probe(1)', '    emit(p)', '    emit(q)', '    emit(r)',
           '    r2 := %s' % call, '    probe(1)', '    emit(q[1])', '    return clone(r2)', '}']
    return wrapping.recv('\n'.join(ls) + '\n'), before, at
