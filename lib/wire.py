"""Wire format between the Python side (generators, models, oracles) and the
Rust executor (harness/), and the worker process that runs cases.

Values are tuples:
  ('b', bool, sec) ('n', float, sec)   sec: None or tuple of values (innermost first)
  ('s', str) ('v', (f32 x4)) ('m', (f32 x16)) ('a', (values)) ('o', {key: value})
  ('l', (values)) ('?', None|value) ('ok', value) ('err', msgvalue, (trace strs))
  ('c',) closure  ('X',) rust object  ('H',) thread  ('I',) in  ('D', i) dangling
"""
import os, resource, select, struct, subprocess, time, math

NAN = float('nan')


def num(x, sec=None):
    return ('n', float(x), sec)


def boolean(x, sec=None):
    return ('b', bool(x), sec)


def st(x):
    return ('s', x)


def f32(x):
    """Round to single precision."""
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def _h64(x):
    if x != x:
        return b'7ff8000000000000'
    return b'%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def _h32(x):
    if x != x:
        return b'7fc00000'
    return b'%08x' % struct.unpack('<I', struct.pack('<f', f32(x)))[0]


def enc(v):
    out = []
    _enc(v, out)
    return b''.join(out)


def _es(s, out):
    b = s.encode('utf-8')
    out.append(b's%d:' % len(b))
    out.append(b)


def _enc(v, out):
    k = v[0]
    if k == 'n':
        if v[2] is None:
            out.append(b'n' + _h64(v[1]))
        else:
            out.append(b'N' + _h64(v[1]))
            _enc(('a', v[2]), out)
    elif k == 'b':
        if v[2] is None:
            out.append(b't' if v[1] else b'f')
        else:
            out.append(b'T' if v[1] else b'F')
            _enc(('a', v[2]), out)
    elif k == 's':
        _es(v[1], out)
    elif k == 'v' or k == 'm':
        out.append(k.encode())
        for x in v[1]:
            out.append(_h32(x))
    elif k == 'a' or k == 'l':
        out.append(b'%s%d:' % (k.encode(), len(v[1])))
        for x in v[1]:
            _enc(x, out)
    elif k == 'o':
        out.append(b'o%d:' % len(v[1]))
        for key in sorted(v[1], key=lambda z: z.encode('utf-8')):
            _es(key, out)
            _enc(v[1][key], out)
    elif k == '?':
        if v[1] is None:
            out.append(b'?0')
        else:
            out.append(b'?1')
            _enc(v[1], out)
    elif k == 'ok':
        out.append(b'r1')
        _enc(v[1], out)
    elif k == 'err':
        out.append(b'r0')
        _enc(v[1], out)
        out.append(b'a%d:' % len(v[2]))
        for t in v[2]:
            _es(t, out)
    else:
        raise ValueError(v)


def dec_all(b):
    p = 0
    r = []
    while p < len(b):
        v, p = _dec(b, p)
        r.append(v)
    return r


def _cnt(b, p):
    e = b.index(b':', p)
    return int(b[p:e]), e + 1


def _dec(b, p):
    c = b[p:p + 1]
    p += 1
    if c == b'n' or c == b'N':
        x = struct.unpack('>d', bytes.fromhex(b[p:p + 16].decode()))[0]
        p += 16
        sec = None
        if c == b'N':
            s, p = _dec(b, p)
            sec = s[1]
        return ('n', x, sec), p
    if c in (b't', b'f'):
        return ('b', c == b't', None), p
    if c in (b'T', b'F'):
        s, p = _dec(b, p)
        return ('b', c == b'T', s[1]), p
    if c == b's':
        n, p = _cnt(b, p)
        return ('s', b[p:p + n].decode('utf-8', 'replace')), p + n
    if c == b'v' or c == b'm':
        n = 4 if c == b'v' else 16
        xs = tuple(struct.unpack('>f', bytes.fromhex(b[p + 8 * i:p + 8 * i + 8].decode()))[0]
                   for i in range(n))
        return (c.decode(), xs), p + 8 * n
    if c == b'a' or c == b'l':
        n, p = _cnt(b, p)
        xs = []
        for _ in range(n):
            x, p = _dec(b, p)
            xs.append(x)
        return (c.decode(), tuple(xs)), p
    if c == b'o':
        n, p = _cnt(b, p)
        d = {}
        for _ in range(n):
            k, p = _dec(b, p)
            x, p = _dec(b, p)
            d[k[1]] = x
        return ('o', d), p
    if c == b'?':
        if b[p:p + 1] == b'0':
            return ('?', None), p + 1
        x, p = _dec(b, p + 1)
        return ('?', x), p
    if c == b'r':
        if b[p:p + 1] == b'1':
            x, p = _dec(b, p + 1)
            return ('ok', x), p
        m, p = _dec(b, p + 1)
        t, p = _dec(b, p)
        return ('err', m, tuple(x[1] for x in t[1])), p
    if c == b'D':
        e = b.index(b';', p)
        return ('D', int(b[p:e])), e + 1
    return (c.decode('latin1'),), p


def same(a, b, tol=0.0):
    """Equality of values; NaN equals NaN, secrets included, 0.0 == -0.0 not."""
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == 'n':
        return feq(a[1], b[1], tol) and same_sec(a[2], b[2])
    if k == 'b':
        return a[1] == b[1] and same_sec(a[2], b[2])
    if k == 'v' or k == 'm':
        return all(feq(f32(x), f32(y), tol) for x, y in zip(a[1], b[1]))
    if k in 'al':
        return len(a[1]) == len(b[1]) and all(same(x, y, tol) for x, y in zip(a[1], b[1]))
    if k == 'o':
        return a[1].keys() == b[1].keys() and all(same(a[1][q], b[1][q], tol) for q in a[1])
    if k == '?':
        if a[1] is None or b[1] is None:
            return a[1] is None and b[1] is None
        return same(a[1], b[1], tol)
    if k == 'ok':
        return same(a[1], b[1], tol)
    if k == 'err':
        return same(a[1], b[1], tol) and a[2] == b[2]
    return a == b


def same_sec(a, b):
    if a is None or b is None:
        return a is None and b is None
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def feq(x, y, tol=0.0):
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return math.copysign(1, x) == math.copysign(1, y) or tol > 0
    if tol and abs(x) != math.inf and abs(y) != math.inf:
        return abs(x - y) <= tol * max(abs(x), abs(y), 1e-300)
    return False


def show(v, lim=300):
    s = _show(v)
    return s if len(s) <= lim else s[:lim] + '…'


def _show(v):
    if v is None:
        return 'nothing'
    k = v[0]
    if k == 'n':
        return repr(v[1]) + ('' if v[2] is None else '@' + _show(('a', v[2])))
    if k == 'b':
        return str(v[1]).lower() + ('' if v[2] is None else '@' + _show(('a', v[2])))
    if k == 's':
        return repr(v[1])
    if k in 'vm':
        return k + repr(v[1])
    if k == 'a':
        return '[' + ', '.join(_show(x) for x in v[1]) + ']'
    if k == 'l':
        return 'link{' + ' '.join(_show(x) for x in v[1]) + '}'
    if k == 'o':
        return '{' + ', '.join('%s: %s' % (q, _show(v[1][q])) for q in sorted(v[1])) + '}'
    if k == '?':
        return 'none()' if v[1] is None else 'some(%s)' % _show(v[1])
    if k == 'ok':
        return 'ok(%s)' % _show(v[1])
    if k == 'err':
        return 'err(%s, trace=%r)' % (_show(v[1]), v[2])
    return repr(v)


# ---------------------------------------------------------------- worker

class Report:
    """What the monitors saw in one case."""
    __slots__ = ('events', 'over', 'scans', 'refs', 'died', 'raw')

    def __init__(self):
        self.events = []
        self.over = False
        self.scans = 0
        self.refs = 0
        self.died = None       # None | 'signal 11' | 'exit 101' | 'hang' | 'blocked'
        self.raw = b''

    def of(self, tag):
        return [e for e in self.events if e[0] == tag]


class HarnessError(Exception):
    pass


def case_bytes(ops):
    out = []
    for op in ops:
        name, args = op[0], op[1:]
        out.append(b'%s %d\n' % (name.encode(), len(args)))
        for a in args:
            if isinstance(a, str):
                a = a.encode('utf-8', 'surrogatepass')
            elif isinstance(a, (int,)):
                a = str(a).encode()
            out.append(b'%d\n' % len(a))
            out.append(a)
            out.append(b'\n')
    out.append(b'end 0\n')
    return b''.join(out)


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            t = f.read().rsplit(')', 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


class Worker:
    def __init__(self, exe, env=None, cwd=None, cpu=20.0, wall=240.0, stderr=None):
        self.exe, self.env, self.cwd = exe, env, cwd
        self.cpu, self.wall = cpu, wall
        self.stderr = stderr
        self.p = None

    def start(self):
        e = dict(os.environ)
        e['RUST_BACKTRACE'] = '0'
        if self.env:
            e.update(self.env)
        cmd = self.exe if isinstance(self.exe, list) else [self.exe]
        # Runaway memory ends the worker instead of the sandbox (sanitizers reserve address space).
        san = any(d.endswith('san') or 'san_' in d for c in cmd for d in c.split('/'))
        lim = None if san else lambda: resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
        self.p = subprocess.Popen(cmd, preexec_fn=lim, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.stderr if self.stderr is not None else subprocess.DEVNULL,
                                  env=e, cwd=self.cwd, bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            rc = self.p.returncode
            try:
                self.p.stdout.close()
            except OSError:
                pass
            self.p = None
            return rc
        return 0

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.p = None

    def _fill(self, limit_t, cpu0):
        fd = self.p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                b = os.read(fd, 1 << 20)
                if not b:
                    return 'eof'
                self.buf += b
                return None
            if cpu_of(self.p.pid) - cpu0 > self.cpu:
                return 'hang'
            if time.time() > limit_t:
                return 'blocked'

    def run(self, ops):
        """Runs one case and returns a Report."""
        rep = Report()
        if self.p is None:
            self.start()
        data = case_bytes(ops)
        cpu0 = cpu_of(self.p.pid)
        limit = time.time() + self.wall
        try:
            self.p.stdin.write(data)
        except (BrokenPipeError, OSError):
            pass
        need = None
        while True:
            if need is None and b'\n' in self.buf:
                line, rest = self.buf.split(b'\n', 1)
                f = line.split()
                if f[0] != b'R':
                    raise HarnessError('protocol: %r' % line[:80])
                need = int(f[1])
                rep.over = f[2] == b'1'
                rep.scans = int(f[3])
                rep.refs = int(f[4])
                self.buf = rest
            if need is not None and len(self.buf) >= need:
                body, self.buf = self.buf[:need], self.buf[need:]
                for e in dec_all(body):
                    rep.events.append((e[1][0][1],) + e[1][1:])
                return rep
            r = self._fill(limit, cpu0)
            if r == 'eof':
                rc = self.p.wait()
                rep.died = 'signal %d' % -rc if rc < 0 else 'exit %d' % rc
                self.p.stdout.close()
                self.p = None
                return rep
            if r in ('hang', 'blocked'):
                rep.died = r
                self.kill()
                return rep
