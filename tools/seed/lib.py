"""shared by the demonstrations: builds a small program against the crate in the current directory and drives it
on a pseudo-terminal with a scratch emulator. Everything it writes is inside a temporary directory."""
import fcntl, os, pty, re, select, shutil, signal, struct, subprocess, sys, tempfile, termios, time, unicodedata

HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
REPO = os.getcwd()
_tmp = tempfile.TemporaryDirectory(prefix='liso-demo-')
TMP = _tmp.name


def env(**kw):
    e = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=TMP + '/target')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('LISO_CROSSTERM_INPUT', 'COLUMNS', 'LINES'): e.pop(k, None)
    e.update(kw)
    return e


def build(features=None, default=True, name='main.rs', expect=True):
    d = TMP + '/prog'
    os.makedirs(d + '/src', exist_ok=True)
    shutil.copy(os.path.join(HERE, name), d + '/src/main.rs')
    f = ''
    if features: f += ', features=[%s]' % ','.join('"%s"' % x for x in features)
    if not default: f += ', default-features=false'
    open(d + '/Cargo.toml', 'w').write('[package]\nname="prog"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nliso={path="%s"%s}\n[workspace]\n' % (REPO, f))
    for lock in (REPO + '/Cargo.lock', '/opt/vp/Cargo.lock'):
        if os.path.exists(lock): shutil.copy(lock, d + '/Cargo.lock'); break
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if not expect: return None
        print(r.stdout[-3000:]); sys.exit(3)
    return TMP + '/target/debug/prog'


class Screen:
    """enough of a terminal"""

    def __init__(self, w, h):
        self.w, self.h, self.x, self.y, self.wrap = w, h, 0, 0, True
        self.g = [[' '] * w for _ in range(h)]
        self.a = [[''] * w for _ in range(h)]
        self.attr, self.hidden, self.bells, self.pend, self.buf, self.raw = [], False, 0, False, '', ''

    def lf(self):
        if self.y == self.h - 1: self.g = self.g[1:] + [[' '] * self.w]; self.a = self.a[1:] + [[''] * self.w]
        else: self.y += 1

    def put(self, c):
        n = 0 if unicodedata.combining(c) else 2 if unicodedata.east_asian_width(c) in 'WF' else 1
        if not n: return
        if self.pend and self.wrap or self.x + n > self.w and self.wrap: self.x = 0; self.lf()
        self.pend = False
        if self.x + n > self.w: self.x = self.w - n
        self.g[self.y][self.x] = c; self.a[self.y][self.x] = ';'.join(self.attr)
        if n == 2: self.g[self.y][self.x + 1] = ''
        self.x += n
        if self.x >= self.w: self.x = self.w - 1; self.pend = True

    def feed(self, s):
        self.buf += s; self.raw += s
        while self.buf:
            c = self.buf[0]
            if c == '\x1b':
                m = re.match(r'\x1b\[([?0-9;]*)([@-~])|\x1b([^\[])', self.buf)
                if not m: return
                self.buf = self.buf[m.end():]
                if m.group(2): self.csi(m.group(1), m.group(2))
                continue
            self.buf = self.buf[1:]
            if c == '\r': self.x = 0; self.pend = False
            elif c == '\n': self.lf(); self.pend = False
            elif c == '\x07': self.bells += 1
            elif c == '\b': self.x = max(0, self.x - 1); self.pend = False
            elif c >= ' ': self.put(c)

    def csi(self, p, f):
        ps = [int(z) for z in p.replace('?', '').split(';') if z] if p else []
        n = max(1, ps[0]) if ps else 1
        if f == 'm':
            if not ps or 0 in ps[:1]: self.attr = []
            self.attr += [z for z in p.split(';') if z and z != '0']
            return
        if f in 'hl' and p.startswith('?'):
            if ps == [25]: self.hidden = f == 'l'
            if ps == [7]: self.wrap = f == 'h'
            return
        self.pend = False
        if f == 'A': self.y = max(0, self.y - n)
        elif f == 'B': self.y = min(self.h - 1, self.y + n)
        elif f == 'C': self.x = min(self.w - 1, self.x + n)
        elif f == 'D': self.x = max(0, self.x - n)
        elif f == 'G': self.x = min(self.w - 1, n - 1)
        elif f == 'H': self.y = (ps[0] - 1 if ps else 0); self.x = (ps[1] - 1 if len(ps) > 1 else 0)
        elif f == 'J':
            k = ps[0] if ps else 0
            for y in range(self.h):
                for x in range(self.w):
                    if k == 2 or (k == 0 and (y, x) >= (self.y, self.x)): self.g[y][x] = ' '; self.a[y][x] = ''
        elif f == 'K':
            k = ps[0] if ps else 0
            for x in range(self.w):
                if k == 2 or (k == 0 and x >= self.x) or (k == 1 and x <= self.x): self.g[self.y][x] = ' '; self.a[self.y][x] = ''

    def lines(self): return [''.join(r).rstrip() for r in self.g]
    def text(self): return '\n'.join(self.lines()).rstrip('\n')


class Session:
    def __init__(self, exe, *args, size=(24, 80), term='xterm', **kw):
        self.screen = Screen(size[1], size[0])
        self.log = TMP + '/log%d' % id(self)
        open(self.log, 'w').close()
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            time.sleep(0.1)
            os.execve(exe, [exe] + list(args), env(TERM=term, DEMO_LOG=self.log, DEMO_TMP=TMP, **kw))
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', size[0], size[1], 0, 0))
        self.start = termios.tcgetattr(self.fd)
        self.status = None
        self.out = b''

    def pump(self, secs):
        t = time.time() + secs
        while time.time() < t and self.status is None:
            r, _, _ = select.select([self.fd], [], [], min(0.05, max(0, t - time.time())))
            if r:
                try: d = os.read(self.fd, 65536)
                except OSError: d = b''
                if not d: self.reap(); return
                self.out += d
                self.screen.feed(d.decode('utf8', 'replace'))
            else: self.reap(False)

    def reap(self, block=True):
        for i in range(40 if block else 1):
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p: self.status = st; break
            if block: time.sleep(0.05)

    def until(self, what, secs=10):
        """wait for text in the program's own log"""
        t = time.time() + secs
        while time.time() < t:
            if what in self.got(): return True
            if self.status is not None: break
            self.pump(0.05)
        return what in self.got()

    def seen(self, what, secs=10):
        """wait for text on the screen"""
        t = time.time() + secs
        while time.time() < t:
            if what in self.screen.text(): return True
            if self.status is not None: break
            self.pump(0.05)
        return what in self.screen.text()

    def send(self, b):
        os.write(self.fd, b if isinstance(b, bytes) else b.encode())

    def got(self): return open(self.log).read()

    def wait(self, secs=10):
        t = time.time() + secs
        while self.status is None and time.time() < t: self.pump(0.05)
        return self.status

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            self.reap()
        os.close(self.fd)


def done(ok, why=''):
    print('ok' if ok else 'FAILED: ' + str(why))
    _tmp.cleanup()
    sys.exit(0 if ok else 1)
