"""The terminal back ends: what each operation of a Term implementation tells the terminal, as terminal operations (typed
crossterm commands, or control text that is parsed), together with raw mode, the panic hook and the input thread. Every
write, flush and mode change may fail."""
from sess import *


def backends(d):
    """the Term implementations: type -> {operation: function}"""
    out = {}
    for f in d.fns.values():
        m = re.match(r'<(.+) as liso::term::Term>::(\w+)$', f['path'])
        if m and f['local'] and 'blocks' in f and f['id'] < 1000000: out.setdefault(m.group(1), {})[m.group(2)] = f
    for t in out:
        tid = d.types[out[t]['suspend']['locals'][1]]['e']
        for f in d.fns.values():
            if f['local'] and 'blocks' in f and f['id'] < 1000000 and f.get('locals') and f['kind'] in ('item', 'fn') and '{closure' not in f['path'] and f['id'] not in {g['id'] for g in out[t].values()}:
                r = d.types[f['locals'][0]]
                if f['locals'][0] == tid or r['k'] == 'adt' and r['def'] == 'std::result::Result' and r['args'][0] == tid:
                    out[t].setdefault('new', f)
        out[t]['type'] = tid
    return out


class Back(Sess):
    budget = 30
    split_heads = True
    OUT = re.compile(r'std::io::(stdio::)?Stdout|\bStdout(Lock)?\b')

    def __init__(self, d, name, ops):
        super().__init__(d)
        self.name, self.ops, self.self_ty = name, ops, ops['type']
        self.joins = self.cg.reaching(lambda f: bool(re.search(r'JoinHandle.*::join$', f['path'])))
        self.tfields = [n for n, _ in d.types[self.self_ty]['v'][0]['f']]
        self.ansi = any(re.search(r'crossterm::(Queueable|Executable)Command', d.fns[i]['path']) for o in ops if o != 'type' for i in self.cg.reach(ops[o]['id']) if i in d.fns)
        self.hooks = {}

    def should_inline(self, s, g): return True

    # ---- monitor
    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def op(self, s, *o):
        out = s.mon['out']
        if out and out[-1] == o: return
        if len(out) > 2 and out[-2:] == (out[-2], o): return
        self.put(s, 'out', out + (o,) if len(out) < 40 else out)

    def tell(self, s, *o):
        """the terminal is told this (as soon as it is flushed)"""
        self.put(s, 'dirty', True)
        self.op(s, *o)

    def two(self, s, what):
        """an output operation: it may fail"""
        t = self.cur_dest_ty
        ty = self.ty(t)
        if ty.get('def') != 'std::result::Result': return None
        a, b = s.copy(), s.copy()
        self.put(b, 'outerr', True)
        return [(a, self.agg(t, 0, (what if what is not None else self.unit,))), (b, self.agg(t, 1, (self.fresh(b, 'ioerror'),)))]

    # ---- control text
    def chars(self, s, v):
        """the text of a value: a list of characters and of values whose text is not known here"""
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 's': return list(t[1] if isinstance(t[1], str) else t[1].decode('latin1'))
        if t[0] == 'kref': return self.chars(s, t[1])
        if t[0] == 'ref': return self.chars(s, self.content(s, v))
        if t[0] == 'agg' and t[1] in ('arr', 'array') or t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1])['k'] == 'array':
            return [chr(self.isc(x)) if self.isc(x) is not None else x for x in t[3]]
        if t[0] == 'c': return [chr(t[1])] if 0 <= t[1] < 0x110000 else [v]
        if t[0] == 'call' and 'Arguments' in str(t[1]):
            if len(t) == 3: return self.chars(s, t[2])
            return self.template(s, t[2], t[3])
        if t[0] == 'call' and str(t[1]).startswith('fmtarg'): return self.chars(s, t[2])
        if t[0] == 'cast' and len(t) == 3: return [v]
        return [v]

    def template(self, s, tv, av):
        t = self.tab[self.norm(s, tv)]
        while t[0] in ('kref', 'ref'): t = self.tab[t[1] if t[0] == 'kref' else self.content(s, self.mk(t))]
        a = self.tab[self.norm(s, av)]
        while a[0] in ('kref', 'ref'): a = self.tab[a[1] if a[0] == 'kref' else self.content(s, self.mk(a))]
        if t[0] != 'agg' or a[0] != 'agg': return [tv, av]
        xs = [self.isc(x) for x in t[3]]
        if None in xs: return [tv, av]
        out, i, n = [], 0, 0
        while i < len(xs):
            b = xs[i]
            if b == 0: break
            if b == 0xC0:
                out += self.chars(s, a[3][n]) if n < len(a[3]) else [av]
                i += 1
                n += 1
            elif b < 0x80:
                out += list(bytes(xs[i + 1:i + 1 + b]).decode('utf8', 'replace'))
                i += 1 + b
            else: return [tv, av]     # formatting options: not used for control text
        return out

    VT52 = {'e': ('show',), 'f': ('hide',), 'v': ('wrap', 1), 'w': ('wrap', 0), 'p': ('inv', 1), 'q': ('inv', 0), 'J': ('clear', 'down'), 'K': ('clear', 'eol'), 'E': ('clear', 'all'),
            'A': ('move', 'up', 1), 'B': ('move', 'down', 1), 'C': ('move', 'right', 1), 'D': ('move', 'left', 1), 'H': ('moveto', 0, 0)}

    def told(self, s, toks):
        toks = list(s.mon['pend']) + toks
        self.put(s, 'pend', ())
        i, lit = 0, []

        def flush():
            if lit: self.tell(s, 'print', tuple(lit))
            lit.clear()
        while i < len(toks):
            c = toks[i]
            if c != '\x1b':
                if c in ('\r', '\n', '\x07'):
                    flush()
                    self.tell(s, 'ctl', c)
                else: lit.append(c)
                i += 1
                continue
            flush()
            rest = toks[i + 1:]
            if not rest:
                self.put(s, 'pend', tuple(toks[i:]))
                break
            if self.ansi:
                n = self.csi(s, rest)
                if n is None:
                    self.put(s, 'pend', tuple(toks[i:]))
                    break
                i += 1 + n
                continue
            k = rest[0]
            if k in ('b', 'c'):
                if len(rest) < 2:
                    self.put(s, 'pend', tuple(toks[i:]))
                    break
                self.tell(s, 'fg' if k == 'b' else 'bg', self.colour(s, rest[1]))
                i += 3
            elif k == 'Y':
                if len(rest) < 3:
                    self.put(s, 'pend', tuple(toks[i:]))
                    break
                self.tell(s, 'moveto', rest[1], rest[2])
                i += 4
            elif k in self.VT52:
                self.tell(s, *self.VT52[k])
                i += 2
            else:
                self.tell(s, 'unknown', 'ESC ' + (k if isinstance(k, str) else '?'))
                i += 2
        flush()

    def colour(self, s, x):
        """the number of a VT52 colour sent as a character"""
        if isinstance(x, str): return self.c(ord(x) - 0x20)
        return self.sub20(s, x)

    def sub20(self, s, v):
        """the number that this character value encodes"""
        for _ in range(6):
            t = self.tab[self.norm(s, v)]
            if t[0] == 'cast': v = t[2]
            elif t[0] == 'op' and t[1] == 'Add' and self.isc(t[3]) == 0x20: return t[2]
            elif t[0] == 'op' and t[1] == 'Add' and self.isc(t[2]) == 0x20: return t[3]
            else: break
        return self.mk(('unknown colour', v))

    SGR = {0: ('reset',)}

    def csi(self, s, rest):
        if rest[0] != '[':
            self.tell(s, 'unknown', 'ESC ' + str(rest[0]))
            return 1
        j = 1
        while j < len(rest) and isinstance(rest[j], str) and not '@' <= rest[j] <= '~': j += 1
        if j >= len(rest): return None
        if not isinstance(rest[j], str):
            self.tell(s, 'unknown', 'ESC [ ?')
            return j + 1
        seq = ''.join(rest[1:j + 1])
        known = {'?25h': ('show',), '?25l': ('hide',), '?7h': ('wrap', 1), '?7l': ('wrap', 0), '0m': ('reset',), 'm': ('reset',), 'J': ('clear', 'down'), '0J': ('clear', 'down'), '2J': ('clear', 'all'),
                 'K': ('clear', 'eol'), '0K': ('clear', 'eol'), 'H': ('moveto', 0, 0), '1;1H': ('moveto', 0, 0), '39;49m': ('resetcolor',), '49;39m': ('resetcolor',)}
        self.tell(s, *known.get(seq, ('unknown', 'ESC [' + seq)))
        return j + 1

    # ---- crossterm commands
    def command(self, s, v, tid):
        t = self.ty(tid)
        v = self.norm(s, self.snap(s, v, tid))
        n = t['def'].replace('crossterm::', '') if t.get('k') == 'adt' else '?'
        f = self.tab[v]
        fs = f[3] if f[0] == 'agg' else ()
        arg = lambda i: self.norm(s, self.proj(s, v, (None, i)))
        tail = n.split('::')[-1]
        if tail == 'Show': return ('show',)
        if tail == 'Hide': return ('hide',)
        if tail == 'EnableLineWrap': return ('wrap', 1)
        if tail == 'DisableLineWrap': return ('wrap', 0)
        if tail == 'ResetColor': return ('resetcolor',)
        if tail == 'SetAttribute':
            k = self.variant(s, arg(0), t['v'][0]['f'][0][1])
            return ('reset',) if k == 'Reset' else ('attr', k or arg(0))
        if tail == 'SetAttributes': return ('attrs', arg(0))
        if tail == 'SetColors':
            it = t['v'][0]['f'][0][1]
            c = arg(0)
            return ('colors', self.norm(s, self.proj(s, c, (None, 0))), self.norm(s, self.proj(s, c, (None, 1))))
        if tail == 'SetForegroundColor': return ('fg', arg(0))
        if tail == 'SetBackgroundColor': return ('bg', arg(0))
        if tail == 'Clear':
            k = self.variant(s, arg(0), t['v'][0]['f'][0][1])
            return ('clear', {'FromCursorDown': 'down', 'All': 'all', 'UntilNewLine': 'eol', 'CurrentLine': 'line', 'FromCursorUp': 'up', 'Purge': 'purge'}.get(k, k or '?'))
        if tail in ('MoveUp', 'MoveDown', 'MoveLeft', 'MoveRight'): return ('move', tail[4:].lower(), arg(0))
        if tail == 'MoveTo': return ('moveto', self.isc(arg(0)) if self.isc(arg(0)) is not None else arg(0), self.isc(arg(1)) if self.isc(arg(1)) is not None else arg(1))
        if tail == 'MoveToColumn': return ('column', arg(0))
        if tail == 'Print': return ('text', arg(0))
        return ('unknown', n)

    def variant(self, s, v, tid):
        t = self.ty(tid)
        d = self.isc(self.norm(s, self.discr(s, v)))
        if t.get('k') != 'adt': return None
        for x in t['v']:
            if x['d'] == d: return x['name'].split('::')[-1]
        f = self.tab[v]
        if f[0] == 'agg' and f[1] == tid: return t['v'][f[2]]['name'].split('::')[-1]
        return None

    # ---- calls
    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['local'] and g['id'] in self.joins and g.get('locals') and g['argc'] and 'blocks' in g:
            t = self.ty(g['locals'][1])
            t = self.ty(t['e']) if t['k'] == 'ref' else t
            if t != self.ty(self.self_ty) and t.get('k') == 'adt':
                self.op(s, 'interrupt')
                self.put(s, 'input', False)
                return (self.ret(s, dest, target, self.fresh(s, 'interrupt')),)
        return None

    def is_out(self, g, args, argtys):
        n = g['name'] + ' ' + ' '.join(self.d.tyname(t) for t in (g.get('ga') or ()) if isinstance(t, int))
        return bool(self.OUT.search(n)) or bool(argtys and isinstance(argtys[0], int) and self.OUT.search(self.d.tyname(argtys[0])))

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        m = pathtail(p)
        if re.search(r'crossterm::QueueableCommand::queue$|crossterm::(command::)?QueueableCommand>::queue$', p) or p.endswith('ExecutableCommand::execute'):
            self.tell(s, *self.command(s, args[1], argtys[1]))
            r = self.two(s, args[0])
            if m == 'execute' and r: self.put(r[0][0], 'dirty', False)
            return r
        if m in ('write_fmt', 'write_all', 'write') and self.is_out(g, args, argtys):
            self.told(s, self.chars(s, args[1]))
            return self.two(s, self.unit if m != 'write' else self.fresh(s, 'count'))
        if m == 'flush' and self.is_out(g, args, argtys):
            self.op(s, 'flush')
            r = self.two(s, self.unit)
            if r: self.put(r[0][0], 'dirty', False)
            return r
        if re.search(r'io::(stdio::)?_print$', p):
            self.told(s, self.chars(s, args[0]))
            return self.unit
        if p.endswith('terminal::enable_raw_mode') or p.endswith('terminal::disable_raw_mode'):
            on = 'enable' in p
            self.op(s, 'raw', on)
            t = self.cur_dest_ty
            a, b = s.copy(), s.copy()
            self.put(a, 'raw', on)
            self.put(b, 'raw', on)
            if on: self.put(b, 'rawerr', True)
            return [(a, self.agg(t, 0, (self.unit,))), (b, self.agg(t, 1, (self.fresh(b, 'ioerror'),)))]
        if re.search(r'std::panic::take_hook$|panicking::take_hook$', p):
            h = s.mon['hook']
            self.put(s, 'hook', self.sym('default_hook'))
            return h
        if re.search(r'std::panic::set_hook$|panicking::set_hook$', p):
            h = self.norm(s, args[0])
            self.put(s, 'hook', h)
            return self.unit
        if not g['local'] and re.search(r'(Box<.*>|dyn .*) as std::ops::Fn(Once|Mut)?<.*>>::call', p) or g['kind'] == 'virtual' and m in ('call', 'call_once', 'call_mut'):
            self.op(s, 'call', self.norm(s, args[0]))
            self.on_calls(s)
            return self.fresh(s, 'called')
        if re.search(r'thread::(Builder::spawn|spawn)$', p):
            self.put(s, 'input', True)
            ty = self.ty(self.cur_dest_ty)
            if ty.get('def') == 'std::result::Result': return self.agg(self.cur_dest_ty, 0, (self.fresh(s, 'thread'),))
            return self.fresh(s, 'thread')
        if g['local'] and 'blocks' in g: return self.generic_local(s, g, args, argtys)
        return None

    def on_calls(self, s): pass

    # ---- sequences of operations on one terminal
    OBJ = ('G', 'T')

    def begin(self):
        s = mkstate()
        s.mon = {'out': (), 'outerr': False, 'raw': True, 'rawerr': False, 'hook': self.sym('user_hook'), 'dirty': False, 'input': False, 'pend': ()}
        return s

    def again(self, s, keep=('hook', 'raw', 'dirty', 'input')):
        """continue after an operation ended"""
        a = s.copy()
        a.exit = None
        a.stack = ()
        a.tags = {}
        a.mon = {'out': (), 'outerr': False, 'rawerr': False, 'pend': (), **{k: s.mon[k] for k in keep}}
        a.user = {}
        a.store = {o: v for o, v in a.store.items() if o[0] != 'L'}
        return a

    def run_op(self, states, f, extra=(), name='root'):
        """an operation of the back end, from these states: its ends"""
        ini = []
        for s in states:
            args = [self.ref(self.OBJ)] if f['argc'] else []
            args += list(extra)
            while len(args) < f['argc']: args.append(self.sym('%s.arg%d' % (pathtail(f['path']), len(args))))
            self.start(s, f['id'], args[:f['argc']], name)
            ini.append(s)
        n = self.steps
        self.exits = []
        self.seen, self.groups, self.panics = {}, {}, {}
        out = self.explore(ini)
        self.steps += n
        return list(out)

    def result_ok(self, s):
        v = s.user.get('ret')
        return self.isc(self.norm(s, self.discr(s, v))) == 0

    def mutated(self):
        """fields that operations other than suspending and resuming change"""
        out = set()
        for o, f in self.ops.items():
            if o in ('type', 'new', 'suspend', 'unsuspend', 'cleanup'): continue
            out |= self.fields_written(f)
        return out

    def fields_written(self, f, seen=None):
        seen = set() if seen is None else seen
        if f['id'] in seen: return set()
        seen.add(f['id'])
        out = set()
        for st, t in f['blocks']:
            for x in st:
                if x[0] == '=' and len(x[1]) > 2 and x[1][0] == 1 and x[1][1] == '*' and isinstance(x[1][2], list) and x[1][2][0] == 'f': out.add(x[1][2][1])
                if x[0] == '=' and x[2][0] == 'ref' and x[2][1] == 'm' and len(x[2][2]) > 2 and x[2][2][0] == 1 and x[2][2][1] == '*' and isinstance(x[2][2][2], list) and x[2][2][2][0] == 'f':
                    out.add(x[2][2][2][1])
            if t[0] == 'call':
                if len(t[3]) > 2 and t[3][0] == 1 and t[3][1] == '*' and isinstance(t[3][2], list): out.add(t[3][2][1])
                k = t[1]
                g = self.d.fns.get(k[1].get('fn')) if k[0] == 'k' and isinstance(k[1], dict) else None
                if g and g['local'] and 'blocks' in g and g['argc'] and self.ty(g['locals'][1]).get('k') == 'ref' and self.ty(g['locals'][1])['e'] == self.self_ty: out |= self.fields_written(g, seen)
        return out

    def havoc(self, s):
        """other operations happened: what they can change is arbitrary"""
        for i in sorted(self.mutated()):
            v = self.mk(('fresh', 'later', self.tfields[i]))
            s.eq = {t: k for t, k in s.eq.items() if v not in self.leaves(t)}
            s.ne = {t: k for t, k in s.ne.items() if v not in self.leaves(t)}
            self.write(s, (self.OBJ, ((None, i),)), v)
        self.put(s, 'dirty', True)
        return s

    def tf(self, s, i):
        return self.norm(s, self.proj(s, self.content(s, self.ref(self.OBJ)), (None, i)))
