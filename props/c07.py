"""Effect analysis over MIR: the choice of mode is interpreted for every combination of terminal-ness of stdin and
stdout and a table of TERM values; every kind of request is handled by the interpreted body of the I/O thread in pipe
mode with unknown payload, and the bytes written (as terms), responses and callbacks on every path must be exactly
the specified ones; the body of the pipe-mode reader thread is interpreted with an unknown read result, and must
forward each line once with only trailing CR and LF removed (each removal is dominated by a test that such a character is
last) and nothing after the end of input. A call-graph query shows that pipe mode reaches no terminal back end."""
from scen import *


class Mode(Sess):
    def __init__(self, d, tin, tout, term):
        super().__init__(d)
        self.t = (tin, tout)
        self.tval = term

    def tty_value(self, s, g, args):
        t = (self.pp(self.snap(s, args[0], None)) + ' ' + g['name']).lower()
        if ('stdin' in t) == ('stdout' in t): return self.fresh(s, 'tty?')
        return self.c(self.t[0] if 'stdin' in t else self.t[1])

    def env_var(self, s, args):
        k = self.snap(s, args[0], None)
        if self.tab[k] == ('s', 'TERM') and self.tval is not None: return self.agg(self.cur_dest_ty, 0, (self.mk(('s', self.tval)),))
        return super().env_var(s, args)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.term_makers:
            self.finish(s, 'tty', ())
            return ([],)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def on_recv(self, s, kind, g, dest, target, line):
        self.finish(s, 'pipe', (kind,))
        return []

    def go(self):
        s = mkstate()
        f = self.d.fns[self.root]
        self.start(s, self.root, [self.sym('env%d' % i) for i in range(f['argc'])])
        return self.explore([s])


def modes(ctx, feat, d):
    n = 0
    for tin in (0, 1):
        for tout in (0, 1):
            for term in (None, '', 'dumb', 'pipe', 'xterm', 'xterm-256color', 'dumber', 'Dumb', 'vt52', 'pipes', 'tty', 'no', 'du', ' dumb'):
                e = Mode(d, tin, tout, term)
                e.go()
                n += 1
                got = {x.exit[0] for x in e.exits}
                want = 'tty' if tin and tout and term not in ('dumb', 'pipe') else 'pipe'
                ctx.ob(want in got and ('tty' if want == 'pipe' else 'pipe') not in got, '%s:mode:%d%d:%s' % (feat, tin, tout, term), 'mode for stdin tty=%d, stdout tty=%d, TERM=%r' % (tin, tout, term),
                       'stdin tty=%d, stdout tty=%d, TERM=%r: expected %s mode, found %s' % (tin, tout, term, want, sorted(got)))
                ctx.engine_stats(feat + ' mode choice', e)
    ctx.floor(feat + '.mode combinations', n, 40)


STRIP = ('as_bytes', 'as_str', 'deref', 'as_ref', 'borrow', 'to_string', 'into', 'clone', 'to_owned', 'from', 'as_slice')


def pieces(e, v):
    """what an expression writes: a list of ('lit', text) and ('val', term), or None"""
    t = e.tab[v]
    if t[0] == 's': return [('lit', t[1])]
    if t[0] == 'agg' and t[1] == 'arr' and all(e.isc(x) is not None for x in t[3]):
        return [('lit', bytes(e.isc(x) & 255 for x in t[3]).decode('latin1'))]
    if t[0] == 'c': return None
    if t[0] == 'call':
        n = pathtail(str(t[1]))
        if n == 'new' and len(t) == 4 and e.tab[t[2]][0] == 'agg' and e.tab[t[3]][0] == 'agg':
            tpl = [e.isc(x) for x in e.tab[t[2]][3]]
            args = e.tab[t[3]][3]
            if None in tpl: return None
            out, i, k = [], 0, 0
            while i < len(tpl):
                b = tpl[i]
                if b == 0: break
                if b < 128:
                    out.append(('lit', bytes(tpl[i + 1:i + 1 + b]).decode('latin1')))
                    i += 1 + b
                elif b == 192:
                    if k >= len(args): return None
                    a = e.tab[args[k]]
                    if a[0] != 'call' or not str(a[1]).endswith('new_display'): return None
                    p = pieces(e, a[2])
                    if p is None: return None
                    out += p
                    k += 1
                    i += 1
                else: return None
            return out
        if n in ('from_str', 'from_str_nonconst') or (n in STRIP and len(t) == 3): return pieces(e, t[2])
        if n == 'new_const' and len(t) == 3 and e.tab[t[2]][0] == 'agg':
            out = []
            for x in e.tab[t[2]][3]:
                p = pieces(e, x)
                if p is None: return None
                out += p
            return out
    return [('val', v)]


def text_of(e, payload):
    """the term of a line's text"""
    ty = e.d.types[e.req_ty]['v'][e.variants['Output']]['f'][0][1]
    for i, (n, t) in enumerate(e.d.types[ty]['v'][0]['f']):
        if e.d.tyname(t).endswith('String'): return e.mk(('fld', payload, None, i))


def requests(ctx, feat, d):
    e0 = Sess(d)
    n = 0
    for v in sorted(e0.variants):
        e = PipeRequest(d, v)
        e.go()
        ctx.engine_stats(feat + ' pipe requests', e)
        seen = 0
        for x in e.exits:
            if 'out' not in x.mon: continue
            if x.exit[0] not in ('idle', 'return'):
                if v == 'StderrLine' or 'panic' in x.exit[0]: continue   # never sent in pipe mode; failures of the thread machinery
                ctx.bad('%s:pipe:%s:cut' % (feat, v), 'analysis cut short: %s' % (x.exit[0],)); continue
            seen += 1
            n += 1
            m = x.mon
            out = []
            for w in m['out']:
                p = pieces(e, e.tab[w][-1]) if len(e.tab[w]) > 2 else None
                out = None if out is None or p is None else out + p
            want = {'resp': 0, 'cb': 0}
            if v in ('Output', 'OutputWrapped'):
                tx = text_of(e, e.payload[0])
                vals = [y for k, y in out or () if k == 'val']
                lits = ''.join(y for k, y in out or () if k == 'lit')
                ctx.ob(out is not None and vals == [tx] and lits == '\n' and out[-1][0] == 'lit', '%s:pipe:%s:text' % (feat, v), 'the text of the line and one line feed are written',
                       'in pipe mode %s writes %s' % (v, [e.pp(w, 9) for w in m['out']]))
            else:
                ctx.ob(not m['out'], '%s:pipe:%s:silent' % (feat, v), 'writes nothing', 'in pipe mode %s writes %s' % (v, [e.pp(w, 9) for w in m['out']]))
            resp = [(e.tab[r][2] if e.tab[r][0] == 'agg' else None, e.tab[r][3] if e.tab[r][0] == 'agg' else r) for r in m['resp']]
            names = [d.types[e.resp_ty]['v'][a]['name'].split('::')[-1] if a is not None else '?' for a, _ in resp]
            if v == 'RawInput': good = names == ['Input'] and tuple(resp[0][1]) == tuple(e.payload)
            elif v == 'Custom': good = names == ['Custom'] and tuple(resp[0][1]) == tuple(e.payload)
            elif v in ('EndOfInput',): good = names in ([], ['Finish'])
            else: good = not names
            ctx.ob(good, '%s:pipe:%s:response' % (feat, v), 'responds as specified', 'in pipe mode %s makes the responses %s' % (v, [e.pp(r) for r in m['resp']]))
            ctx.ob(m['cb'] == (tuple(e.payload) if v == 'SuspendAndRun' else ()), '%s:pipe:%s:callback' % (feat, v), 'calls back as specified', 'in pipe mode %s calls %d callback(s)' % (v, len(m['cb'])))
            ctx.ob(not m['req'] and not m['other'] and not m['bell'] and not m['lines'], '%s:pipe:%s:other' % (feat, v), 'nothing else', 'in pipe mode %s has other effects' % v)
            if v == 'Die': ctx.ob(x.exit[0] == 'return', '%s:pipe:Die:ends' % feat, 'Die ends the session', 'in pipe mode Die does not end the session')
            elif v not in ('Output', 'OutputWrapped'): ctx.ob(x.exit[0] == 'idle', '%s:pipe:%s:goes-on' % (feat, v), 'the session goes on', 'in pipe mode %s ends the session' % v)
        if v != 'StderrLine': ctx.floor('%s.pipe paths.%s' % (feat, v), seen, 1)
        if v in ('Output', 'OutputWrapped'):
            ctx.ob(any(x.exit[0] == 'idle' for x in e.exits), '%s:pipe:%s:goes-on' % (feat, v), 'the session goes on after a line is printed', 'the session cannot go on after %s' % v)


class Reader(Sess):
    """the reader thread of pipe mode: one read with an unknown result"""
    budget = 30

    def __init__(self, d, fid, eof):
        super().__init__(d)
        self.fid, self.eof = fid, eof

    def hook_call(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if re.search(r'::(read_line|read_until|lines|read|next)$', p) and re.search('Stdin|BufRead', p + g['name']):
            if s.mon['reads'] or s.mon['eof']:
                self.finish(s, 'again', ())
                return ([],)
            outs = []
            s.mon = dict(s.mon)
            a = s.copy()
            a.mon = dict(s.mon)
            if pathtail(p) != 'read_line': 
                s.mon['bad'] = lim(s.mon['bad'], 'reads with %s' % pathtail(p)); return None
            ok = self.ty(self.cur_dest_ty)['v'][0]['f'][0][1]
            l = self.deref(a, args[1])
            a.mon['reads'] = 1
            a.mon['buf'] = l
            if self.eof:
                a.mon['eof'] = 1
                n = self.c(0)
                if self.tab[self.read(a, l)] != ('s', ''): a.mon['bad'] = lim(a.mon['bad'], 'the buffer is not empty before reading a line')
            else:
                n = self.sym('COUNT')
                a.ne[n] = a.ne.get(n, frozenset()) | {0}
                if self.tab[self.read(a, l)] != ('s', ''): a.mon['bad'] = lim(a.mon['bad'], 'the buffer is not empty before reading a line')
                self.write(a, l, self.sym('LINE'))
            a.mon['sub'] = ()
            outs.append((a, self.agg(self.cur_dest_ty, 0, (n,))))
            b = s.copy()
            b.mon = dict(s.mon)
            b.mon['err'] = 1
            outs.append((b, self.agg(self.cur_dest_ty, 1, (self.fresh(b, 'ioerror'),))))
            return (self.ret_many(outs, dest, target),)
        if re.search(r'(string::String|str)(>|::<impl str>)?::', p) or 'std::string::String::' in p:
            m = pathtail(p)
            if m == 'pop' and s.mon.get('buf') is not None:
                cur = self.content(s, args[0])
                f = [k for k, v in s.eq.items() if v == 1 and self.tab[k][0] == 'call' and pathtail(str(self.tab[k][1])) == 'ends_with' and self.tab[k][2] == cur
                     and self.tab[k][3] in (self.c(10), self.c(13))]
                if not f: self.note(s, 'removes a last character not known to be CR or LF')
            elif m == 'truncate' and s.mon.get('buf') is not None and not s.mon.get('sent') and self.trimmed(s, args): pass
            elif m in ('clear', 'truncate', 'remove', 'insert', 'insert_str', 'push', 'push_str', 'retain', 'drain', 'replace_range') and s.mon.get('buf') is not None and not s.mon.get('sent'):
                self.note(s, 'changes the line with %s' % m)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def trimmed(self, s, args):
        """is the line cut to the length that it has without the CR and LF at its end?"""
        cur = self.content(s, args[0])
        t = self.tab[self.norm(s, args[1])]
        if t[0] not in ('call', 'len') or t[0] == 'call' and pathtail(str(t[1])) != 'len': return False
        self.stripped = set()
        of = t[1] if t[0] == 'len' else t[2]
        ok = self.same(self.content(s, of) if self.tab[of][0] == 'ref' else of, cur) and bool(self.stripped)
        if ok: s.mon = dict(s.mon, cut=s.mon.get('cut', frozenset()) | self.stripped)
        return ok

    def note(self, s, w):
        s.mon = dict(s.mon)
        if w not in s.mon['bad']: s.mon['bad'] = lim(s.mon['bad'], w, 5)

    def on_send(self, s, ch, v, line, g):
        if ch != 'request': return
        t = self.tab[v]
        k = [n for n, i in self.variants.items() if t[0] == 'agg' and i == t[2]]
        what = k[0] if k else '?'
        if what == 'RawInput' and s.mon.get('buf') is not None:
            p = self.snap(s, t[3][0], None)
            cur = self.read(s, s.mon['buf'])
            self.stripped = set(s.mon.get('cut', ()))
            same = self.same(p, cur)
            left = [c for c in (10, 13) if c not in self.stripped and self.isc(self.norm(s, self.call_ends(s, cur, c))) != 0]
            if same and left: what = 'RawInput that may still end in ' + ' or '.join({10: 'LF', 13: 'CR'}[c] for c in left)
            if not same: what = 'RawInput of something else: ' + self.pp(p)[:200]
        s.mon = dict(s.mon)
        s.mon['sent'] = lim(s.mon['sent'], what, 4)

    def call_ends(self, s, cur, c):
        for k in s.eq:
            t = self.tab[k]
            if t[0] == 'call' and pathtail(str(t[1])) == 'ends_with' and t[2] == cur and t[3] == self.c(c): return k
        return self.sym('unknown')

    def same(self, p, cur):
        for i in range(6):
            if p == cur: return True
            t = self.tab[p]
            if t[0] == 'deref':
                p = t[1]
                continue
            if t[0] != 'call': return False
            n = pathtail(str(t[1]))
            if n in STRIP and len(t) == 3: p = t[2]
            elif n in ('trim_end_matches', 'trim_right_matches', 'strip_suffix'):
                pat = self.tab[t[3]]
                if n != 'strip_suffix': self.stripped |= {ord(x) for x in pat[1]} if pat[0] == 's' and len(pat[1]) == 1 else {self.isc(x) for x in pat[3]} if pat[0] == 'agg' else {self.isc(t[3])}
                if pat[0] == 's': ok = set(pat[1]) <= set('\r\n') and (n != 'strip_suffix')
                elif pat[0] == 'agg': ok = all(self.isc(x) in (10, 13) for x in pat[3]) and pat[3]
                else: ok = self.isc(t[3]) in (10, 13)
                if not ok: return False
                p = t[2]
            else: return False
        return False

    def go(self):
        s = mkstate()
        s.mon = dict(reads=0, eof=0, err=0, sent=(), bad=(), buf=None)
        f = self.d.fns[self.fid]
        self.start(s, self.fid, [self.sym('env%d' % i) for i in range(f['argc'])])
        return self.explore([s])


def reader(ctx, feat, d):
    e0 = Sess(d)
    cg = e0.cg
    io = cg.reaching(lambda f: bool(re.search(r'Stdin', f['path'])) and pathtail(f['path']) in ('read_line', 'read_until', 'lines', 'read', 'read_to_string'))
    # reader threads started by pipe mode: by the functions that never make a terminal
    term = cg.reaching(lambda f: f['id'] in e0.term_makers)
    bodies = {}
    rootreach = cg.reach(e0.root)
    backends = [p for im in d.impls if im['trait'].endswith('term::Term') for _, p in im['methods']]
    mods = {re.sub(r'^<(.*) as .*', r'\1', p).rsplit('::', 1)[0] for p in backends}
    for f, by in spawned(d):
        if f['id'] in io and by['id'] in rootreach and not any(by['path'].lstrip('<').startswith(m) for m in mods): bodies[f['id']] = f
    ctx.floor(feat + '.pipe reader threads', len(bodies), 1)
    for fid, f in bodies.items():
        for eof in (False, True):
            e = Reader(d, fid, eof)
            e.go()
            ctx.engine_stats(feat + ' pipe reader', e)
            tag = 'eof' if eof else 'line'
            n = 0
            for x in e.exits:
                if x.exit[0] in ('panic', 'diverge', 'unwind'): continue
                m = x.mon
                for b in m['bad']: ctx.bad('%s:reader:%s:%s' % (feat, tag, b), '%s: %s' % (f['path'], b))
                if m['err']:
                    ctx.ob('RawInput' not in str(m['sent']), '%s:reader:error' % feat, 'nothing is invented on a read error', '%s sends a line after a read error' % f['path'])
                    continue
                if not m['reads']: continue
                n += 1
                if eof:
                    ctx.ob(x.exit[0] == 'return', '%s:reader:eof-ends' % feat, 'the reader ends at end of input', '%s keeps reading after the end of input' % f['path'])
                    ctx.ob(m['sent'] in ((), ('EndOfInput',)), '%s:reader:eof-sends' % feat, 'no line is invented at end of input', '%s sends %s at end of input' % (f['path'], list(m['sent'])))
                else:
                    ctx.ob(m['sent'] == ('RawInput',), '%s:reader:once' % feat, 'each line is forwarded once', '%s sends %s for one line' % (f['path'], list(m['sent'])))
            ctx.floor('%s.reader %s paths' % (feat, tag), n, 1)
            if not eof: ctx.ob(any(x.exit[0] == 'again' for x in e.exits), '%s:reader:goes-on' % feat, 'the reader goes on after a line', '%s stops after one line' % f['path'])


def no_control(ctx, feat, d):
    """functions only pipe mode runs cannot reach a back end"""
    e = Sess(d)
    cg = e.cg
    makers = cg.reaching(lambda f: f['id'] in e.term_makers)
    # handlers of requests that cannot make a terminal
    rx = [f['id'] for f in d.fns.values() if f['id'] < 1000000 and f['path'].startswith('std::sync::mpsc::Receiver') and 'Request' in f['name']]
    root = cg.reach(e.root)
    state = set()
    for f in d.fns.values():
        if 'blocks' in f and f['id'] < 1000000 and any(t == e.state_ty for t in f['locals']): state.add(f['id'])
    n = 0
    for f in d.fns.values():
        if f['id'] in root and 'blocks' in f and f['local'] and f['id'] not in makers and cg.succ[f['id']] & set(rx):
            if any('TtyState' in d.tyname(t) or d.types[t] and type_mentions(d, t, lambda y: y.get('k') == 'adt' and d.types[e.state_ty] is y) for t in f['locals'] if isinstance(t, int)): continue
            n += 1
            hit = [d.fns[x]['path'] for x in cg.reach(f['id']) if d.fns[x]['kind'] == 'virtual' and 'Term::' in d.fns[x]['path'] or re.search(r'crossterm::(execute|queue|Command|style|cursor)', d.fns[x]['path'])]
            ctx.ob(not hit, '%s:control:%s' % (feat, f['path']), '%s reaches no terminal operation' % f['path'], '%s reaches %s' % (f['path'], hit[:3]))
    ctx.floor(feat + '.pipe loops', n, 1)


def check(ctx):
    for feat in ('default', 'all', 'none'):
        d = ctx.dump(feat)
        modes(ctx, feat, d)
        requests(ctx, feat, d)
        reader(ctx, feat, d)
        no_control(ctx, feat, d)
