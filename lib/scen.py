"""Per-request effects, shared by several checks."""
from sess import *


def lim(t, x, n=3):
    """append to a bounded event list"""
    return t + (x,) if len(t) < n else t


class Effects(OneRequest):
    """what handling one request does: lines put out, responses, callbacks, bells, deadlines"""
    stub_draw = True
    budget = 12
    entry_budget = 24
    track = ('lines', 'resp', 'cb', 'bell', 'other', 'req')

    def on_start(self, s):
        s.mon = dict(s.mon)
        for k in self.track: s.mon[k] = ()

    def add(self, s, k, x):
        if k in self.track and k in s.mon:
            s.mon = dict(s.mon)
            s.mon[k] = lim(s.mon[k], x)

    def line_arg(self, g, args):
        lt = set(find_adt(self.d, 'Line'))
        for i in range(g['argc']):
            t = self.d.types[g['locals'][i + 1]]
            if t and t['k'] == 'ref' and t['e'] in lt: return i
        return None

    def remembers(self, g):
        """does this drawing function keep what it drew (the prompt area), or not (a printed line)?"""
        return bool(self.modified_fields(g['id']))

    def on_draw(self, s, g, args, line):
        if self.remembers(g):
            self.on_display(s, g, args, line)
        else:
            i = self.line_arg(g, args)
            self.add(s, 'lines', self.snap(s, args[i], g['locals'][i + 1]))

    def on_display(self, s, g, args, line):
        pass

    def on_term(self, s, m, g, args, line):
        if m == 'bell': self.add(s, 'bell', 1)
        if m in ('print', 'print_char'): self.add(s, 'lines', self.call('raw', self.snap(s, args[1], None)))

    def on_send(self, s, ch, v, line, g):
        k = {'response': 'resp', 'request': 'req'}.get(ch, 'other')
        self.add(s, k, self.snap(s, v, None))

    def on_callback(self, s, fv, args, g, line):
        v = self.content(s, fv) if self.tab[fv][0] in ('ref', 'kref') else fv
        t = self.tab[v]
        if t[0] == 'deref': v = t[1]
        self.add(s, 'cb', v)

    def changed(self, s):
        """fields that may differ from their value at the start, with their final value"""
        out = {}
        for n in self.fields:
            a, b = self.norm(s, self.f0(n)), self.final(s, n)
            if a != b: out[n] = b
        return out


class ApiCall(Sess):
    """a public method with unknown arguments, up to its return"""
    budget = 12

    def __init__(self, dump, fid):
        super().__init__(dump)
        self.fid = fid

    def on_send(self, s, ch, v, line, g):
        s.mon = dict(s.mon)
        s.mon['sent'] = lim(s.mon.get('sent', ()), self.snap(s, v, None))
        s.mon['ch'] = lim(s.mon.get('ch', ()), ch)

    def go(self):
        s = mkstate()
        s.mon = {'sent': (), 'ch': ()}
        f = self.d.fns[self.fid]
        self.args = [self.sym('arg%d' % i) for i in range(f['argc'])]
        self.start(s, self.fid, self.args)
        return self.explore([s])


def api_methods(dump, owner='Output'):
    """public methods by name"""
    out = {}
    for f in dump.fns.values():
        if f['path'].startswith('liso::%s::' % owner) and '{' not in f['path'] and 'blocks' in f:
            n = pathtail(f['path'])
            if n not in out or f['id'] < 1000000: out[n] = f
    return out


def import_term(dst, src, v):
    """copy a term between engines"""
    def go(x):
        if isinstance(x, V): return dst.mk(tuple(go(y) for y in src.tab[x]))
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    return go(v)


class SentEffects(Effects):
    """effects of a request that a public method sent, in terms of that method's arguments"""

    def __init__(self, dump, src, sent):
        t = src.tab[sent]
        names = [v['name'].split('::')[-1] for v in dump.types[t[1]]['v']]
        super().__init__(dump, names[t[2]])
        self.sent = import_term(self, src, sent)

    def request_value(self, s):
        self.payload = self.tab[self.sent][3]
        return self.sent

    def started(self):
        return [x for x in self.exits if 'lines' in x.mon]


class PipeRequest(Effects):
    """one request handled in pipe mode"""
    tty = False
    track = ('lines', 'resp', 'cb', 'bell', 'other', 'req', 'out', 'err')
    WRITES = re.compile(r'^(<std::io::(Stdout|StdoutLock|LineWriter|BufWriter)\b.*>::(write|write_all|write_fmt|write_vectored)$|std::io::(stdio::)?_print$|std::io::Write::(write|write_all|write_fmt)$|nix::unistd::write$|libc::(\w+::)*write$)')

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if 'out' not in s.mon: return
        p = g['path']
        if self.WRITES.search(p): self.add(s, 'out', self.call('write', *[self.snap(s, a, t) for a, t in zip(args, argtys)]))
        elif 'crossterm::' in p and re.search(r'execute|queue|Command', p): self.add(s, 'out', self.call('control'))
        elif 'Term' in p and g['kind'] == 'virtual': self.add(s, 'out', self.call('terminal'))
        elif p.endswith('_eprint') or 'std::io::Stderr' in p and 'write' in p: self.add(s, 'err', self.call('stderr'))


class PureCall(ApiCall):
    """a function applied to given argument terms, up to its return"""
    budget = 400
    entry_budget = 400

    def run_on(self, make_args):
        s = mkstate()
        s.mon = {'sent': (), 'ch': ()}
        self.args = make_args(self)
        self.start(s, self.fid, self.args)
        self.explore([s])
        return [(x, self.norm(x, x.user['ret'])) for x in self.exits if x.exit[0] == 'return'], [x for x in self.exits if x.exit[0] != 'return']


def find_fn(dump, path):
    """functions by the end of their path"""
    return [f for f in dump.fns.values() if f['path'].endswith(path) and 'blocks' in f]


def spawned(d):
    """bodies of the closures handed to a new thread, with where"""
    clos = {}
    for f in d.fns.values():
        if f['local'] and f['id'] < 1000000 and '{closure' in f['path'] and 'blocks' in f: clos.setdefault(f['path'], []).append(f)
    out = []
    for f in d.fns.values():
        if 'blocks' not in f: continue
        for st, t in f['blocks']:
            if t[0] != 'call' or t[1][0] != 'k' or not isinstance(t[1][1].get('fn'), int): continue
            g = d.fns.get(t[1][1]['fn'])
            if g is None or not re.match(r'(std::thread::|tokio::(task|runtime)::)', g['path']): continue
            for o in t[2]:
                ty = None
                if o[0] in ('c', 'm') and len(o[1]) == 1: ty = f['locals'][o[1][0]]
                elif o[0] == 'k': ty = o[2]
                tt = d.types[ty] if isinstance(ty, int) else None
                if tt and tt['k'] == 'closure': out += [(c, f) for c in clos.get(tt['def'], ())]
                elif tt and tt['k'] == 'fndef' and isinstance(tt.get('fn'), int) and 'blocks' in d.fns.get(tt['fn'], {}): out.append((d.fns[tt['fn']], f))
    return out
