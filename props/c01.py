"""Typestate of the terminal. (1) Each back end (every Term implementation in the type-checked program) is interpreted
through every sequence of its life: created (and failing to be), used in any way, suspended (and failing to be), resumed
(and failing to be), cleaned up while suspended or not; every write, flush and mode change may fail. What each operation
tells the terminal is read from the typed crossterm commands and the control text it emits. Whenever control leaves the
session (created unsuccessfully, suspended, cleaned up), on every path: raw mode is off and the panic hook is the one
that was installed before, even if writing failed; and, unless writing failed, the cursor was shown, wrapping enabled and
the default attributes set (after anything else), and everything flushed. Whenever the session goes on (created,
resumed): raw mode on, wrapping off, and a panic hook installed whose body, interpreted in that state, calls the previous
handler exactly once and only after doing all of that. (2) The I/O thread's own function, as in C02: on every path to
its end, raw mode is off and the back end was cleaned up. (3) Callbacks and job control: the back end is suspended before
program code runs or the process stops, and resumed after."""
from backend import *
from life import Life
from disp import *
from disp import _one
from c22 import STOP_KEYS


class Term1(Back):
    """a back end, with the panic hook's calls judged"""
    def on_calls(self, s):
        v = s.mon['out'][-1][1]
        r = not_normal(self, s, hook=False, free=True)
        self.put(s, 'calls', lim(s.mon.get('calls', ()), (r,), 3))


def last(out, *names):
    for o in reversed(out):
        if o[0] in names: return o
    return None


def colours(out):
    f, b = last(out, 'fg'), last(out, 'bg')
    return (f and f[1], b and b[1])


def not_normal(e, s, hook=True, free=False, want=None):
    """what keeps the terminal from being back to normal here"""
    m = s.mon
    why = []
    if m['raw']: why.append('raw mode is left on')
    if hook and m['hook'] != e.sym('user_hook'): why.append('the panic hook that was installed before is not put back')
    out = m['out']
    if not m['outerr']:
        if last(out, 'show', 'hide') != ('show',): why.append('the cursor is not shown')
        if last(out, 'wrap') != ('wrap', 1): why.append('line wrapping is not enabled')
        a = last(out, 'reset', 'attr', 'attrs', 'fg', 'bg', 'colors', 'resetcolor')
        if e.ansi:
            later = list(out[max([i for i, o in enumerate(out) if o == ('reset',)] + [-1]) + 1:])
            if ('reset',) not in out or any(o[0] in ('attr', 'attrs', 'fg', 'bg', 'colors') for o in later): why.append('the default attributes are not set')
        else:
            c = colours(out)
            if None in c or want is not None and c not in want: why.append('the default colours are not set')
            if last(out, 'inv') == ('inv', 1): why.append('inverse video is left on')
        if m['dirty']: why.append('what the terminal was told is not flushed')
        if m['pend']: why.append('an unfinished control sequence is written')
        for o in out:
            if o[0] == 'unknown': why.append('an unknown control sequence is written (%s)' % o[1])
    return tuple(why)


def default_colours(e, x):
    """the colours that resetting the attributes sets, in this state"""
    if e.ansi: return None
    s = e.again(x)
    e.put(s, 'out', ())
    return {colours(y.mon['out']) for y in e.run_op([s], e.ops['reset_attrs'], name='reset') if y.exit[0] == 'return' and not y.mon['outerr']}


class Judge:
    def __init__(self, ctx, feat, e):
        self.ctx, self.feat, self.e, self.n = ctx, feat, e, 0
        self.who = e.name.split('::')[-1]

    def released(self, xs, when, ended=False):
        e = self.e
        for x in xs:
            self.n += 1
            key = '%s:%s:%s' % (self.feat, self.who, when)
            if x.exit[0] != 'return':
                self.ctx.bad(key + ':panics', '%s panics when %s: %s' % (e.name, when, str(x.exit[1])[:120]))
                continue
            why = not_normal(e, x, want=default_colours(e, x))
            if ended and x.mon['input']: why += ('the input thread is not stopped',)
            for w in why: self.ctx.bad('%s:%s' % (key, w), '%s, %s: on some path, %s' % (e.name, when, w))
            if not why: self.ctx.ok(key, 'terminal normal')

    def live(self, xs, when):
        e = self.e
        for x in xs:
            self.n += 1
            key = '%s:%s:%s' % (self.feat, self.who, when)
            m = x.mon
            self.ctx.ob(m['raw'], key + ':raw', 'raw mode is on', '%s: raw mode is not on when the terminal is %s' % (e.name, when))
            self.ctx.ob(last(m['out'], 'wrap') == ('wrap', 0), key + ':wrap', 'line wrapping is off', '%s: line wrapping is not turned off when the terminal is %s' % (e.name, when))
            self.hook(x, when, key)

    def hook(self, x, when, key):
        e = self.e
        f, env = hook_body(e, x)
        if f is None:
            return self.ctx.bad(key + ':hook', '%s: when the terminal is %s, no panic hook that restores it is installed' % (e.name, when))
        s = e.again(x)
        e.put(s, 'raw', True)
        e.put(s, 'dirty', True)
        e.put(s, 'calls', ())
        want = None
        args = [env] if env is not None else []
        args += [e.sym('panicinfo')]
        e.start(s, f['id'], args[-f['argc']:] if f['argc'] else [], 'hook')
        n = e.steps
        e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
        outs = list(e.explore([s]))
        e.steps += n
        rets = [y for y in outs if y.exit[0] == 'return']
        for y in outs:
            if y.exit[0] != 'return': self.ctx.bad(key + ':hook:panics', '%s: the panic hook can itself panic: %s' % (f['path'], str(y.exit[1])[:100]))
        for y in rets:
            c = y.mon['calls']
            self.ctx.ob(len(c) == 1, key + ':hook:calls', 'the previous handler is called once', '%s: the panic hook calls the previous handler %d time(s)' % (f['path'], len(c)))
            for (why,) in c:
                for w in why: self.ctx.bad(key + ':hook:' + w, '%s: when the panic message is printed, %s' % (f['path'], w))
                if not why: self.ctx.ok(key + ':hook', 'restored before the message')
            if not e.ansi and not y.mon['outerr']:
                w = default_colours(e, y)
                self.ctx.ob(colours(y.mon['out']) in w, key + ':hook:colours', 'default colours', '%s: the panic hook does not set the default colours' % f['path'])
        if not rets: self.ctx.bad(key + ':hook:returns', '%s: the panic hook never gets to an end' % f['path'])


def hook_body(e, x):
    """the function that runs as the panic hook, and its environment"""
    v = x.mon['hook']
    for _ in range(4):
        t = e.tab[v]
        if t[0] == 'ref':
            inner = e.content(x, v)
            it = e.tab[inner]
            if it[0] == 'agg' and isinstance(it[1], int) and e.ty(it[1])['k'] == 'closure':
                c = [f for f in e.d.by_path.get(e.ty(it[1])['def'], []) if 'blocks' in f and f['id'] < 1000000]
                if c: return c[0], v
            if it[0] == 'fn' and isinstance(it[1], int): return e.d.fns[it[1]], None
            v = inner
            continue
        if t[0] == 'agg' and isinstance(t[1], int) and e.ty(t[1])['k'] == 'closure':
            c = [f for f in e.d.by_path.get(e.ty(t[1])['def'], []) if 'blocks' in f and f['id'] < 1000000]
            if c:
                x.store[('G', 'env')] = v
                return c[0], e.ref(('G', 'env'))
        if t[0] == 'fn' and isinstance(t[1], int) and 'blocks' in e.d.fns[t[1]]: return e.d.fns[t[1]], None
        if t[0] == 'agg' and len(t[3]) == 1: v = t[3][0]
        else: break
    return None, None


def uniq(e, xs):
    out = {}
    for x in xs: out.setdefault((e.ident(x), e.monkey(x)), x)
    return list(out.values())


def backend(ctx, feat, d, name, ops):
    e = Term1(d, name, ops)
    for o in ('suspend', 'unsuspend', 'cleanup', 'reset_attrs', 'new'):
        if o not in ops:
            ctx.bad('%s:%s:missing:%s' % (feat, name, o), 'the back end %s has no %s' % (name, o))
            return
    j = Judge(ctx, feat, e)
    steps = e.steps

    def op(xs, o, tidy):
        ss = []
        for x in uniq(e, xs):
            a = e.again(x)
            if tidy: e.havoc(a)
            ss.append(a)
        out = e.run_op(ss, ops[o])
        ok = [x for x in out if x.exit[0] == 'return' and e.result_ok(x)]
        bad = [x for x in out if x.exit[0] == 'return' and not e.result_ok(x)]
        return ok, bad, [x for x in out if x.exit[0] != 'return']

    out = e.run_op([e.begin()], ops['new'])
    live, failed = [], []
    for x in out:
        if x.exit[0] != 'return': continue      # a thread that cannot be started: nothing was changed yet
        v = e.norm(x, x.user['ret'])
        if e.tab[v][0] == 'agg' and e.tab[v][1] == e.self_ty: ok, val = True, v
        else: ok, val = e.result_ok(x), e.norm(x, e.proj(x, v, (0, 0)))
        if ok:
            x.store[e.OBJ] = val
            live.append(x)
        else: failed.append(x)
    for x in out:
        if x.exit[0] != 'return': ctx.ob(x.mon['hook'] == e.sym('user_hook') and not last(x.mon['out'], 'hide', 'wrap', 'raw'), '%s:%s:create:panics' % (feat, j.who), 'nothing was changed before a panic', '%s can panic after it has changed the terminal' % ops['new']['path'])
    j.released(failed, 'it could not be created', ended=True)
    ctx.floor('%s: %s failing to be created' % (feat, j.who), len(failed), 1)
    ctx.floor('%s: %s created' % (feat, j.who), len(live), 1)
    j.live(live, 'created')
    # suspended
    ok, bad, pan = op(live, 'suspend', True)
    j.released(ok + pan, 'suspended')
    ctx.floor('%s: %s suspended' % (feat, j.who), len(ok), 1)
    # failing to be suspended ends the session
    o2, b2, p2 = op(bad, 'cleanup', False)
    for x in o2 + b2: excuse(e, x)
    j.released(o2 + b2 + p2, 'cleaned up after failing to be suspended', ended=True)
    # cleaned up while suspended
    o2, b2, p2 = op(ok, 'cleanup', False)
    for x in o2 + b2: excuse(e, x)
    j.released(o2 + b2 + p2, 'cleaned up while suspended', ended=True)
    # resumed
    up, bad, pan = op(ok, 'unsuspend', False)
    j.live(up, 'resumed')
    ctx.floor('%s: %s resumed' % (feat, j.who), len(up), 1)
    for x in pan: ctx.bad('%s:%s:resume:panics' % (feat, j.who), '%s: resuming panics: %s' % (name, str(x.exit[1])[:120]))
    o2, b2, p2 = op(bad, 'cleanup', True)
    ctx.floor('%s: %s failing to be resumed' % (feat, j.who), len(bad), 1)
    j.released(o2 + b2 + p2, 'cleaned up after failing to be resumed', ended=True)
    # and again, and the end
    ok, bad, pan = op(up, 'suspend', True)
    j.released(ok + pan, 'suspended again')
    o2, b2, p2 = op(live + up, 'cleanup', True)
    j.released(o2 + b2 + p2, 'cleaned up', ended=True)
    ctx.floor('%s: %s cleaned up' % (feat, j.who), len(o2 + b2), 2)
    ctx.engine_stats(feat + ' ' + j.who, e)
    ctx.analysed.setdefault('points where control changes hands', {})[feat + ' ' + j.who] = j.n
    ctx.analysed.setdefault('tells the terminal when suspended', {})[j.who] = sorted({', '.join(str(o[0]) + (' ' + str(o[1]) if len(o) > 1 and isinstance(o[1], (int, str)) else '') for o in x.mon['out']) for x in ok if not x.mon['outerr']})


def excuse(e, x):
    """the terminal was told in an earlier operation, which is judged on its own: only modes, hook and thread are left"""
    e.put(x, 'outerr', True)


def leaving(d):
    ts = [t for t in tasks(d) if t[0] == 'SuspendAndRun' or t[0] in STOP_KEYS]
    return par(_one, len(ts), (d, ts, dict(to_block=False)))


def check(ctx):
    for feat in ('default', 'all'):
        d = ctx.dump(feat)
        bs = backends(d)
        ctx.floor(feat + ': terminal back ends', len(bs), 2)
        for name, ops in sorted(bs.items()): backend(ctx, feat, d, name, ops)
    for feat in ('default', 'all', 'none'):
        d = ctx.dump(feat)
        e = Life(d, True)
        out = e.go()
        ctx.engine_stats(feat + ' thread', e)
        rets = [x for x in out if x.exit[0] == 'return']
        for x in rets:
            for u in e.undone(x): ctx.bad('%s:thread:%s' % (feat, u), 'the I/O thread (%s) can end while %s' % (d.fns[e.root]['path'], u))
            ctx.ok('%s:thread' % feat, 'ends with everything undone')
        ctx.floor(feat + ': ways the thread ends', len(rets), 3)
        ctx.floor(feat + ': endings with the terminal in use', sum(1 for x in rets if x.mon['term'] and x.mon['stubs']), 2)
        for name, ends, why, facts, steps, fns in leaving(d):
            if name != 'SuspendAndRun' and name not in STOP_KEYS: continue
            n = 0
            for kind, order, cbs, scr, susp, stopped, at in facts:
                if kind not in ('idle', 'return') or name != 'SuspendAndRun' and not stopped: continue
                n += 1
                want = ('suspend', 'callback' if name == 'SuspendAndRun' else 'stop', 'unsuspend')
                ctx.ob(order == want, '%s:leaving:%s' % (feat, name), 'suspended before control leaves, resumed after', 'when control leaves the session (%s), the order is %s' % (name, list(order)))
            ctx.floor('%s: paths on which control leaves (%s)' % (feat, name), n, 1)
    ctx.assumptions += ['a terminal does what it is told; if it cannot be written to, nothing more can be asked of it',
                        'crossterm\'s typed commands do what their names say', 'nothing else changes the panic hook during a session']
