"""Effect and typestate analysis over MIR. Every request and every key of both input paths is handled by the
interpreted body of the I/O thread in an arbitrary session state: a key leaves no notice behind while input is allowed, a
notice request stores its line with a deadline of now plus the requested time (any duration: no addition that may not
fit), tells the timer thread that very deadline exactly once, and a heartbeat clears the notice exactly when its own deadline
is known to have passed (comparisons of instants in a normal form). The body of the timer thread is interpreted with an abstract
collection of deadlines (empty / not, sorted / not, first one due / not, received one kept / not): it waits without limit only
with none pending, otherwise until the earliest one, keeps each one received, drops one only when it is due, wakes the session for it,
never blocks on the session, and ends only with it."""
from keys import *
from times import *
from common import *


class Fx(Times, Edit, Effects):
    track = KeyFx.track
    budget = 60
    entry_budget = 60
    max_steps = 600000

    def on_start(self, s):
        Effects.on_start(self, s)
        super().on_start(s)
        s.mon = dict(s.mon, scr='?', over=0, due='?')

    def on_assume(self, s, t, k):
        super().on_assume(s, t, k)
        if 'due' not in s.mon: return
        x = self.tab[t]
        if x[0] != 'call' or x[1] != 'before': return
        dl = self.norm(s, self.deadline0(s))
        isnow = lambda v: self.tab[v][0] in ('fresh', 'call', 'sym') and re.search(r'\bnow\b', self.pp(v)) and dl not in self.subs(v)
        if x[3] == dl and isnow(x[2]): s.mon = dict(s.mon, due='no' if k else 'yes')
        elif x[2] == dl and isnow(x[3]): s.mon = dict(s.mon, due='yes' if k else 'maybe not')

    def deadline0(self, s):
        return self.proj(s, self.proj(s, self.f0('notice'), (1, 0)), (None, self.when()))

    def when(self):
        """which part of a notice is its deadline"""
        t = self.ty(self.ftypes[self.fi_idx('notice')])
        inner = self.ty(t['v'][1]['f'][0][1])
        fs = inner['f'] if inner['k'] == 'tuple' else [x for _, x in inner['v'][0]['f']]
        return [i for i, x in enumerate(fs) if self.is_instant(x)][0]

    def may_overflow(self, s, g):
        if 'over' in s.mon: s.mon = dict(s.mon, over=1)

    def on_send(self, s, ch, v, line, g):
        # a deadline that is dropped when the channel is full has not been told
        if ch == 'other' and 'try' in opname(g['path']): v = self.call('if there is room', v)
        super().on_send(s, ch, v, line, g)


class KFx(Times, KeyFx):
    def on_start(self, s):
        super().on_start(s)
        s.mon = dict(s.mon, over=0)
    when = Fx.when
    may_overflow = Fx.may_overflow

    def on_send(self, s, ch, v, line, g):
        if ch == 'other' and 'try' in opname(g['path']): v = self.call('if there is room', v)
        super().on_send(s, ch, v, line, g)


def expiry_ok(e, x, t, dur):
    """is t the moment `dur` from now (None: any constant)? for one that cannot be represented: at least a day"""
    def parts(v):
        q = e.tab[v]
        if q[0] == 'fld' and e.tab[q[1]][0] == 'call': q = e.tab[q[1]]
        return (pathtail(str(q[1])), q[2:]) if q[0] == 'call' else (None, ())
    n, a = parts(t)
    if n not in ('checked_add', 'add', 'add_assign') or len(a) < 2: return False
    if not re.match(r'now', e.pp(a[0])): return False
    if dur is None: return e.const_duration(x, a[1]) is not None
    if e.norm(x, a[1]) == dur: return True
    c = e.const_duration(x, a[1])
    over = any(e.tab[k][0] == 'discr' and parts(e.tab[k][1])[0] == 'checked_add' and parts(e.tab[k][1])[1][1:] == (dur,) and v == 0 for k, v in x.eq.items())
    return c is not None and c >= 86400 and over


def job(i):
    d, ts, comp, hist = disp._job
    name, cls, kw = ts[i]
    key = cls is EditKey
    e = (KFx if key else Fx)(d, **kw)
    e.go()
    out, n = [], 0
    say = lambda rule, w: out.append((rule, w))
    for x in e.exits:
        if 'resp' not in x.mon: continue
        if x.exit[0] == 'panic' and 'Instant' in str(x.exit[1]): say('panic', 'a panic is not ruled out: %s' % str(x.exit[1][:2])[:100])
        if x.exit[0] != 'idle': continue
        if e.contradiction(x): continue
        n += 1
        if x.mon.get('over'): say('overflow', 'a duration is added to the time of day without checking that the result fits')
        v = e.final(x, 'notice')
        v0 = e.norm(x, e.f0('notice'))
        d1 = e.isc(e.discr(x, v))
        sent = x.mon['other']
        new = v != v0 and d1 == 1
        allowed = e.isc(e.norm(x, e.f0('input_allowed')))
        if new:
            t = e.norm(x, e.proj(x, e.proj(x, v, (1, 0)), (None, e.when())))
            say('deadline', None if [e.norm(x, z) for z in sent] == [t] else 'the deadline of the new notice is told to the timer %s' % ('%d times' % len(sent) if len(sent) != 1 else 'wrongly'))
            if not key and name == 'Notice':
                lt = [z for z in e.payload if e.norm(x, z) in (e.norm(x, e.proj(x, e.proj(x, v, (1, 0)), (None, q))) for q in range(2))]
                say('line', None if lt else 'the notice shown is not the requested one')
                dur = e.norm(x, e.payload[-1])
                say('expiry', None if expiry_ok(e, x, t, dur) else 'the notice is not shown until now plus the requested duration (%s)' % e.pps(t)[:100])
            elif not (key and name == 'x'): say('expiry', None if expiry_ok(e, x, t, None) else 'the notice is not shown until now plus a constant duration (%s)' % e.pps(t)[:100])
        elif name == 'Notice' and not key: say('shown', 'a requested notice is not shown')
        if key:
            if allowed != 0: say('dismiss', None if d1 == 0 or new else 'a notice stays although a key was pressed')
        elif name == 'Heartbeat':
            if sent: say('heartbeat', 'a heartbeat sets a new deadline')
            if v == v0 and e.isc(e.norm(x, e.mk(('discr', v0)))) != 0 and d1 != 0:
                say('heartbeat', None if x.mon['due'] == 'no' else 'a notice stays on a heartbeat although its time may have passed')
            elif d1 == 0: say('heartbeat', None if x.mon['due'] == 'yes' or e.isc(e.norm(x, e.mk(('discr', v0)))) == 0 else 'a notice is dismissed on a heartbeat although its time may not have passed')
            else: say('heartbeat', 'a heartbeat changes the notice')
        elif not new and v != v0 and d1 != 0: say('other', 'the notice is changed')
        if not new and sent: say('deadline', 'a deadline is set without a notice')
    return name, out, n, e.steps, len(e.visited_fns)


def check(ctx):
    for feat in ('default', 'all', 'none', 'noglobal') if ctx.tier == 'thorough' else ('default', 'none'):
        d = ctx.dump(feat)
        ts = edit_tasks(d)
        shown = beats = dismissed = 0
        for name, out, n, steps, fns in par(job, len(ts), (d, ts, True, True)):
            a = ctx.analysed.setdefault(feat, dict(blocks_interpreted=0, scenarios=0, paths=0, functions=0))
            a['blocks_interpreted'] += steps; a['scenarios'] += 1; a['paths'] += n; a['functions'] = max(a['functions'], fns)
            ctx.ob(n > 0, '%s:handled:%s' % (feat, name), 'some path handles it', 'no path handles %s to its end' % name)
            for rule, w in sorted(set(out), key=str):
                if w: ctx.bad('%s:%s:%s:%s' % (feat, rule, name, re.sub(r'\d+', '#', w)[:140]), '%s: %s' % (name, w))
            for rule, w in out:
                if not w: ctx.ok('%s:%s' % (feat, rule), name)
            shown += sum(r == 'expiry' for r, _ in out); beats += sum(r == 'heartbeat' for r, _ in out); dismissed += any(r == 'dismiss' for r, _ in out)
        ctx.floor(feat + '.ways a notice is set', shown, 1)
        ctx.floor(feat + '.heartbeat outcomes', beats, 2)
        ctx.floor(feat + '.dismissing keys', dismissed, 60)
        timer(ctx, feat, d)


def timer(ctx, feat, d):
    e0 = Sess(d)
    rx = e0.cg.reaching(lambda f: f['path'].startswith('std::sync::mpsc::Receiver') and 'Instant' in f['name'])
    fs = {f['id']: f for f, by in spawned(d) if f['id'] in rx and f['id'] != e0.root and 'InputOutput' not in by['path']}
    ctx.floor(feat + '.timer threads', len(fs), 1)
    for fid, f in fs.items():
        e = Heart(d, fid)
        e.go()
        ctx.engine_stats(feat + ' timer', e)
        ends = 0
        for x in e.exits:
            for b in x.mon['bad']: ctx.bad('%s:timer:%s' % (feat, re.sub(r'\d+', '#', b)), 'the timer thread: ' + b)
            if x.exit[0] == 'return':
                ends += 1
                ctx.ob(x.mon['end'], '%s:timer:ends' % feat, 'the timer ends only with the session', 'the timer thread ends although the session goes on')
            else: ctx.bad('%s:timer:%s' % (feat, x.exit[0]), 'the timer thread: %s %s' % (x.exit[0], str(x.exit[1])[:120]))
        ctx.floor(feat + '.timer end states', ends, 1)
        ctx.floor(feat + '.timer blocks', e.steps, 10)
