"""Typestate analysis over MIR: on every path on which the I/O thread handles a suspended callback, in an arbitrary
session state, the order of events must be: prompt area erased, terminal released, callback called exactly once,
terminal taken back; when the thread next waits, the prompt area has been drawn again. In pipe mode the callback is
called exactly once and nothing else happens. The same automaton covers job control: the process is only stopped
while the terminal is released and everything erased, and the session is redrawn after it continues."""
from disp import *
from disp import _one

STOP_KEYS = ('raw U+001A', 'event Ctrl-z')


def check(ctx):
    for feat in ('default', 'all', 'none', 'noglobal'):
        d = ctx.dump(feat)
        for tag, to_block in (('sessions', False), ('to-wait', True)):
            res = [r for r in survey_some(d, to_block)]
            judge(ctx, 'C22', feat, tag, res)
            for name, ends, why, facts, steps, fns in res:
                if name == 'SuspendAndRun':
                    n = 0
                    for kind, order, cbs, scr, susp, stopped, at in facts:
                        if kind not in ('idle', 'return'): continue
                        n += 1
                        ctx.ob(order == ('suspend', 'callback', 'unsuspend') and cbs == 1, '%s:%s:order' % (feat, tag),
                               'release, one call, take back', 'handling a suspended callback does %s (callbacks: %d)' % (list(order), cbs))
                    ctx.floor('%s.%s.callback paths' % (feat, tag), n, 1)
                elif name in STOP_KEYS:
                    n = 0
                    for kind, order, cbs, scr, susp, stopped, at in facts:
                        if kind not in ('idle', 'return') or not stopped: continue
                        n += 1
                        ctx.ob(order == ('suspend', 'stop', 'unsuspend'), '%s:%s:job-control:%s' % (feat, tag, name),
                               'release, stop, take back', 'job control (%s) does %s' % (name, list(order)))
                    ctx.floor('%s.%s.stopping paths of %s' % (feat, tag, name), n, 1)
                if tag == 'to-wait' and (name == 'SuspendAndRun' or name in STOP_KEYS):
                    for r in why:
                        ctx.bad('%s:redraw:%s:%s' % (feat, name, r), 'after %s, when the session next waits: %s' % (name, r))
        e = PipeRequest(d, 'SuspendAndRun')
        e.go()
        ctx.engine_stats(feat + ' pipe', e)
        n = 0
        for x in e.exits:
            if 'out' not in x.mon or x.exit[0] == 'panic': continue
            n += 1
            ctx.ob(x.mon['cb'] == tuple(e.payload), feat + ':pipe:once', 'the callback is called exactly once in pipe mode', 'in pipe mode the callback is called %d time(s)' % len(x.mon['cb']))
            ctx.ob(x.exit[0] == 'idle', feat + ':pipe:continues', 'the session continues', 'in pipe mode the session ends after a callback')
            ctx.ob(not x.mon['out'] and not x.mon['resp'], feat + ':pipe:only', 'nothing else happens', 'in pipe mode a callback request also writes or responds')
        ctx.floor(feat + '.pipe paths', n, 1)


def survey_some(d, to_block):
    ts = [t for t in tasks(d) if t[0] == 'SuspendAndRun' or t[0] in STOP_KEYS]
    if to_block: return par(_one, len(ts), (d, ts, dict(to_block=True)))
    return survey(d, False)

