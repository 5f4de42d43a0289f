"""Typestate over both sides of the shutdown. The owner's side: Drop and every public method that takes the object by
value (enumerated from the type-checked program; asynchronous ones as the state machines the compiler made of them) is
interpreted with every outcome of every channel operation: on every path to its return, the request to stop was sent
(or could not be, because the receiving end is gone), nothing is waited for before it, and the function returns only
after it has found an end of a channel closed. The I/O thread's side: its function is interpreted from its start (both
in a terminal and with pipes; what handles requests and draws may leave any session state; every terminal and mode
operation may fail): on every path, the first of its channel ends is let go only after raw mode is off, the terminal was
cleaned up, the prompt and status were erased (cursor up by the remembered distance, carriage return, clear) unless
nothing was drawn or erasing failed, and, with pipes, the input thread has been joined; each request received is handled
once before the next is received or the thread ends; and after the request to stop it never waits for another one.
The rules meet at the channel: it reports closed to the owner exactly when the thread has let go of its end."""
from life import *


def enders(d):
    out = {}
    for n, f in methods(d).items():
        io = find_adt(d, 'InputOutput')[0]
        if n == 'Drop' or f['argc'] and f['locals'][1] == io: out[n] = f
    # asynchronous ones take the object into the state machine
    return out


def owner(ctx, feat, d):
    es = enders(d)
    for n in ('Drop', 'die', 'blocking_die'):
        ctx.ob(n in es, '%s:shutdown:%s' % (feat, n), 'exists and takes the object', 'no such way to shut down: it is missing, or does not take the object by value')
    drop = es.get('Drop')
    for n, f in sorted(es.items()):
        e = Owner(d, f['id'])
        e.log = False
        out = e.go()
        ctx.engine_stats(feat, e)
        key = '%s:shutdown:%s' % (feat, n)
        rets = [x for x in out if x.exit[0] == 'return']
        if n != 'Drop' and not any(x.mon['sent'] for x in out):
            # it leaves it to the object's Drop: the object must be dropped, not leaked
            kept = [x for x in rets if x.exit[0] == 'return']
            ctx.ob(not leaks(d, f), key, 'leaves the shutdown to Drop', 'neither asks the I/O thread to stop nor drops the object')
            continue
        bad = None
        for x in rets:
            if x.mon['early']: bad = 'waits for the I/O thread before asking it to stop'
            elif 'Die' not in x.mon['sent']: bad = 'can return without having asked the I/O thread to stop'
            elif not x.mon['fin']: bad = 'can return while the I/O thread may still be at work (without having found a channel closed)'
            if bad: break
        ctx.ob(bad is None, key, '%d returning paths, all after the thread let go' % len(rets), '%s %s' % (f['path'], bad))
        ctx.floor('%s: returning paths of %s' % (feat, n), len(rets), 1)
    ctx.analysed.setdefault('ways to shut down', {})[feat] = sorted(es)


def leaks(d, f):
    cg = CallGraph(d)
    return any(re.search(r'mem::forget|ManuallyDrop', d.fns[i]['path']) for i in cg.reach(f['id']) if i in d.fns)


def thread(ctx, feat, d, tty):
    e = Life(d, tty)
    out = e.go()
    ctx.engine_stats(feat, e)
    mode = 'terminal' if tty else 'pipes'
    rets = [x for x in out if x.exit[0] == 'return']
    name = d.fns[e.root]['path']
    found = {}
    for x in out:
        for b in x.mon['bad']: found.setdefault(b, x)
    ks = ('lets go', 'ends', 'handled', 'waits')
    for b in sorted(found): ctx.bad('%s:%s:%s' % (feat, mode, b), 'the I/O thread (%s, %s): %s' % (name, mode, b))
    if not found: ctx.ok('%s:%s' % (feat, mode), '%d ways to end' % len(rets))
    ctx.floor('%s: ways the thread ends (%s)' % (feat, mode), len(rets), 2)
    if tty:
        ctx.floor('%s: endings with the terminal in use' % feat, sum(1 for x in rets if x.mon['term'] and x.mon['stubs']), 2)
        ctx.floor('%s: endings after the request to stop' % feat, sum(1 for x in rets if x.mon['died']), 1)
        ctx.floor('%s: endings without the request to stop' % feat, sum(1 for x in rets if not x.mon['died'] and x.mon['stubs']), 1)
        ctx.floor('%s: endings before the terminal could be used' % feat, sum(1 for x in rets if not x.mon['term']), 1)
    else: ctx.floor('%s: input threads started (pipes)' % feat, e.started, 1)
    ctx.floor('%s: channel ends let go (%s)' % (feat, mode), sum(1 for x in rets if x.mon['let']), 2)
    ctx.analysed.setdefault('summarised', {})[feat] = sorted(d.fns[i]['path'] for i in e.stubs)


def check(ctx):
    for feat in ('default', 'all', 'none', 'noglobal'):
        d = ctx.dump(feat)
        owner(ctx, feat, d)
        if feat == 'noglobal': continue
        for tty in (True, False): thread(ctx, feat, d, tty)
    ctx.assumptions += ['a channel reports closed or gone only once the other side\'s last end has been dropped, and delivers what was sent in order (std and tokio)',
                        'the thread does not panic: panics are C01\'s']
