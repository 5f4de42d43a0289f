"""Lock and borrow analysis over MIR: guards (mutex, read/write lock, RefCell, parking_lot) are tracked as loans from
acquisition to release along every interpreted path of the I/O thread, for every request and every key in an
arbitrary session state. No path may acquire what it already holds incompatibly, call the program's completor or a
suspended callback while any guard is live, or wait for another thread while the history is locked. The public
functions are interpreted too: the lock on the global output handle is released before any wait, and is not
acquired twice."""
from disp import *

WAIT = re.compile(r'JoinHandle.*::join$|Receiver.*::(recv|recv_timeout|recv_deadline|blocking_recv)$|Condvar.*::wait|std::thread::(sleep|park)')


class LockCall(Sess):
    """a function of the public interface: what is held at each wait"""
    budget = 20

    def __init__(self, d, fid):
        super().__init__(d)
        self.fid = fid

    def flag(self, s, what):
        s.mon = dict(s.mon)
        if what not in s.mon['bad']: s.mon['bad'] = lim(s.mon['bad'], what, 4)

    def acquire(self, s, key, kind, conflict, line, g):
        if conflict: self.flag(s, '%s of something already held' % pathtail(g['path']))

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if s.loans and WAIT.search(g['path']): self.flag(s, 'waits (%s) while holding a lock' % pathtail(g['path']))

    def on_callback(self, s, fv, args, g, line):
        pass

    def go(self):
        s = mkstate()
        s.mon = {'bad': ()}
        f = self.d.fns[self.fid]
        self.start(s, self.fid, [self.sym('arg%d' % i) for i in range(f['argc'])])
        return self.explore([s])


def api_locks(ctx, feat, d):
    cg = CallGraph(d)
    locks = cg.reaching(lambda f: bool(re.search(r'Mutex.*::(lock|try_lock)$|RwLock.*::(read|write|try_read|try_write)$', f['path'])) and not f['local'])
    root = Sess(d).root
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f['path']):
        if not (f['local'] and f['id'] < 1000000 and 'blocks' in f and f['id'] in locks and f['kind'] in ('item', 'fn')): continue
        if not (f['path'].startswith('liso::') and re.match(r'(liso::(InputOutput|Output|OutputOnly)::\w+$|liso::\w+$)', f['path']) or 'Drop>::drop' in f['path']): continue
        e = LockCall(d, f['id'])
        e.skip = root
        e.go()
        n += 1
        ctx.engine_stats('%s %s' % (feat, f['path']), e)
        bad = {w for x in e.exits for w in x.mon['bad']}
        for x in e.exits:
            if x.exit[0] not in ('return', 'panic', 'diverge', 'unwind'): bad.add('analysis cut short: ' + str(x.exit[0]))
        ctx.ob(not bad, '%s:locks:%s' % (feat, f['path']), '%s takes each lock once and holds none while waiting' % f['path'], '%s: %s' % (f['path'], '; '.join(sorted(bad))))
    if 'global' in feat or feat in ('default', 'all'): ctx.floor(feat + '.interface functions taking locks', n, 3)


def check(ctx):
    for feat in ('default', 'all', 'none'):
        d = ctx.dump(feat)
        n = judge(ctx, 'C19', feat, 'sessions', survey(d, True))
        ctx.floor(feat + '.end states', n, 300)
        api_locks(ctx, feat, d)
