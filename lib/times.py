"""Instants as terms: comparisons in a normal form, durations up to a deadline, additions that may not fit"""
from scen import *
from edit import opname

INSTANT = re.compile(r'<(std|tokio)::time::Instant as std::(ops::(Add|Sub)|cmp::(PartialOrd|Ord))|^(std|tokio)::time::Instant::(checked_|saturating_)?(duration_since|elapsed)|time::Instant::elapsed')


class Times:
    """mixin: `before(a, b)` facts for every spelling of a comparison of two instants"""

    def before(self, s, a, b):
        return self.call('before', self.norm(s, a), self.norm(s, b))

    def time_call(self, s, g, args, argtys):
        p, m = g['path'], pathtail(g['path'])
        if not INSTANT.search(p) and not (m in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'max', 'min') and 'Instant' in g['name']): return None
        a = [self.snap(s, x, t) for x, t in zip(args, argtys)]
        if m == 'lt': return self.before(s, a[0], a[1])
        if m == 'gt': return self.before(s, a[1], a[0])
        if m == 'ge': return self.notv(s, self.before(s, a[0], a[1]))
        if m == 'le': return self.notv(s, self.before(s, a[1], a[0]))
        if m in ('cmp', 'partial_cmp'):
            out = []
            ty = self.cur_dest_ty
            ot = ty if m == 'cmp' else self.ty(ty)['v'][1]['f'][0][1]
            for name, fs in (('Less', ((a[0], a[1], 1),)), ('Greater', ((a[1], a[0], 1),)), ('Equal', ((a[0], a[1], 0), (a[1], a[0], 0)))):
                t = s.copy()
                try:
                    for x, y, k in fs: self.assume(t, self.before(t, x, y), k)
                except Infeasible: continue
                vi = [i for i, v in enumerate(self.ty(ot)['v']) if v['name'].endswith(name)][0]
                v = self.agg(ot, vi, ())
                out.append((t, v if m == 'cmp' else self.agg(ty, 1, (v,))))
            return out
        if m in ('sub', 'duration_since', 'saturating_duration_since') and self.is_instant(argtys[1] if len(argtys) > 1 else None):
            return self.call('until', self.norm(s, a[0]), self.norm(s, a[1]))
        if m == 'checked_duration_since':
            out = []
            ty = self.cur_dest_ty
            for k in (0, 1):
                t = s.copy()
                try: self.assume(t, self.before(t, a[0], a[1]), k)
                except Infeasible: continue
                out.append((t, self.agg(ty, 0, ()) if k else self.agg(ty, 1, (self.call('until', self.norm(t, a[0]), self.norm(t, a[1])),))))
            return out
        if m == 'add' and 'Instant as std::ops::Add' in p:
            if not self.const_duration(s, a[1]): self.may_overflow(s, g)
        return None

    def may_overflow(self, s, g):
        pass

    def is_instant(self, ty):
        t = self.ty(ty) if isinstance(ty, int) else {}
        while t.get('k') in ('ref', 'ptr'): t = self.ty(t['e'])
        return t.get('def', '').endswith('time::Instant')

    def const_duration(self, s, v):
        """seconds of a constant duration, else None"""
        t = self.tab[self.norm(s, v)]
        if t[0] == 'call' and pathtail(str(t[1])) in ('from_secs', 'from_millis', 'from_micros', 'from_nanos', 'new') and len(t) >= 3:
            k = self.isc(t[2])
            if k is not None: return k / {'from_secs': 1, 'new': 1, 'from_millis': 1e3, 'from_micros': 1e6, 'from_nanos': 1e9}[pathtail(str(t[1]))] or 1e-9
        if t[0] == 'agg': return 1e-9 if all(self.isc(x) is not None or self.tab[x][0] == 'agg' for x in t[3]) else None
        if t[0] in ('const', 'kc'): return 1e-9
        return None

    def model(self, s, g, args, argtys, dest, target, line):
        r = self.time_call(s, g, args, argtys)
        if r is not None: return r
        return super().model(s, g, args, argtys, dest, target, line)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        r = self.time_call(s, g, args, argtys)
        if isinstance(r, list): return (self.ret_many(r, dest, target),)
        if r is not None: return (self.ret(s, dest, target, r),)
        return super().hook_call(s, g, args, argtys, dest, target, line)


class Heart(Times, Sess):
    """the thread that waits for deadlines: an abstract collection of instants with a first one"""
    COLL = re.compile(r'(Vec(::)?<std::time::Instant>|VecDeque(::)?<std::time::Instant>|\[std::time::Instant\]|BinaryHeap(::)?<(std::cmp::Reverse<)?std::time::Instant|BTreeSet(::)?<std::time::Instant)')
    budget = 60
    entry_budget = 60

    def __init__(self, d, fid):
        super().__init__(d)
        self.fid = fid

    def note(self, s, w):
        s.mon = dict(s.mon)
        if w not in s.mon['bad'] and len(s.mon['bad']) < 4: s.mon['bad'] += (w,)

    def set(self, s, **kw):
        s.mon = dict(s.mon)
        s.mon.update(kw)

    def forget(self, s, old, new):
        """what was called `old` is now out of date"""
        memo = {}

        def go(x):
            if isinstance(x, V):
                if x not in memo: memo[x] = new if x == old else self.mk(tuple(go(y) for y in self.tab[x]))
                return memo[x]
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        for o, v in list(s.store.items()):
            if old in self.subs(v): s.store[o] = go(v)
        s.eq = {k: v for k, v in s.eq.items() if old not in self.subs(k)}
        s.ne = {k: v for k, v in s.ne.items() if old not in self.subs(k)}

    def changed(self, s):
        self.forget(s, self.FIRST, self.sym('formerly first'))
        self.set(s, due=0)

    def on_assume(self, s, t, k):
        if t == self.call('before', self.NOW, self.FIRST): self.set(s, due=int(k == 0))

    def empties(self, s):
        """[(state, is it empty)]"""
        n = s.mon['n']
        out = []
        for k in (0, 1):
            if n in ('?', '+' if k == 0 else 0):
                t = s.copy()
                self.set(t, n='+' if k == 0 else 0)
                out.append((t, k))
        return out

    def opt(self, some):
        return self.agg(self.cur_dest_ty, 1, (some,)) if some is not None else self.agg(self.cur_dest_ty, 0, ())

    def coll_call(self, s, g, args, argtys, line):
        m = opname(g['path'])
        name = g['name']
        rev = 'BinaryHeap' in name
        if m in ('with_capacity', 'new', 'default'):
            self.set(s, n=0, sorted=1)
            return self.Q
        if m in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'reserve', 'iter', 'as_ref', 'as_mut', 'into_iter', 'copied', 'cloned', 'borrow', 'drop', 'capacity', 'shrink_to_fit'):
            return self.unit if m in ('reserve', 'drop', 'shrink_to_fit') else args[0]
        if m == 'is_empty': return [(t, self.c(k)) for t, k in self.empties(s)]
        if m == 'len':
            out = []
            for t, k in self.empties(s):
                if k: out.append((t, self.c(0)))
                else:
                    v = self.sym('how many')
                    self.assume_ne(t, v, 0)
                    out.append((t, v))
            return out
        if m in ('first', 'front', 'peek', 'get', 'min', 'first_mut'):
            if m == 'get' and self.isc(self.norm(s, args[1])) != 0: return [(s, self.fresh(s, 'some deadline'))]
            if m == 'peek' and 'Reverse' not in name: self.note(s, 'the latest deadline is looked at instead of the earliest')
            if m not in ('min', 'peek') and 'BTreeSet' not in name and not s.mon['sorted'] : self.note(s, 'the first of the unsorted deadlines is taken for the earliest')
            out = []
            for t, k in self.empties(s):
                f = self.mk(('kref', self.wrapped(g, self.FIRST)))
                if m == 'min' and not self.wants_ref(): f = self.FIRST
                out.append((t, self.opt(None if k else f)))
            return out
        if m in ('index', 'index_mut'):
            if self.isc(self.norm(s, args[1])) == 0:
                if s.mon['n'] != '+': self.note(s, 'the first deadline is taken although there may be none')
                if not s.mon['sorted']: self.note(s, 'the first of the unsorted deadlines is taken for the earliest')
                return self.mk(('kref', self.FIRST))
            self.note(s, 'a deadline other than the first is looked at')
            return self.mk(('kref', self.fresh(s, 'some deadline')))
        if m in ('push', 'push_back', 'insert', 'push_front'):
            x = self.snap(s, args[-1], None)
            t = self.tab[x]
            if t[0] == 'agg' and len(t[3]) == 1: x = self.norm(s, t[3][0])
            if x != self.GOT: self.note(s, 'something other than the received deadline is kept')
            place = self.tab[self.norm(s, args[1])] if m == 'insert' and len(args) == 3 else None
            keeps = rev or 'BTreeSet' in name or s.mon['n'] == 0 or (place is not None and s.mon['sorted'] and place[0] == 'call' and place[1] == 'place for')
            self.set(s, n='+', sorted=int(bool(keeps)), held=0)
            if 'BTreeSet' in name: self.note(s, 'equal deadlines are kept only once') if False else None
            self.changed(s)
            return self.unit if 'BTreeSet' not in name else self.fresh(s, 'inserted')
        if m in ('sort', 'sort_unstable'):
            self.set(s, sorted=1)
            self.changed(s)
            return self.unit
        if m in ('partition_point', 'binary_search'): 
            v = self.call('place for', self.GOT)
            if m == 'partition_point': return v
            return [(s.copy(), self.agg(self.cur_dest_ty, 0, (v,))), (s, self.agg(self.cur_dest_ty, 1, (v,)))]
        if m in ('remove', 'pop_front', 'pop', 'pop_first'):
            head = m == 'pop_front' or m == 'pop_first' or m == 'pop' and rev or m == 'remove' and len(args) > 1 and self.isc(self.norm(s, args[1])) == 0
            if not head: self.note(s, 'a deadline other than the first is dropped')
            if not s.mon['sorted']: self.note(s, 'the first of the unsorted deadlines is taken for the earliest')
            if m == 'remove' and s.mon['n'] != '+': self.note(s, 'a deadline is removed although there may be none')
            outs = []
            for t, k in (self.empties(s) if m != 'remove' else [(s, 0)]):
                if not k:
                    if not t.mon['due']: self.note(t, 'a deadline is dropped before it is known to have passed')
                    self.set(t, owed=1 if not t.mon['sent'] else 0, n='?')
                    self.changed(t)
                r = self.sym('formerly first')
                if m == 'remove': return r
                outs.append((t, self.opt(None if k else self.wrapped(g, r))))
            return outs
        self.note(s, 'the deadlines are handled with %s, which this analysis does not know' % m)
        self.changed(s)
        self.set(s, n='?', sorted=0)
        return self.fresh(s, m)

    def wants_ref(self):
        t = self.ty(self.cur_dest_ty)
        try: return self.ty(t['v'][1]['f'][0][1])['k'] == 'ref'
        except (KeyError, IndexError, TypeError): return True

    def wrapped(self, g, v):
        if 'Reverse' not in g['name']: return v
        for i, t in enumerate(self.d.types):
            if t and t.get('def') == 'std::cmp::Reverse': return self.agg(i, 0, (v,))
        return v

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if self.COLL.search(g['name']) and opname(g['path']) != 'drop_in_place' and g['kind'] != 'drop':
            r = self.coll_call(s, g, args, argtys, line)
            if isinstance(r, list): return (self.ret_many(r, dest, target),)
            return (self.ret(s, dest, target, r),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def model(self, s, g, args, argtys, dest, target, line):
        p, m = g['path'], pathtail(g['path'])
        if self.COLL.search(g['name']) and not p.startswith('std::sync'):
            return self.coll_call(s, g, args, argtys, line)
        if p.endswith('time::Instant::now'):
            self.forget(s, self.NOW, self.OLD)
            return self.NOW
        if 'mpsc::Receiver' in p and 'Instant' in g['name']: return self.wait(s, m, args)
        return super().model(s, g, args, argtys, dest, target, line)

    def wait(self, s, m, args):
        ty = self.cur_dest_ty
        if s.mon['held']: self.note(s, 'a received deadline was not kept')
        if s.mon['owed']: self.note(s, 'the session was not woken for a deadline that has passed')
        if s.mon['end']: self.note(s, 'it goes on although the session is over')
        first = self.call('before', self.NOW, self.FIRST)
        if m == 'recv':
            if s.mon['n'] != 0: self.note(s, 'it waits without limit although a deadline may be pending')
        elif m == 'recv_timeout':
            t = self.norm(s, args[1])
            if s.mon['n'] == 0: pass
            elif t != self.call('until', self.FIRST, self.NOW): self.note(s, 'it does not wait until the earliest deadline, but %s' % self.pp(t)[:80])
            elif not s.mon['sorted']: self.note(s, 'it waits for the first of the unsorted deadlines')
        elif m != 'try_recv': self.note(s, 'deadlines are received with %s, which this analysis does not know' % m)
        out = []
        if m != 'try_recv':
            self.forget(s, self.NOW, self.OLD)
            self.set(s, due=s.mon['due'], sent=0, waits=1)
        a = s.copy()
        self.forget(a, self.GOT, self.sym('received before'))
        self.set(a, held=1)
        out.append((a, self.agg(ty, 0, (self.GOT,))))
        et = self.ty(ty)['v'][1]['f'][0][1]
        vs = self.ty(et).get('v') or []
        if len(vs) > 1:
            for i, v in enumerate(vs):
                t = s.copy()
                if v['name'].endswith('Disconnected'): self.set(t, end=1)
                out.append((t, self.agg(ty, 1, (self.agg(et, i, ()),))))
        else:
            t = s.copy()
            self.set(t, end=1)
            out.append((t, self.agg(ty, 1, (self.fresh(t, 'disconnected'),))))
        return out

    def on_send(self, s, ch, v, line, g):
        t = self.tab[v]
        if ch != 'request': return self.note(s, 'it sends something other than a request')
        if t[0] != 'agg' or t[2] != self.variants.get('Heartbeat'): self.note(s, 'it sends a request other than a heartbeat')
        if 'SyncSender' in g['name'] or 'bounded' in g['path'].lower() and 'unbounded' not in g['path'].lower(): self.note(s, 'it may block while sending to the session')
        self.set(s, owed=0, sent=s.mon['due'])

    def send_result(self, s, ch, args, g):
        t = s.copy()
        self.set(t, end=1)
        return [(s, self.agg(self.cur_dest_ty, 0, (self.unit,))), (t, self.agg(self.cur_dest_ty, 1, (self.fresh(t, 'unsent'),)))]

    def go(self):
        s = mkstate()
        s.mon = dict(n=0, sorted=1, due=0, owed=0, held=0, sent=0, end=0, bad=(), waits=0)
        self.NOW, self.OLD, self.FIRST, self.GOT, self.Q = (self.sym(x) for x in ('now', 'some time ago', 'earliest deadline', 'received', 'deadlines'))
        f = self.d.fns[self.fid]
        self.start(s, self.fid, [self.sym('env%d' % i) for i in range(f['argc'])])
        return self.explore([s])


