"""Stopping the thread that reads standard input, decided from the type-checked program.
(a) The operation that stops it (the one that takes the structure holding the thread's handle and joins it) is interpreted
    with the calls that act on descriptors, signals and threads as steps of an automaton: standard input duplicated, its
    end-of-file substitute put in place (with the writing end closed), the signal given an empty handler that does not
    restart calls, the signal sent to that thread, the thread joined, and then the former handling of the signal and the
    former standard input put back and every descriptor closed. Each step demands the ones before it; at every return
    everything must be undone, or nothing done because there is no thread or it has ended; the handle must be gone.
(b) Every thread that reads standard input is found through the call graph; it must read through std's standard input (so
    that the substitute and the signal reach it), end when it finds the end of the input or nobody receives, and wait for
    nothing else but a bounded channel, which a second thread must empty without ever waiting for anything but that channel.
(c) Whoever starts such a thread must put its handle into that structure; the creation of each back end is interpreted, and
    at each return either the back end holds the handle or the thread was stopped. Cleaning up each back end must stop it at
    every return; the bodies of the I/O thread are interpreted to their ends: the terminal cleaned up, the reader stopped."""
from backend import *
from life import Life
from c24 import opn

WAITS = re.compile(r'(^|::)(recv|recv_timeout|recv_deadline|sleep|sleep_ms|park|park_timeout|wait|wait_timeout|join|poll|select|blocking_recv|blocking_send)$')


def stoppers(d, cg):
    """structure that holds a thread's handle -> the functions that take it and join the thread"""
    joins = cg.reaching(lambda f: bool(re.search(r'JoinHandle.*::join$', f['path'])))
    out = {}
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f and f['argc'] and f['id'] in joins and '{closure' not in f['path']): continue
        t = d.types[f['locals'][1]]
        tid = t['e'] if t.get('k') == 'ref' else f['locals'][1]
        t = d.types[tid]
        if t.get('k') != 'adt' or not t.get('local'): continue
        if any(holds_handle(d, ft) for v in t['v'] for _, ft in v['f']): out.setdefault(tid, []).append(f)
    for tid, fs in out.items():
        ids = {f['id'] for f in fs}
        out[tid] = [f for f in fs if not any(f['id'] in cg.succ[g['id']] for g in fs if g is not f)]
    return out


def holds_handle(d, t, depth=3):
    u = d.types[t] if isinstance(t, int) else {}
    if u.get('k') != 'adt': return False
    if 'JoinHandle' in u['def']: return True
    return depth > 0 and u['def'] in ('std::option::Option', 'std::mem::ManuallyDrop') and any(holds_handle(d, a, depth - 1) for a in u.get('args', ()))


# ---------------------------------------------------------------- (a)
class Stop(Sess):
    budget = 30

    def should_inline(self, s, g): return 'blocks' in g

    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def fault(self, s, w): self.put(s, 'bad', s.mon['bad'] | {w})

    def okv(self, v):
        t = self.cur_dest_ty
        return self.agg(t, 0, (v,)) if self.ty(t).get('def') == 'std::result::Result' else v

    def thr(self, s, v):
        for _ in range(5):
            t = self.tab[v]
            if t[0] in ('ref', 'kref', 'guard'): v = self.norm(s, self.content(s, v))
            elif t[0] == 'call' and opn(t[1]) in ('as_raw_fd', 'as_fd', 'into_raw_fd', 'as_pthread_t', 'into_pthread_t', 'deref'): v = self.norm(s, t[2])
            else: break
        return v

    def begin(self):
        s = mkstate()
        s.mon = {'fd0': 'own', 'hup': 'own', 'saved': None, 'tx': None, 'rx': None, 'killed': False, 'joined': False, 'ended': False, 'sig': None, 'bad': frozenset(), 'acted': False}
        return s

    def model(self, s, g, args, argtys, dest, target, line):
        p, m, M = g['path'], opn(g['path']), s.mon
        S = self.sym
        if 'JoinHandle' in p and m == 'is_finished':
            a, b = s.copy(), s.copy()
            self.put(a, 'ended', True)
            return [(a, self.c(1)), (b, self.c(0))]
        if 'JoinHandle' in p and m == 'join':
            if not M['killed'] and not M['ended']: self.fault(s, 'waits for the thread without having interrupted it')
            if self.thr(s, args[0]) != self.handle: self.fault(s, 'waits for another thread')
            self.put(s, 'joined', True)
            return self.okv(self.fresh(s, 'its result'))
        if m in ('as_pthread_t', 'into_pthread_t', 'thread') and args: return self.mk(('call', 'as_pthread_t', self.thr(s, args[0])))
        if g['local']: return super().model(s, g, args, argtys, dest, target, line)
        if m in ('pipe', 'pipe2') and 'nix' in p or m in ('pipe', 'pipe2') and 'libc' in p:
            self.put(s, 'rx', 'open')
            self.put(s, 'tx', 'open')
            t = self.ty(self.cur_dest_ty)
            if t.get('def') == 'std::result::Result': return self.agg(self.cur_dest_ty, 0, (self.agg(t['args'][0], 0, (S('rx'), S('tx'))),))
            return None
        if m in ('dup', 'dup_fd') and len(args) == 1:
            if self.isc(self.thr(s, args[0])) != 0: return self.okv(self.fresh(s, 'some copy'))
            if M['fd0'] != 'own': self.fault(s, 'keeps the substitute instead of standard input')
            self.put(s, 'saved', 'open')
            return self.okv(S('kept stdin'))
        if m in ('dup2', 'dup2_stdin', 'dup3') and len(args) >= 1:
            a = self.thr(s, args[0])
            if m != 'dup2_stdin' and self.isc(self.thr(s, args[1])) != 0:
                self.fault(s, 'replaces another descriptor than standard input')
                return self.okv(self.fresh(s, 'descriptor'))
            if a == S('rx'):
                if M['saved'] is None: self.fault(s, 'replaces standard input without having kept it')
                if M['rx'] != 'open': self.fault(s, 'replaces standard input by a descriptor that was closed')
                self.put(s, 'fd0', 'substitute')
            elif a == S('kept stdin'):
                if not M['joined']: self.fault(s, 'gives standard input back while the thread can still read it')
                if M['saved'] != 'open': self.fault(s, 'gives back a descriptor that was closed')
                self.put(s, 'fd0', 'own')
            else:
                self.fault(s, 'replaces standard input by something that is not at its end')
                self.put(s, 'fd0', 'other')
            return self.okv(self.c(0))
        if m == 'new' and 'SigAction' in p: return self.mk(('call', 'action', args[0], args[1]))
        if m == 'empty' and 'SaFlags' in p: return self.c(0)
        if m == 'empty' and 'SigSet' in p: return S('no signals')
        if m == 'sigaction':
            sig, act = self.signal(s, args[0]), self.thr(s, args[1])
            if act == S('former action'):
                if not M['joined']: self.fault(s, 'gives the signal its former handling back before the thread has ended')
                if sig != M['sig']: self.fault(s, 'gives another signal its former handling back')
                self.put(s, 'hup', 'own')
                return self.okv(self.fresh(s, 'action'))
            why = self.handles(s, act)
            if why: self.fault(s, why)
            if M['hup'] != 'own': self.fault(s, 'forgets the former handling of the signal')
            self.put(s, 'hup', 'ours')
            self.put(s, 'sig', sig)
            return self.okv(S('former action'))
        if m == 'signal' and ('nix' in p or 'libc' in p):
            self.fault(s, 'sets the handling of a signal without keeping the former one')
            return None
        if m in ('pthread_kill', 'kill', 'raise', 'killpg'):
            if m != 'pthread_kill': self.fault(s, 'sends a signal to more than the thread')
            else:
                if self.thr(s, args[0]) != self.handle: self.fault(s, 'interrupts another thread')
                if M['fd0'] != 'substitute': self.fault(s, 'interrupts the thread without the substitute in place')
                if M['tx'] != 'closed': self.fault(s, 'interrupts the thread while the substitute is not at its end (its writing end is open)')
                if M['hup'] != 'ours': self.fault(s, 'sends the signal without handling it')
                elif self.signal(s, args[1]) != M['sig']: self.fault(s, 'sends another signal than the one it handles')
                self.put(s, 'killed', True)
            return self.okv(self.unit)
        if m == 'close' and ('nix' in p or 'libc' in p):
            a = self.thr(s, args[0])
            for k, n in (('kept stdin', 'saved'), ('rx', 'rx'), ('tx', 'tx')):
                if a == S(k):
                    if s.mon[n] == 'closed': self.fault(s, 'closes a descriptor twice')
                    self.put(s, n, 'closed')
            if self.isc(a) == 0: self.fault(s, 'closes standard input')
            return self.okv(self.unit)
        if m == 'forget' and args and self.norm(s, args[0]) in (S('rx'), S('tx')): return self.unit
        return super().model(s, g, args, argtys, dest, target, line)

    def on_drop(self, s, l, v, tid, depth=4):
        v = self.norm(s, v)
        for k in ('rx', 'tx'):
            if v == self.sym(k):
                if s.mon[k] == 'closed': self.fault(s, 'closes a descriptor twice')
                self.put(s, k, 'closed')
        if self.tab[v][0] == 'agg' and depth:
            for x in self.tab[v][3]:
                if self.tab[x][0] != 'ref': self.on_drop(s, None, x, None, depth - 1)
        super().on_drop(s, l, v, tid)

    def signal(self, s, v):
        v = self.thr(s, v)
        t = self.tab[v]
        if t[0] == 'agg' and isinstance(t[1], int):
            n = self.ty(t[1])
            if n.get('def') == 'std::option::Option' and len(t[3]) == 1: return self.signal(s, t[3][0])
            if n.get('kind') == 'Enum': return n['v'][t[2]]['name'].split('::')[-1]
        return self.pp(v)

    def handles(self, s, act):
        t = self.tab[act]
        if t[0] != 'call' or t[1] != 'action': return 'sets a handling of the signal that is not known'
        fl = self.norm(s, t[3])
        for _ in range(3):
            u = self.tab[fl]
            if u[0] == 'agg' and len(u[3]) == 1: fl = self.norm(s, u[3][0])
        k = self.isc(fl)
        if k is None or k & 0x10000000: return 'has the interrupted call restarted (flags %s)' % self.pp(fl)[:40]
        h = self.tab[self.norm(s, t[2])]
        if h[0] != 'agg' or not isinstance(h[1], int): return 'sets a handler that is not known'
        n = self.ty(h[1])['v'][h[2]]['name'].split('::')[-1]
        if n not in ('Handler', 'SigAction'): return 'does not handle the signal (%s)' % n
        f = h[3][0]
        for _ in range(4):
            u = self.tab[f]
            if u[0] == 'cast': f = self.norm(s, u[2])
            elif u[0] == 'agg' and len(u[3]) == 1: f = self.norm(s, u[3][0])
        u = self.tab[f]
        if u[0] != 'fn' or not isinstance(u[1], int) or 'blocks' not in self.d.fns[u[1]]: return 'sets a handler that is not known'
        if any(t[0] in ('call', 'drop') for _, t in self.d.fns[u[1]]['blocks']): return 'handles the signal by something that does more than nothing (%s)' % self.d.fns[u[1]]['path']
        return None


def stopping(ctx, feat, d, tid, f):
    e = Stop(d)
    t = d.types[f['locals'][1]]
    fields = d.types[tid]['v'][0]['f']
    hi = next(i for i, (_, ft) in enumerate(fields) if holds_handle(d, ft))
    e.handle = e.sym('the thread')
    ht = fields[hi][1]
    opt = d.types[ht]['def'] == 'std::option::Option'
    OBJ = ('G', 'holder')
    n, acted = 0, 0
    for there in ((1, 0) if opt else (1,)):
        s = e.begin()
        hv = (e.agg(ht, 1, (e.handle,)) if there else e.agg(ht, 0, ())) if opt else e.handle
        s.store[OBJ] = e.agg(tid, 0, tuple(hv if i == hi else e.sym('field%d' % i) for i in range(len(fields))))
        arg = e.ref(OBJ) if t.get('k') == 'ref' else s.store[OBJ]
        e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
        e.start(s, f['id'], [arg] + [e.sym('arg%d' % j) for j in range(1, f['argc'])], f['path'])
        for x in e.explore([s]):
            if x.exit[0] != 'return': continue
            n += 1
            m, why = x.mon, set(x.mon['bad'])
            if m['fd0'] != 'own': why.add('ends without having put standard input back')
            if m['hup'] != 'own': why.add('ends without having given the signal its former handling back')
            if there and not m['joined'] and not m['ended']: why.add('ends although the thread may not have ended')
            for k, w in (('saved', 'the copy of standard input'), ('rx', 'the substitute'), ('tx', 'the writing end of the substitute')):
                if m[k] == 'open': why.add('ends with %s still open' % w)
            if t.get('k') == 'ref' and opt and there and m['joined']:
                hv2 = e.norm(x, e.proj(x, x.store[OBJ], (None, hi)))
                if e.isc(e.norm(x, e.discr(x, hv2))) != 0: why.add('keeps the handle of the thread that has ended')
            acted += bool(m['joined'])
            for w in sorted(why): ctx.bad('%s:stop:%s' % (feat, re.sub(r'[^a-z]+', '-', w.lower())[:50]), '%s %s' % (f['path'], w))
            ctx.ob(not why, '%s:stop' % feat, 'stops the thread and undoes everything', 'see above')
    ctx.floor('%s: ways of stopping the thread' % feat, acted, 1)
    ctx.floor('%s: ways %s ends' % (feat, pathtail(f['path'])), n, 2)
    ctx.engine_stats('%s %s' % (feat, f['path']), e)


# ---------------------------------------------------------------- (b)
class Reader(Sess):
    """the thread that reads standard input"""
    budget = 20
    split_heads = True

    def should_inline(self, s, g): return 'blocks' in g

    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def model(self, s, g, args, argtys, dest, target, line):
        p, m = g['path'], opn(g['path'])
        rt = self.ty(self.cur_dest_ty) if isinstance(self.cur_dest_ty, int) else {}
        tys = ' '.join(self.d.tyname(t) for t in (argtys or ()) if isinstance(t, int)) + ' ' + p
        if m in ('read', 'read_line', 'read_until', 'fill_buf', 'read_exact', 'read_to_string', 'read_to_end', 'next', 'read_vectored') and (rt.get('def') in ('std::result::Result', 'std::option::Option')) and re.search(r'Stdin|event::read|unistd::read|io::(Lines|Split|Bytes)', tys):
            self.reads.add(p if not re.search(r'Stdin|io::(Lines|Split|Bytes)', tys) else 'standard input')
            if s.mon['end']: self.wrong.add('reads on after %s' % s.mon['end'])
            if m in ('read_exact', 'read_to_string', 'read_to_end', 'read_until', 'next', 'fill_buf') or rt['def'] != 'std::result::Result': return None
            t = self.cur_dest_ty
            a, b, c = s.copy(), s.copy(), s.copy()
            if 'event::read' not in p and self.ty(rt['args'][0]).get('k') == 'int':
                self.put(a, 'end', 'the end of the input')
                r = [(a, self.agg(t, 0, (self.c(0),)))]
                n = self.fresh(b, 'amount')
                b.ne[n] = frozenset({0})
                b.ne = dict(b.ne)
                r.append((b, self.agg(t, 0, (n,))))
            else: r = [(b, self.agg(t, 0, (self.fresh(b, 'read'),)))]
            r.append((c, self.agg(t, 1, (self.fresh(c, 'ioerror'),))))
            return r
        if m in ('send', 'try_send', 'blocking_send') and re.search(r'Sender', tys) and rt.get('def') == 'std::result::Result':
            if re.search(r'SyncSender|mpsc::(bounded::)?Sender<.*tokio', tys) and m != 'try_send': self.bounded |= set(re.findall(r'SyncSender<(.*?)>(?= |$|,)', tys))
            t = self.cur_dest_ty
            a, b = s.copy(), s.copy()
            self.put(b, 'end', 'nobody receives any more')
            return [(a, self.agg(t, 0, (self.unit,))), (b, self.agg(t, 1, (self.fresh(b, 'unsent'),)))]
        if not g['local'] and WAITS.search(re.sub(r'<.*?>', '', p)): self.waits.add(p)
        return super().model(s, g, args, argtys, dest, target, line)


def closure_bodies(d, x):
    return [f for f in d.fns.values() if f['path'] == x['def'] and 'blocks' in f]


def spawned(d, cg):
    """(function, body of the thread it starts)"""
    out = []
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f): continue
        for _, t in f['blocks']:
            if t[0] != 'call' or t[1][0] != 'k': continue
            g = d.fns.get(t[1][1].get('fn')) if isinstance(t[1][1].get('fn'), int) else None
            if g is None or not re.search(r'thread::(Builder::spawn|Builder::spawn_unchecked|spawn|scope)$', re.sub(r'::<.*?>', '', g['path'])): continue
            for a in t[2]:
                ty = d.types[f['locals'][a[1][0]]] if a[0] in ('c', 'm') and len(a[1]) == 1 else d.types[a[2]] if a[0] == 'k' and isinstance(a[2], int) else {}
                if ty.get('k') == 'closure':
                    for b in closure_bodies(d, ty): out.append((f, b))
                elif ty.get('k') == 'fndef' and isinstance(ty.get('fn'), int) and 'blocks' in d.fns[ty['fn']]: out.append((f, d.fns[ty['fn']]))
    return out


def who(f): return re.sub(r'[^a-z0-9]+', '-', f['path'].split('{closure')[0].replace('liso::', '').strip(':').lower()).strip('-')


def reading(ctx, feat, d, cg, started):
    readers = set()
    reach = cg.reaching(lambda f: bool(re.search(r'std::io::stdin$|std::io::(stdio::)?Stdin|crossterm::event::(read|poll)$|nix::unistd::read|libc.*::read$', f['path'])) and not f['local'])
    for f, b in started:
        if b['id'] not in reach or any(b2['id'] in reach and b2 is not b and b2['id'] in cg.reach(b['id']) for _, b2 in started): continue
        readers.add(b['id'])
        e = Reader(d)
        e.reads, e.wrong, e.bounded, e.waits = set(), set(), set(), set()
        s = mkstate()
        s.mon = {'end': None}
        e.start(s, b['id'], [e.sym('arg%d' % i) for i in range(b['argc'])], b['path'])
        rets = [x for x in e.explore([s]) if x.exit[0] == 'return']
        key = '%s:reader:%s' % (feat, who(b))
        ctx.engine_stats('%s %s' % (feat, b['path']), e)
        for r in sorted(e.reads - {'standard input'}): ctx.bad('%s:%s' % (key, re.sub(r'<.*?>', '', r).strip(':')), 'the thread started in %s waits in %s, which the substitute for standard input does not end' % (f['path'], r))
        ctx.ob(bool(e.reads), key, 'reads standard input', 'the thread started in %s was expected to read standard input' % f['path'])
        for w in sorted(e.wrong): ctx.bad('%s:%s' % (key, re.sub(r'[^a-z]+', '-', w.lower())), 'the thread started in %s %s' % (f['path'], w))
        ctx.ob(any(x.mon['end'] for x in rets), key + ':ends', 'ends with the input', 'the thread started in %s never ends' % f['path'])
        for w in sorted(e.waits): ctx.bad('%s:waits:%s' % (key, opn(w)), 'the thread started in %s can wait in %s' % (f['path'], w))
        for ch in sorted(e.bounded):
            takers = [b2 for _, b2 in started if any(('Receiver<%s>' % ch) in d.fns[i]['name'] or re.search(r'Receiver', d.fns[i]['path']) and pathtail(d.fns[i]['path']) in ('recv', 'recv_timeout') and mentions(d, d.fns[i], ch) for i in cg.reach(b2['id']) if i in d.fns) and b2['id'] not in reach]
            ctx.ob(bool(takers), key + ':channel', 'somebody empties the channel', 'nobody is seen to empty the channel of %s that the thread started in %s fills' % (ch, f['path']))
            for b2 in takers:
                for i in sorted(cg.reach(b2['id'])):
                    g = d.fns.get(i)
                    if g is None or g['local'] or not (WAITS.search(re.sub(r'<.*?>', '', g['path'])) or re.search(r'SyncSender.*::send$', g['path'])): continue
                    ctx.ob('Receiver' in g['path'] and pathtail(g['path']).startswith('recv') and mentions(d, g, ch), '%s:channel:%s' % (key, opn(g['path'])), 'waits for nothing but that channel', 'the thread that empties the channel of the thread started in %s can wait in %s' % (f['path'], g['path']))
    ctx.floor(feat + ': threads that read standard input', len(readers), 4)
    return readers


def mentions(d, g, ch):
    return any(d.tyname(t) == ch for t in (g.get('ga') or ()) if isinstance(t, int)) or ch in g['name']


# ---------------------------------------------------------------- (c)
class Ends(Back):
    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.stop_ids:
            v = args[0]
            for _ in range(3):
                if self.tab[v][0] in ('ref', 'kref'): v = self.norm(s, self.content(s, v))
            if any(self.tab[x][0] == 'sym' and str(self.tab[x][1]).startswith('thread reading') for x in self.subs(v)) or not s.mon.get('creating'): self.put(s, 'input', False)
            return (self.ret(s, dest, target, self.unit),)
        return None

    def model(self, s, g, args, argtys, dest, target, line):
        if re.search(r'thread::(Builder::spawn|spawn)$', g['path']):
            reads = False
            for t in argtys:
                x = self.d.types[t] if isinstance(t, int) else {}
                if x.get('k') == 'closure': reads |= any(b['id'] in self.readers for b in closure_bodies(self.d, x))
                if x.get('k') == 'fndef': reads |= x.get('fn') in self.readers
            v = self.sym('thread reading') if reads else self.fresh(s, 'thread')
            if reads: self.put(s, 'input', True)
            ty = self.ty(self.cur_dest_ty)
            return self.agg(self.cur_dest_ty, 0, (v,)) if ty.get('def') == 'std::result::Result' else v
        return super().model(s, g, args, argtys, dest, target, line)


def owners(ctx, feat, d, holder, stop_ids, readers):
    bs = backends(d)
    ctx.floor(feat + ': terminal back ends', len(bs), 2)
    for name, ops in sorted(bs.items()):
        key = '%s:%s' % (feat, name.split('::')[-1].lower())
        for o in ('cleanup', 'new'):
            if o not in ops:
                ctx.bad('%s:missing:%s' % (key, o), 'the back end %s has no %s' % (name, o))
                return
        e = Ends(d, name, ops)
        e.stop_ids, e.readers = stop_ids, readers
        s = e.begin()
        e.put(s, 'creating', True)
        out = e.run_op([s], ops['new'])
        kept = failed = 0
        for x in out:
            if x.exit[0] != 'return': continue
            v = e.norm(x, x.user['ret'])
            ok = e.tab[v][0] == 'agg' and e.tab[v][1] == e.self_ty or e.result_ok(x)
            if ok:
                kept += 1
                inside = any(e.tab[y][0] == 'agg' and e.tab[y][1] == holder and e.sym('thread reading') in e.subs(y) for y in e.subs(v))
                ctx.ob(inside or not x.mon['input'], key + ':registered', 'the thread that reads standard input is the one that will be stopped', '%s returns a back end that does not hold the handle of the thread that reads standard input where it would be stopped' % ops['new']['path'])
            else:
                failed += 1
                ctx.ob(not x.mon['input'], key + ':failed', 'a back end that cannot be created leaves no reader behind', '%s fails without having stopped the thread that reads standard input' % ops['new']['path'])
        ctx.floor(key + ' created', kept, 1)
        ctx.floor(key + ' failing to be created', failed, 1)
        s = e.begin()
        e.put(s, 'input', True)
        n = 0
        for x in e.run_op([s], ops['cleanup']):
            if x.exit[0] != 'return': continue
            n += 1
            ctx.ob(not x.mon['input'], key + ':cleanup', 'cleaning up stops the reader', '%s can return without having stopped the thread that reads standard input' % ops['cleanup']['path'])
        ctx.floor(key + ' cleaned up', n, 2)
        ctx.engine_stats('%s %s' % (feat, name), e)


def threads(ctx, feat, d):
    for tty in (True, False):
        e = Life(d, tty)
        rets = [x for x in e.go() if x.exit[0] == 'return']
        what = 'the terminal has not been cleaned up' if tty else 'the input thread has not been stopped'
        w = 'worker' if tty else 'pipe'
        for x in rets:
            bads = [b for b in x.mon['bad'] if what in b]
            ctx.ob(what not in e.undone(x) and not bads, '%s:%s' % (feat, w), 'the I/O thread stops the reader before it ends or can be seen to have ended', 'the I/O thread (%s mode): %s' % ('terminal' if tty else 'pipe', (bads or ['ends while ' + what])[0]))
        ctx.floor('%s: ways the I/O thread ends (%s)' % (feat, w), len(rets), 2)
        ctx.engine_stats('%s thread %s' % (feat, w), e)


def check(ctx):
    from sess import CallGraph
    for feat in ('default', 'none'):
        d = ctx.dump(feat)
        cg = CallGraph(d)
        st = stoppers(d, cg)
        ctx.floor(feat + ': structures that hold the handle of the reading thread', len(st), 1)
        for tid, fs in st.items():
            for f in fs: stopping(ctx, feat, d, tid, f)
        readers = reading(ctx, feat, d, cg, spawned(d, cg))
        for tid, fs in st.items(): owners(ctx, feat, d, tid, {f['id'] for f in fs}, readers)
        threads(ctx, feat, d)
