"""The owner's side of a session: the public functions of the input/output object, interpreted with the channel to the
I/O thread modelled by what each operation can report (a message, nothing yet, closed, gone). Asynchronous functions
are interpreted as the state machines the compiler made of them, polled until they are ready."""
from scen import *


def type_holds(d, tid, pred, depth=10, seen=None):
    """can a value of this type hold something of a type with this property?"""
    seen = set() if seen is None else seen
    if not isinstance(tid, int) or tid in seen or depth == 0: return False
    seen.add(tid)
    t = d.types[tid]
    if t is None: return False
    if pred(t): return True
    sub = list(t.get('args') or [])
    if isinstance(t.get('e'), int): sub.append(t['e'])
    if t['k'] in ('tuple', 'closure', 'coroutine'): sub += [x for x in (t.get('f') or t.get('up') or []) if isinstance(x, int)]
    if t['k'] == 'adt':
        for v in t['v'] or (): sub += [ft for _, ft in v['f']]
    return any(type_holds(d, x, pred, depth - 1, seen) for x in sub)


class Owner(Sess):
    budget = 8
    log = True      # keep the sequence of what was received

    def __init__(self, d, fid):
        super().__init__(d)
        self.fid = fid
        self.io_ty = find_adt(d, 'InputOutput')[0]
        self.iofields = [n for n, _ in d.types[self.io_ty]['v'][0]['f']]
        self.dead_vi = [i for i, v in enumerate(d.types[self.resp_ty]['v']) if v['name'].split('::')[-1] == 'Dead'][0]
        self.skip_capture = False
        self.polls = {}
        self.polled = set()

    # ---- monitor
    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def add(self, s, k, x, n=6):
        self.put(s, k, lim(s.mon.get(k, ()), x, n))

    def finished(self, s):
        """is the I/O thread known to be gone?"""
        return s.mon['fin']

    def on_send(self, s, ch, v, line, g):
        if ch != 'request': return
        t = self.tab[self.snap(s, v, None)]
        n = '?'
        if t[0] == 'agg' and t[1] == self.req_ty: n = self.d.types[self.req_ty]['v'][t[2]]['name'].split('::')[-1]
        self.add(s, 'sent', n)

    RECV = re.compile(r'mpsc.*(Unbounded)?Receiver.*::(recv|try_recv|blocking_recv|poll_recv|recv_timeout|blocking_recv_many)$')

    def msg(self, s):
        m = self.fresh(s, 'response')
        self.assume_ne(s, self.mk(('discr', m)), self.d.types[self.resp_ty]['v'][self.dead_vi]['d'])
        return m

    def outcomes(self, s, tid):
        """(label, state, value) of everything receiving can give, as a value of this type"""
        t = self.ty(tid)
        if t.get('k') == 'adt':
            d = t['def']
            if tid == self.resp_ty:
                a = s.copy()
                m = self.msg(a)
                return [('msg', a, m)]
            if d == 'std::task::Poll':
                rdy = [i for i, v in enumerate(t['v']) if v['name'] == 'Ready'][0]
                a = s.copy()
                return [('empty', a, self.agg(tid, 1 - rdy, ()))] + [(l, x, self.agg(tid, rdy, (v,))) for l, x, v in self.outcomes(s, t['args'][0])]
            if d == 'std::option::Option':
                a = s.copy()
                return [('closed', a, self.agg(tid, 0, ()))] + [(l, x, self.agg(tid, 1, (v,))) for l, x, v in self.outcomes(s, t['args'][0])]
            if d == 'std::result::Result':
                out = [(l, x, self.agg(tid, 0, (v,))) for l, x, v in self.outcomes(s, t['args'][0])]
                e = self.ty(t['args'][1])
                if e.get('k') == 'adt' and e['kind'] == 'Enum':
                    for i, v in enumerate(e['v']):
                        a = s.copy()
                        out.append(('closed' if v['name'] == 'Disconnected' else 'empty', a, self.agg(tid, 1, (self.agg(t['args'][1], i, ()),))))
                else:
                    a = s.copy()
                    out.append(('timeout', a, self.agg(tid, 1, (self.fresh(a, 'elapsed'),))))
                return out
        return []

    def received(self, s):
        outs = self.outcomes(s, self.cur_dest_ty)
        if not outs: return None
        res = []
        for l, a, v in outs:
            self.add(a, 'got', l)
            if not self.log: self.put(a, 'got', a.mon['got'][-1:])
            if l in ('empty', 'timeout') and not a.mon['sent']: self.put(a, 'early', True)
            if l == 'closed': self.put(a, 'fin', True)
            if l == 'msg' and self.log: self.put(a, 'last', v_msg(self, v))
            if len(a.mon['got']) > 1 and a.mon['got'][-2] == 'empty' and l == 'empty':   # an idle wait: once is as good as twice
                self.put(a, 'got', a.mon['got'][:-1])
            res.append((a, v))
        return res

    def send_result(self, s, ch, args, g):
        if ch != 'request': return super().send_result(s, ch, args, g)
        t = self.cur_dest_ty
        a, b = s.copy(), s.copy()
        self.put(b, 'fin', True)
        if s.mon['fin']: return [(b, self.agg(t, 1, (self.fresh(b, 'senderror'),)))]
        return [(a, self.agg(t, 0, (self.unit,))), (b, self.agg(t, 1, (self.fresh(b, 'senderror'),)))]

    def model(self, s, g, args, argtys, dest, target, line):
        p, n = g['path'], g['name']
        if self.RECV.search(p) and 'tokio' in p or ('UnboundedReceiver' in n and pathtail(p) in ('recv', 'try_recv', 'blocking_recv', 'poll_recv')):
            ty = self.ty(self.cur_dest_ty)
            if ty.get('k') in ('coroutine', 'opaque') or ty.get('def') == 'std::pin::Pin' and False:
                return self.call('future', self.call('recv'))
            r = self.received(s)
            return r if r is not None else self.call('future', self.call('recv'))
        if re.search(r'tokio::time::(timeout|timeout_at)$', p) or p.endswith('time::timeout_at::timeout_at'):
            return self.call('future', self.call('timeout', self.norm(s, args[0])))
        if p.endswith('IntoFuture::into_future') or p.endswith('into_future'): return args[0]
        if re.search(r'Pin::<.*>::(new_unchecked|new|as_mut|get_mut|get_unchecked_mut)$', p) or re.search(r'std::pin::Pin', p) and pathtail(p) in ('new_unchecked', 'new'):
            return self.pin(args[0])
        if pathtail(p) == 'poll' and 'Future' in p or re.search(r'Receiver.*::recv::\{closure', p) and len(args) == 2:
            inner = self.unpin(s, args[0])
            v = self.content(s, inner) if self.tab[inner][0] == 'ref' else inner
            t = self.tab[v]
            if t[0] == 'call' and t[1] == 'future' or 'Receiver' in n or 'Receiver' in p:
                r = self.received(s)
                if r is not None: return r
        if pathtail(p) == 'block_on':
            return self.block_on(s, args[-1], argtys[-1], dest, target)
        r = self.claim_model(s, g, args, argtys, dest, target, line)
        if r is not None: return r
        if 'LISO' in n: pass
        return super().model(s, g, args, argtys, dest, target, line)

    def claim_model(self, s, g, args, argtys, dest, target, line):
        return None

    def pin(self, v):
        t = self.cur_dest_ty
        return v if self.is_transparent(t) else self.agg(t, 0, (v,))

    def unpin(self, s, v):
        t = self.tab[v]
        if t[0] == 'agg' and len(t[3]) == 1: return t[3][0]
        return v

    # ---- futures
    def co_fn(self, tid):
        t = self.ty(tid)
        return t.get('fn') if t.get('k') == 'coroutine' and 'blocks' in self.d.fns.get(t.get('fn'), {}) else None

    def co_start(self, s, v):
        """a fresh coroutine: unresumed"""
        if self.tab[v][0] == 'agg': return self.mk(('upd', v, (('d', self.c(0)),)))
        return v

    def block_on(self, s, v, tid, dest, target):
        fn = self.co_fn(tid)
        if fn is None:
            r = self.received(s)
            return r
        s.nf += 1
        obj = ('H', 'future', fn)
        s.store[obj] = self.co_start(s, v)
        return self.poll(s, fn, obj, dest, target)

    def poll(self, s, fn, obj, dest, target):
        f = self.d.fns[fn]
        pt = f['locals'][1]
        r = self.ref(obj)
        pinned = r if self.is_transparent(pt) else self.agg(pt, 0, (r,))
        if not s.stack:
            self.start(s, fn, [pinned, self.sym('context')], 'poll')
            fid = s.stack[-1][1]
            self.polls[fid] = (fn, obj, None, None)
            return True
        fid = self.intern_fid((s.stack[-1][1], s.stack[-1][4], fn))
        self.polls[fid] = (fn, obj, dest, target)
        return self.enter(s, fn, [pinned, self.sym('context')], (('H', 'pollresult', fn), ()), target)

    def do_return(self, s, fr, f):
        if fr[1] not in self.polls: return super().do_return(s, fr, f)
        fn, obj, dest, target = self.polls[fr[1]]
        v = self.norm(s, self.read(s, (('L', fr[1], 0), ())))
        t = self.tab[v]
        pt = self.ty(f['locals'][0])
        rdy = [i for i, x in enumerate(pt['v']) if x['name'] == 'Ready'][0] if pt.get('def') == 'std::task::Poll' else None
        if t[0] != 'agg' or rdy is None: return super().do_return(s, fr, f)
        if t[2] != rdy:     # pending: polled again later
            k = (fr[1], self.norm(s, self.content(s, self.ref(obj))), self.monkey(s), tuple(sorted(self.facts_key(s))))
            if k in self.polled: return False
            self.polled.add(k)
            if len(self.polled) > 4000: raise Budget('a future keeps changing while it is pending')
            s.stack = s.stack[:-1]
            if s.stack:
                return self.enter_again(s, fr, fn, obj, dest, target)
            s.tags = {}
            self.poll(s, fn, obj, None, None)
            self.push(s)
            return False
        val = t[3][0] if t[3] else self.unit
        if not s.stack[:-1]:
            s.user = dict(s.user)
            s.user['ret'] = val
            self.finish(s, 'return')
            return False
        s.stack = s.stack[:-1]
        if dest is not None: self.write(s, dest, val)
        if target is None: return False
        return self.goto(s, target, via_return=True)

    def enter_again(self, s, fr, fn, obj, dest, target):
        f = self.d.fns[fn]
        pt = f['locals'][1]
        r = self.ref(obj)
        pinned = r if self.is_transparent(pt) else self.agg(pt, 0, (r,))
        return self.enter(s, fn, [pinned, self.sym('context')], fr[2], target)

    def facts_key(self, s):
        return ()

    def call_fn(self, s, fn, ga, args, argtys, dest, target, line):
        """polling one of the crate's own futures runs its body"""
        if isinstance(fn, int) and args and argtys and argtys[0] is not None:
            g = self.d.fns[fn]
            if pathtail(g['path']) == 'poll' and 'blocks' not in g or pathtail(g['path']) == 'poll' and not g['local']:
                co = self.pinned_ty(argtys[0])
                cf = self.co_fn(co) if co is not None else None
                if cf is not None:
                    inner = self.unpin(s, args[0])
                    l = self.deref(s, inner)
                    v = self.read(s, l)
                    if self.tab[v][0] == 'agg': self.write(s, l, self.co_start(s, v))
                    return self.enter(s, cf, args, dest, target)
        return super().call_fn(s, fn, ga, args, argtys, dest, target, line)

    def pinned_ty(self, tid):
        t = self.ty(tid)
        while t.get('k') in ('ref', 'adt'):
            if t['k'] == 'ref': tid = t['e']
            elif t['def'] == 'std::pin::Pin': tid = t['args'][0]
            else: return None
            t = self.ty(tid)
        return tid if t.get('k') == 'coroutine' else None

    # ---- running
    def go(self):
        f = self.d.fns[self.fid]
        s = mkstate()
        s.mon = {'sent': (), 'got': (), 'fin': False, 'early': False, 'last': None, 'rel': (), 'cap': False}
        s.store[('G', 'IO')] = self.IO = self.sym('IO')
        args = []
        for i in range(f['argc']):
            t = self.ty(f['locals'][i + 1])
            if t['k'] == 'ref' and t['e'] == self.io_ty: args.append(self.ref(('G', 'IO')))
            elif f['locals'][i + 1] == self.io_ty: args.append(self.IO)
            else: args.append(self.sym('arg%d' % i))
        self.start(s, self.fid, args)
        out = self.explore([s])
        rt = f['locals'][0]
        fn = self.co_fn(rt) if isinstance(rt, int) else None
        if fn is not None:
            res = [x for x in out if x.exit[0] != 'return']
            nxt = []
            for x in out:
                if x.exit[0] != 'return': continue
                a = x.copy()
                a.exit = None
                a.stack = ()
                a.tags = {}
                obj = ('H', 'root', fn)
                a.store[obj] = self.co_start(a, x.user['ret'])
                self.poll(a, fn, obj, None, None)
                nxt.append(a)
            st = self.steps
            out = res + self.explore(nxt)
            self.steps += st
        return out

    def iof(self, s, name):
        return self.norm(s, self.proj(s, self.content(s, self.ref(('G', 'IO'))), (None, self.iofields.index(name))))


def v_msg(e, v):
    t = e.tab[v]
    while t[0] == 'agg' and len(t[3]) == 1:
        v = t[3][0]
        t = e.tab[v]
    return v


def methods(d):
    """the owner's methods by name, and its Drop"""
    out = {}
    for f in d.fns.values():
        m = re.match(r'liso::InputOutput::(\w+)$', f['path'])
        if f['local'] and m and f['id'] < 1000000 and 'blocks' in f: out[m.group(1)] = f
        if f['local'] and f['id'] < 1000000 and 'blocks' in f and re.search(r'InputOutput as .*Drop>::drop$', f['path']): out['Drop'] = f
    return out


def giving(d, selfs):
    """functions of these types whose result is, or holds, a response: name -> number of further arguments"""
    out = {}
    for f in d.fns.values():
        m = re.match(r'liso::(\w+)::(\w+)$', f['path'])
        if not (f['local'] and m and m.group(1) in selfs and 'blocks' in f and f['argc']): continue
        if holds(d, f['locals'][0]): out[m.group(2)] = f['argc'] - 1
    return out


def holds(d, t, depth=0):
    x = d.types[t] if isinstance(t, int) else None
    if not x or depth > 4: return False
    if x['k'] == 'adt' and x['def'] == 'liso::Response': return True
    if x['k'] == 'adt' and x.get('local'): return False
    if x['k'] == 'coroutine':
        g = d.fns.get(x.get('fn'))
        return bool(g and 'blocks' in g and holds(d, g['locals'][0], depth + 1))
    sub = list(x.get('args') or []) + ([x['e']] if isinstance(x.get('e'), int) else []) + (x.get('f') if x['k'] == 'tuple' else [])
    return any(holds(d, y, depth + 1) for y in sub)
