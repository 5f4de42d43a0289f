"""Capture of standard error, decided from the type-checked program (feature capture-stderr).
(a) Every function that touches the structure holding the capture thread's handle is interpreted with the calls that act on
    descriptors as steps of an automaton (which descriptors are open, what standard error is, whether a thread reads the
    pipe). The lock protects an invariant: nothing is captured and standard error is the real one, or the thread that reads
    the pipe and a copy of the real standard error are registered. It is assumed whenever the lock is taken and demanded
    whenever it is released, so any other thread may act in between; at every return, and at every panic that can happen,
    each descriptor opened must be closed or handed over.
(b) The body of the capture thread is interpreted with the bytes read and not yet forwarded as a range of its buffer, kept in
    ghost variables: reading must not overwrite that range, a line sent must begin where it begins and end inside it, moving
    and resizing the buffer must keep it, and at the end nothing may be left; what is sent after the receiver has gone, and
    what is left then, must go to the real standard error. Positions are compared by fixed rules on linear terms, with
    coinduction over what loops carry. Standard error must be put back before the rest of the pipe is read, the reading end
    closed once, the registered copy left to whoever waits; panics inside the thread must be impossible.
(c) Dropping the owner of the session must wait for the capture to end after the I/O thread has ended."""
from edit import *
from c18 import holds_handle, closure_bodies, spawned
from c24 import opn

VIEW, TEXT = 'view', 'text'


def newline_test(d, tid):
    """is this closure true exactly for a newline?"""
    t = d.types[tid]
    if t.get('k') != 'closure': return False
    out = []
    for b in closure_bodies(d, t):
        e = Engine(d)
        s = mkstate()
        byte = e.sym('byte')
        s.store[('G', 'byte')] = byte
        bt = d.types[b['locals'][2]] if b['argc'] >= 2 else {}
        r = e.ref(('G', 'byte')) if bt.get('k') == 'ref' else byte
        if bt.get('k') == 'ref' and d.types[bt['e']].get('k') == 'ref':
            s.store[('G', 'byteref')] = r
            r = e.ref(('G', 'byteref'))
        e.start(s, b['id'], [e.sym('env'), r], b['path'])
        for x in e.explore([s]):
            if x.exit[0] != 'return': return False
            v = e.norm(x, x.user['ret']) if 'ret' in x.user else None
            want = e.binop(x, 'Eq', byte, e.c(10))
            k = e.isc(v) if v is not None else None
            out.append(v == want if k is None else x.eq.get(want) == k or e.isc(want) == k)
    return bool(out) and all(out)


class Cap(Prover, Sess):
    budget = 300
    split_heads = True
    phi_per_entry = True
    keep_panics = True
    GHOSTS = ('fwd', 'valid')
    entry_budget = 200

    def __init__(self, d):
        super().__init__(d)
        self.prover_init()
        self.used, self.claims, self.loops = [], [], {}

    def should_inline(self, s, g): return 'blocks' in g

    def watching(self, s): return False

    def event(self, s, kind, g, args, argtys, line): pass

    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    # what is wrong is found at the end, when all that loops carry is known
    def fault(self, s, w): self.claims.append((s.copy(), w, 'never', ()))

    def demand(self, s, w, what, *args): self.claims.append((s.copy(), w, what, args))

    def never(self, s): return False

    def wrong(self):
        out, seen = {}, set()
        for s, w, what, args in self.claims:
            k = (self.ident(s), w, what, args)
            if k in seen: continue
            seen.add(k)
            if w not in out and not getattr(self, what)(s, *args) and not self.dead(s): out[w] = s
        return out

    def monkey(self, s):
        opts = []
        for o, v in s.store.items():
            if o[0] == 'L':
                t = self.tab[v]
                if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def') == 'std::option::Option': opts.append((o, t[2]))
        return super().monkey(s) + (('opts', tuple(sorted(opts))),)

    def gc(self, s):
        was = dict(s.eq)
        super().gc(s)
        # what is known of a position says something about the bytes that were handled in the same pass
        now = {x for n in self.GHOSTS for x in self.subs(self.g(s, n))}
        live = {self.tab[x][1] for x in now if self.tab[x][0] == 'phi'}
        for t, k in was.items():
            u = self.tab[t]
            if t in s.eq or u[0] != 'op' or u[1] not in ('Eq', 'Lt', 'Le') or len(u) != 4: continue
            # (none of them is negative)
            if k == 1 and u[1] != 'Eq' and self.tab[u[2]][0] == 'fresh': t = self.mk(('op', u[1], self.c0, u[3]))
            if all(x in now or self.tab[x][0] in ('c', 'op') or self.tab[x][0] == 'phi' and self.tab[x][1] in live for x in self.subs(t)): s.eq[t] = k
        # loops that were left no longer tell states apart
        at = {fr[1]: fr for fr in s.stack}
        s.tags = {(fid, h): g for (fid, h), g in s.tags.items() if fid in at and at[fid][4] in self.loop(at[fid][0], h)}

    def join(self, va, vb, tag, where, a, b):
        # positions are always carried by the loop, so that what is claimed of an early pass is what is claimed of all
        if tag[0] == 'W' and va == vb and self.position(where, a):
            ph = self.mk(('phi', tag, where))
            t = self.tab[va]
            if t[0] == 'agg': return self.agg(t[1], t[2], [self.join(x, x, tag, where + (i,), a, b) for i, x in enumerate(t[3])])
            if va != ph:
                l = self.phis.setdefault(ph, [])
                l += [(self.nevent, 0, a, va), (self.nevent, 1, b, vb)]
                return ph
        return super().join(va, vb, tag, where, a, b)

    def position(self, where, s):
        o = where[0]
        if len(s.stack) > 1: return False
        if o[0] == 'G': return o[1] in ('fwd', 'valid', 'len')
        if o[0] != 'L': return False
        for fr in s.stack:
            if fr[1] == o[1]: return self.d.tyname(self.d.fns[fr[0]]['locals'][o[2]]) in ('usize', 'std::option::Option<usize>', 'std::ops::Range<usize>', '(usize, usize)')
        return False

    def loop(self, fn, h):
        r = self.loops.get((fn, h))
        if r is None:
            fi = self.fi(fn)
            r = {h}
            work = [b for b, h2 in fi.back if h2 == h]
            while work:
                b = work.pop()
                if b in r: continue
                r.add(b)
                work += fi.preds.get(b, ())
            self.loops[fn, h] = r
        return r

    # ---- ghosts
    def g(self, s, n): return self.norm(s, s.store[('G', n)])

    def setg(self, s, n, v): s.store[('G', n)] = v

    def okv(self, v):
        t = self.cur_dest_ty
        return self.agg(t, 0, (v,)) if self.ty(t).get('def') == 'std::result::Result' else v

    # ---- what is known about positions; what was used is proved again at the end, when all that loops carry is known
    def ge0(self, s, m, fs=None, depth=2, seen=frozenset(), rec=4):
        if super().ge0(s, m, fs, depth, seen, rec): return True
        if not rec or len(m[0]) > 3: return False
        how = (None, depth, seen, rec - 1)
        # what is known of the values of this pass, then what loops carry (told apart by the loop)
        for t, k in s.eq.items():
            u = self.tab[t]
            if u[0] != 'op' or len(u) != 4 or k not in (0, 1): continue
            if k == 1 and u[1] == 'Eq':
                f = self.plus(self.lin(u[2]), self.lin(u[3]), -1)
                fs = (f, self.plus(({}, 0), f, -1))
            elif u[1] in ('Lt', 'Le'): fs = (self.told(t, k),)
            else: continue
            for f in fs:
                x = self.plus(m, f, -1)
                if len(x[0]) <= 3 and super().ge0(s, x, *how) or self.apart(s, x, *how): return True
        return False

    def ge(self, s, m, depth=2):
        if self.ge0(s, m): return True
        # what is known of values of this pass, then what loops carry
        neg = {x for x, n in m[0].items() if n < 0 and self.tab[x][0] == 'fresh'}
        if neg and depth:
            for f in self.facts(s, m[0]):
                if any(f[0].get(x, 0) < 0 for x in neg) and self.ge(s, self.plus(m, f, -1), depth - 1): return True
        for t, k in s.eq.items():
            u = self.tab[t]
            if isinstance(k, int) and u[0] in ('phi', 'fresh'):
                for n in (1, -1):
                    x = self.plus(m, ({t: 1}, -k), n)
                    if len(x[0]) <= len(m[0]) + 1 and self.ge0(s, x): return True
        return False

    def told(self, t, k):
        u = self.tab[t]
        f = self.plus(self.lin(u[3]), self.lin(u[2]), -1) if k else self.plus(self.lin(u[2]), self.lin(u[3]), -1)
        return self.plus(f, ({}, 1), -1) if k == (u[1] == 'Lt') else f

    def apart(self, s, m, *how):
        gs = {}
        for x, n in m[0].items():
            if self.tab[x][0] != 'phi': return False
            gs.setdefault(self.tab[x][1], {})[x] = n
        return 1 < len(gs) < 4 and m[1] >= 0 and all(super(Cap, self).ge0(s, (g, 0), *how) for g in gs.values())

    def le(self, s, a, b): return self.ge(s, self.plus(self.lin(b), self.lin(a), -1))

    def lt(self, s, a, b):
        m = self.plus(self.lin(b), self.lin(a), -1)
        if self.ge(s, self.plus(m, ({}, -1), 1)): return True
        if not self.ge(s, m): return False
        for t, k in s.eq.items():
            u = self.tab[t]
            if k == 0 and u[0] == 'op' and u[1] == 'Eq' and len(u) == 4:
                x = self.plus(self.lin(u[2]), self.lin(u[3]), -1)
                if x in (m, ({y: -n for y, n in m[0].items()}, -m[1])): return True
        for t, ks in s.ne.items():
            for k in ks:
                if isinstance(k, int) and self.plus(self.lin(t), ({}, -k), 1) in (m, ({y: -n for y, n in m[0].items()}, -m[1])): return True
        return False

    def eqp(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        return self.same(a, b) or self.le(s, a, b) and self.le(s, b, a)

    def sure(self, s, what, *args):
        r = getattr(self, what)(s, *args)
        if r: self.used.append((s.copy(), what, args))
        return r

    def again(self):
        """what was used and does not hold after all"""
        return [(s, what, args) for s, what, args in self.used if not getattr(self, what)(s, *args)]

    def base(self, s):
        """automaton state"""
        s.mon = {'fd2': 'real', 'open': frozenset(), 'shut': frozenset(), 'thr': None, 'gone': False, 'ended': False, 'restored': False, 'nl': False, 'held': False, 'waited': False}
        for n in ('fwd', 'valid', 'len', 'errno'): s.store[('G', n)] = self.c0

    # ---- values
    def view(self, s, v):
        """(from, to) when this is (a reference to) the buffer or a part of it"""
        for _ in range(4):
            t = self.tab[v]
            if t[0] == 'agg' and t[1] == VIEW: return t[3]
            if v == self.buf: return self.c0, self.g(s, 'len')
            if t[0] in ('ref', 'kref', 'guard') or t[0] == 'agg' and isinstance(t[1], int) and len(t[3]) == 1 and self.ty(t[1]).get('def') in ('std::boxed::Box',):
                v = self.norm(s, self.content(s, v)) if t[0] != 'agg' else self.norm(s, t[3][0])
            else: return None
        return None

    def mkview(self, a, b): return self.mk(('agg', VIEW, 0, (a, b)))

    def add(self, s, a, b):
        r = self.binop(s, 'Add', a, b)
        return self.norm(s, r)

    def sub(self, s, a, b): return self.norm(s, self.binop(s, 'Sub', a, b))

    def span(self, s, r, n):
        """ends of a range over something n long"""
        r = self.norm(s, r)
        t = self.tab[r]
        if t[0] == 'agg' and isinstance(t[1], int):
            k = self.ty(t[1]).get('def', '').split('::')[-1]
            f = [self.norm(s, x) for x in t[3]]
            if k == 'Range': return f[0], f[1]
            if k == 'RangeFrom': return f[0], n
            if k == 'RangeTo': return self.c0, f[0]
            if k == 'RangeFull': return self.c0, n
            if k == 'RangeToInclusive': return self.c0, self.add(s, f[0], self.c1)
            if k == 'RangeInclusive': return f[0], self.add(s, f[1], self.c1)
        if t[0] == 'call' and opn(t[1]) == 'new' and 'RangeInclusive' in str(t[1]) and len(t) >= 4: return self.norm(s, t[2]), self.add(s, self.norm(s, t[3]), self.c1)
        return None

    def cut_view(self, s, v, r):
        """a part of a view; faults when it may not be inside"""
        a, b = v
        sp = self.span(s, r, self.sub(s, b, a))
        if sp is None:
            self.fault(s, 'takes a part of the buffer that cannot be followed')
            return self.fresh(s, 'part')
        x, y = self.add(s, a, sp[0]), (b if self.tab[self.norm(s, r)][0] == 'agg' and self.ty(self.tab[self.norm(s, r)][1]).get('def', '').endswith(('RangeFrom', 'RangeFull')) else self.add(s, a, sp[1]))
        self.inside(s, x, y, b)
        return self.mkview(x, y)

    def inside(self, s, x, y, b):
        self.nbound += 1
        self.demand(s, 'may address a part outside the buffer', 'le', x, y)
        self.demand(s, 'may address a part outside the buffer', 'le', y, b)

    def dead(self, s):
        if self.contradiction(s): return True
        for t, k in s.eq.items():
            u = self.tab[t]
            if k in (0, 1) and u[0] == 'op' and u[1] in ('Lt', 'Le') and len(u) == 4:
                if self.ge(s, self.plus(({}, -1), self.told(t, k), -1)): return True
        return False

    def text(self, s, v, depth=5):
        """the parts of the buffer whose text is in this value"""
        out = set()
        for x in self.subs(v):
            t = self.tab[x]
            if t[0] == 'agg' and t[1] in (TEXT, VIEW): out.add(x)
            if t[0] == 'ref' and depth:
                try: out |= self.text(s, self.norm(s, self.content(s, x)), depth - 1)
                except Exception: pass
        return out

    # ---- what happens to the bytes
    def begins(self, s, a):
        """does a part that begins here begin with the first byte not yet forwarded (a newline already ended the line before)?"""
        f = self.g(s, 'fwd')
        return self.eqp(s, a, self.add(s, f, self.c1) if s.mon['nl'] else f)

    def all_forwarded(self, s):
        f, v = self.g(s, 'fwd'), self.g(s, 'valid')
        return self.le(s, v, self.add(s, f, self.c1) if s.mon['nl'] else f)

    def took(self, s, a, b, what):
        self.demand(s, what + ' something else than the first bytes not yet forwarded', 'begins', a)
        self.demand(s, what + ' bytes that were not read', 'le', b, self.g(s, 'valid'))
        nl = self.sure(s, 'newline', b)
        self.setg(s, 'fwd', b)
        self.put(s, 'nl', nl)

    def newline(self, s, b): return any(k == 1 and self.is_newline_at(t, s, b) for t, k in s.eq.items())

    def is_newline_at(self, t, s, b):
        t = self.tab[t]
        return t[0] == 'op' and t[1] == 'Eq' and len(t) == 4 and any(self.tab[x][0] == 'call' and self.tab[x][1] == 'byte' and self.isc(y) == 10 and self.eqp(s, self.tab[x][2], b) for x, y in (t[2:], t[:1:-1]))

    def shift(self, s, a, what):
        """the bytes from a on are moved to the beginning"""
        self.demand(s, what + ' so that bytes not yet forwarded are lost, or repeated', 'begins', a)
        self.setg(s, 'valid', self.sub(s, self.g(s, 'valid'), a))
        self.setg(s, 'fwd', self.c0)
        self.put(s, 'nl', False)

    # ---- descriptors
    def opened(self, s, *names): self.put(s, 'open', s.mon['open'] | set(names))

    def closed(self, s, v):
        n = self.fdname(s, v)
        if n is None:
            self.fault(s, 'closes a descriptor that is not one of the capture')
            return
        if n not in s.mon['open']: self.fault(s, 'closes a descriptor twice (%s)' % n)
        M = s.mon
        if n in ('real', 'former'):
            if M['thr'] == 'run': self.fault(s, 'closes the copy of standard error while the thread may use it')
            if M['fd2'] != 'real': self.fault(s, 'closes the copy of standard error without having put it back')
        if n == 'registered': self.fault(s, 'closes the copy of standard error that whoever waits for the thread closes')
        if n == 'r' and M['thr'] == 'run': self.fault(s, 'closes the reading end that the thread uses')
        self.put(s, 'open', s.mon['open'] - {n})
        self.put(s, 'shut', s.mon['shut'] | {n})

    def fdname(self, s, v):
        t = self.tab[self.norm(s, v)]
        return t[1][3:] if t[0] == 'sym' and str(t[1]).startswith('fd ') else None

    def fd(self, n): return self.sym('fd ' + n)

    def model(self, s, g, args, argtys, dest, target, line):
        p, m, M = g['path'], opn(g['path']), s.mon
        if g['local'] and 'blocks' in g: return super().model(s, g, args, argtys, dest, target, line)
        rt = self.ty(self.cur_dest_ty) if isinstance(self.cur_dest_ty, int) else {}
        # --- a loop over a few things listed in the source: one by one
        if m == 'into_iter' and args and self.tab[self.norm(s, args[0])][:2] == ('agg', 'arr') and len(self.tab[self.norm(s, args[0])][3]) <= 6:
            return self.mk(('aiter',) + tuple(self.tab[self.norm(s, args[0])][3]))
        if m == 'next' and args and self.tab[args[0]][0] == 'ref':
            l = self.deref(s, args[0])
            t = self.tab[self.read(s, l)]
            if t[0] == 'aiter':
                self.put(s, 'left', len(t) - 1)
                if len(t) == 1: return self.agg(self.cur_dest_ty, 0, ())
                self.write(s, l, self.mk(('aiter',) + t[2:]))
                return self.agg(self.cur_dest_ty, 1, (t[1],))
        # --- the system
        if p.startswith('errno::') or m == 'last_os_error':
            if m == 'errno': return self.agg(self.cur_dest_ty, 0, (self.g(s, 'errno'),)) if not self.is_transparent(self.cur_dest_ty) else self.g(s, 'errno')
            if m == 'set_errno':
                return self.unit
        if re.search(r'(^|::)(libc|nix)::', p) or p.startswith('libc::'):
            r = self.system(s, m, args)
            if r is not None: return r
            self.fault(s, 'makes a system call whose effect is not known (%s)' % m)
            return None
        # --- the lock
        if m in ('lock', 'try_lock') and 'Mutex' in p and args:
            l = self.deref(s, args[0])
            if self.is_static(l, args[0]): return self.lock(s, l)
        if 'JoinHandle' in p and m == 'join':
            n = self.thr_name(s, args[0])
            if M['fd2'] != 'real': self.fault(s, 'waits for the thread without having put standard error back')
            if n is None: self.fault(s, 'waits for another thread')
            self.put(s, 'thr', 'joined')
            return self.okv(self.unit)
        if re.search(r'thread::(Builder::spawn|spawn)$', re.sub(r'::<.*?>', '', p)):
            return self.spawn(s, p, args, argtys)
        if m in ('is_tty', 'is_terminal'):
            self.put(s, 'asked', True)
            a, b = s.copy(), s.copy()
            return [(a, self.c1), (b, self.c0)]
        # --- channels
        if m in ('send', 'try_send', 'blocking_send') and 'mpsc' in p and rt.get('def') == 'std::result::Result':
            return self.sends(s, self.norm(s, args[1]))
        if m in ('as_mut_ptr', 'as_ptr') and 'slice' in p and self.view(s, args[0]) is None: return args[0]
        # --- the buffer
        r = self.buffer(s, g, p, m, args, argtys, rt)
        if r is not None: return r
        return super().model(s, g, args, argtys, dest, target, line)

    def system(self, s, m, args):
        M = s.mon
        self.setg(s, 'errno', self.c0)
        if m == 'pipe':
            l = self.deref(s, args[0])
            a, b, c = s.copy(), s.copy(), s.copy()
            out = self.fails(b, c)
            self.write(a, l, self.agg('arr', 0, (self.fd('r'), self.fd('w'))))
            if {'r', 'w'} & M['open']: self.fault(a, 'makes a second pipe while the first one is open')
            self.opened(a, 'r', 'w')
            return [(a, self.c0)] + out
        if m == 'dup':
            a, b, c = s.copy(), s.copy(), s.copy()
            if self.isc(self.norm(s, args[0])) != 2 or M['fd2'] != 'real': self.fault(a, 'keeps a copy of something else than the real standard error')
            if 'real' in M['open']: self.fault(a, 'makes a second copy of standard error')
            self.opened(a, 'real')
            return [(a, self.fd('real'))] + self.fails(b, c)
        if m == 'dup2':
            n = self.fdname(s, args[0])
            if self.isc(self.norm(s, args[1])) != 2:
                self.fault(s, 'replaces another descriptor than standard error')
                return self.c(-1)
            a, b, c = s.copy(), s.copy(), s.copy()
            if n in ('real', 'former', 'registered'):
                if n not in M['open']: self.fault(a, 'puts back a descriptor that was closed')
                self.put(a, 'fd2', 'real')
                self.put(a, 'restored', True)
                return [(a, self.c(2))] + self.fails(None, c)
            if n == 'w' and 'w' in M['open']:
                if 'real' not in M['open']: self.fault(a, 'replaces standard error without having kept a copy')
                self.put(a, 'fd2', 'pipe')
                return [(a, self.c(2))] + self.fails(b, c)
            self.fault(a, 'replaces standard error by something that is not the open writing end of the pipe')
            return [(a, self.c(2))]
        if m == 'close':
            self.closed(s, args[0])
            return self.c0
        if m in ('read', 'write'):
            v = self.view(s, self.norm(s, args[1]))
            n = self.norm(s, args[2])
            if v is not None: self.demand(s, m + 's something that is not inside the buffer', 'le', n, self.sub(s, v[1], v[0]))
            if v is None:
                self.fault(s, m + 's something that is not inside the buffer')
                return self.c(-1)
            a, b = v[0], self.add(s, v[0], n) if not self.same(n, self.sub(s, v[1], v[0])) else v[1]
            x, e1, e2 = s.copy(), s.copy(), s.copy()
            k = self.fresh(x, 'amount')
            for op, y in (('Le', self.sub(s, b, a)),):
                x.eq[self.binop(x, op, k, y)] = 1
            x.eq[self.binop(x, 'Lt', y, k)] = 0
            x.ne = dict(x.ne)
            if m == 'read':
                f = self.fdname(s, args[0])
                if f != 'r' or 'r' not in M['open']: self.fault(s, 'reads from something else than the open pipe')
                if M['ended'] and M['fd2'] != 'real': self.fault(s, 'reads on although the stream has ended')
                self.demand(s, 'may read into no room at all, which looks like the end of the stream', 'lt', a, b)
                x.ne[k] = frozenset({0})
                if self.sure(s, 'eqp', a, self.g(s, 'valid')): pass
                else:
                    self.demand(s, 'overwrites bytes that were not forwarded, or leaves a gap before the bytes it reads', 'all_forwarded')
                    self.setg(x, 'fwd', a)
                    self.put(x, 'nl', False)
                self.setg(x, 'valid', self.add(x, a, k))
                z = s.copy()
                self.put(z, 'ended', True)
                self.put(e2, 'ended', True)
                if M['restored']:
                    for y in (z, e2): self.put(y, 'drained', True)
                if self.assumed(x, k): return [(x, k), (z, self.c0)] + self.fails(e2, e1)
                return [(z, self.c0)] + self.fails(e2, e1)
            f = self.fdname(s, args[0])
            to2 = self.isc(self.norm(s, args[0])) == 2
            if to2 and M['fd2'] != 'real': self.fault(s, 'writes captured text into the capture')
            elif not to2 and f not in ('real', 'registered'): self.fault(s, 'writes captured text to something else than the real standard error')
            self.took_written(s, x, e2, a, b, k)
            out = [(x, k)] if self.assumed(x, k) else []
            return out + self.fails(e2, e1)
        return None

    def took_written(self, s, x, e2, a, b, k):
        self.demand(s, 'writes something else than the first bytes not yet forwarded', 'begins', a)
        self.demand(s, 'writes bytes that were not read', 'le', b, self.g(s, 'valid'))
        self.setg(x, 'fwd', self.add(x, a, k))
        self.put(x, 'nl', False)
        # the real standard error does not take them: nothing more can be done
        self.setg(e2, 'fwd', self.g(s, 'valid'))
        self.put(e2, 'nl', False)

    def assumed(self, s, k):
        try:
            self.assume(s, self.binop(s, 'Ge', k, self.c0), 1)
            return True
        except Infeasible: return False

    def fails(self, other, again):
        out = []
        if other is not None:
            e = self.fresh(other, 'errno')
            other.ne = dict(other.ne)
            other.ne[e] = frozenset({4})
            self.setg(other, 'errno', e)
            out.append((other, self.c(-1)))
        self.setg(again, 'errno', self.c(4))
        out.append((again, self.c(-1)))
        return out

    def castv(self, s, kind, a, tid, from_tid):
        t = self.tab[a]
        if kind == 'IntToInt' and t[0] == 'fresh' and t[2] == 'amount': return a
        if t[0] == 'agg' and t[1] == VIEW: return a
        return super().castv(s, kind, a, tid, from_tid)

    def fits(self, s, v):
        return self.le(s, self.norm(s, v), self.g(s, 'len')) or super().fits(s, v)

    def contradiction(self, s):
        if super().contradiction(s): return True
        for k, v in s.eq.items():
            t = self.tab[k]
            if t[0] == 'op' and t[1] == 'Eq' and len(t) == 4 and v == 0 and self.eqp(s, t[2], t[3]): return True
        return False

    # ---- lock
    def is_static(self, l, v): return l[0] == self.static or l[0][0] == 'S' and str(l[0][1]) == self.static or self.static in str(self.tab[v]) or (isinstance(l[0], tuple) and self.static in str([self.tab[x] if isinstance(x, V) else x for x in l[0]]))

    def lock(self, s, l):
        self.nlock += 1
        if s.mon['held']: return []      # it would wait for itself for ever: decided elsewhere
        out = []
        mt = self.slot_ty
        wrap = self.ty(self.cur_dest_ty).get('def') == 'std::result::Result'
        for reg in (False, True):
            x = s.copy()
            # nothing is assumed about what others did since, but the invariant of the lock
            if 'own' in x.mon['open']: self.fault(x, 'lets go of the lock in between')
            if reg:
                x.store[l[0]] = self.agg(mt, 1, (self.slot(),))
                self.put(x, 'fd2', 'pipe or real')
                self.opened(x, 'former')
                self.put(x, 'thr', 'run')
            else:
                x.store[l[0]] = self.agg(mt, 0, ())
                self.put(x, 'fd2', 'real')
                self.put(x, 'open', x.mon['open'] - {'former'})
                self.put(x, 'thr', None)
            self.put(x, 'held', True)
            x.nf += 1
            x.loans = x.loans | {((l[0], l[1]), 'mut', x.nf)}
            gv = self.mk(('guard', 'mut', self.ref(*l), x.nf))
            self.slot_loc = l[0]
            out.append((x, self.agg(self.cur_dest_ty, 0, (gv,)) if wrap else gv))
        return out

    def slot(self):
        """the registered thread and copy, as the type of the lock's contents lays them out"""
        t = self.ty(self.slot_ty)['args'][0]
        return self.fill(t, {'handle': self.sym('former thread'), 'fd': self.fd('former')})

    def fill(self, tid, m):
        t = self.ty(tid)
        if t['k'] == 'tuple': return self.agg(None, 0, [self.fill(x, m) for x in t['f']])
        if t['k'] == 'adt' and 'JoinHandle' in t['def']: return m['handle']
        if t['k'] == 'int': return m['fd']
        if t['k'] == 'adt' and len(t['v']) == 1: return self.agg(tid, 0, [self.fill(x, m) for _, x in t['v'][0]['f']])
        return self.sym('registered ' + str(tid))

    def thr_name(self, s, v):
        for x in self.subs(self.norm(s, v)):
            t = self.tab[x]
            if t[0] == 'sym' and t[1] in ('former thread', 'the thread'): return t[1]
        return None

    def release(self, s, g):
        super().release(s, g)
        if not s.mon['held'] or not self.is_static(self.deref(s, g), g): return
        self.put(s, 'held', False)
        self.nrelease += 1
        v = self.norm(s, s.store.get(self.slot_loc, self.undef))
        dsc = self.isc(self.norm(s, self.discr(s, v)))
        M = s.mon
        if dsc == 0:
            if M['fd2'] != 'real': self.fault(s, 'leaves standard error captured although nothing is registered')
            if M['thr'] == 'run': self.fault(s, 'forgets the thread that reads the pipe')
            for n in sorted(M['open']): self.fault(s, 'leaves a descriptor open (%s)' % n)
        elif dsc == 1:
            syms = {self.tab[x][1] for x in self.subs(v) if self.tab[x][0] == 'sym'}
            if 'the thread' in syms:
                if M['thr'] != 'run': self.fault(s, 'registers a thread that has ended')
                if 'fd real' not in syms: self.fault(s, 'registers something else than the copy of standard error')
                if 'real' not in M['open']: self.fault(s, 'registers a copy of standard error that was closed')
                for n in sorted(M['open'] - {'real'}): self.fault(s, 'leaves a descriptor open (%s)' % n)
                self.put(s, 'open', M['open'] - {'real'})
                self.registered += 1
            elif 'former thread' in syms:
                if M['thr'] != 'run' or 'former' not in M['open']: self.fault(s, 'leaves something registered that has ended')
                for n in sorted(M['open'] - {'former'}): self.fault(s, 'leaves a descriptor open (%s)' % n)
                self.put(s, 'open', M['open'] - {'former'})
            else: self.fault(s, 'registers something that is not the thread')
        else: self.fault(s, 'leaves something registered that cannot be followed')
        self.put(s, 'fd2', 'unknown')

    # ---- the thread
    def spawn(self, s, p, args, argtys):
        env = None
        for v, t in zip(args, argtys):
            if isinstance(t, int) and self.ty(t).get('k') == 'closure': env = (self.norm(s, v), t)
        bod = closure_bodies(self.d, self.ty(env[1])) if env else []
        if not bod: return None
        fds = {self.fdname(s, x) for x in self.subs(env[0])} - {None}
        if 'r' not in fds: self.fault(s, 'starts a thread that does not read the pipe')
        if s.mon['fd2'] != 'pipe': self.fault(s, 'starts the thread while standard error is not the pipe')
        if 'w' in s.mon['open']: self.put(s, 'wopen', True)
        a = s.copy()
        self.spawned.setdefault(bod[0]['id'], env[0])
        self.put(a, 'thr', 'run')
        self.put(a, 'open', a.mon['open'] - {'r'})
        h = self.sym('the thread')
        if self.ty(self.cur_dest_ty).get('def') == 'std::result::Result':
            b = s.copy()
            return [(a, self.agg(self.cur_dest_ty, 0, (h,))), (b, self.agg(self.cur_dest_ty, 1, (self.fresh(b, 'no thread'),)))]
        b = s.copy()
        self.fault(b, 'leaves standard error captured when no thread can be started (the panic of %s)' % 'spawn')
        self.do_panic(b, ('call', 'spawn', None))
        return [(a, h)]

    # ---- sending
    def sends(self, s, v):
        rt = self.cur_dest_ty
        parts = self.text(s, v)
        a, b = s.copy(), s.copy()
        self.put(b, 'gone', True)
        err = (b, self.agg(rt, 1, (self.fresh(b, 'unsent'),)))
        if parts:
            self.nsend += 1
            if len(parts) != 1: self.fault(a, 'forwards parts of the buffer that cannot be told apart')
            x, y = self.tab[min(parts)][3]
            for t in (a,): self.took(t, x, y, 'forwards')
        if s.mon['gone']: return [err]
        return [(a, self.agg(rt, 0, (self.unit,))), err]

    # ---- the buffer
    def buffer(self, s, g, p, m, args, argtys, rt):
        dt = self.d.tyname(self.cur_dest_ty) if isinstance(self.cur_dest_ty, int) else ''
        if m in ('from_elem', 'with_capacity', 'new') and dt.startswith('std::vec::Vec<u8'):
            if s.mon.get('made') : self.fault(s, 'makes a second buffer')
            self.setg(s, 'len', self.norm(s, args[1]) if m == 'from_elem' else self.c0)
            self.put(s, 'made', True)
            return self.buf
        if not args: return None
        v = self.view(s, args[0])
        if v is None: return None
        n = self.sub(s, v[1], v[0])
        whole = self.is_vec(s, args[0])
        if m in ('len',): return n if not whole else v[1]
        if m == 'is_empty': return self.binop(s, 'Eq', v[0], v[1])
        if m in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_mut_ptr', 'as_ptr', 'borrow', 'borrow_mut', 'as_ref', 'as_mut'): return self.mkview(*v)
        if m in ('index', 'index_mut', 'get_unchecked', 'get_unchecked_mut'):
            i = self.norm(s, args[1])
            if self.span(s, i, n) is not None: return self.cut_view(s, v, i)
            at = self.add(s, v[0], i)
            self.inside(s, at, self.add(s, at, self.c1), v[1])
            return self.byteref(s, at)
        if m == 'iter': return self.mk(('agg', 'bytes', 0, v))
        if m in ('position', 'find') : return None
        if m == 'resize':
            new = self.norm(s, args[1])
            self.demand(s, 'shortens the buffer so that bytes not yet forwarded are lost', 'le', self.g(s, 'valid'), new)
            self.setg(s, 'len', new)
            return self.unit
        if m in ('reserve', 'reserve_exact', 'shrink_to_fit', 'capacity'): return self.fresh(s, 'capacity') if m == 'capacity' else self.unit
        if m in ('truncate', 'clear'):
            new = self.norm(s, args[1]) if m == 'truncate' else self.c0
            if not self.sure(s, 'le', self.g(s, 'valid'), new):
                self.demand(s, 'shortens the buffer so that bytes not yet forwarded are lost', 'all_forwarded')
                self.setg(s, 'valid', new)
                self.setg(s, 'fwd', new)
                self.put(s, 'nl', False)
            self.setg(s, 'len', new)
            return self.unit
        if m == 'extend_from_slice' and False: return None
        if m == 'copy_within':
            sp = self.span(s, args[1], n)
            if sp is None or self.isc(self.norm(s, args[2])) != 0 or self.isc(v[0]) != 0:
                self.fault(s, 'moves bytes in a way that cannot be followed')
                return self.unit
            self.inside(s, sp[0], sp[1], n)
            self.demand(s, 'moves only a part of the bytes not yet forwarded', 'le', self.g(s, 'valid'), sp[1])
            self.shift(s, sp[0], 'moves bytes')
            return self.unit
        if m == 'rotate_left':
            k = self.norm(s, args[1])
            self.inside(s, k, n, n)
            self.shift(s, k, 'moves bytes')
            return self.unit
        if m == 'drain':
            sp = self.span(s, args[1], n)
            if sp is None or self.isc(sp[0]) != 0:
                self.fault(s, 'removes bytes in a way that cannot be followed')
                return self.fresh(s, 'removed')
            self.inside(s, sp[0], sp[1], n)
            self.shift(s, sp[1], 'removes bytes')
            self.setg(s, 'len', self.sub(s, n, sp[1]))
            return self.fresh(s, 'removed')
        if m in ('from_utf8_lossy', 'from_utf8', 'from_utf8_unchecked', 'from_utf8_lossy_owned'):
            t = self.mk(('agg', TEXT, 0, v))
            if rt.get('def') == 'std::result::Result':
                a, b = s.copy(), s.copy()
                return [(a, self.agg(self.cur_dest_ty, 0, (t,))), (b, self.agg(self.cur_dest_ty, 1, (self.fresh(b, 'malformed'),)))]
            return t
        if m in ('contains', 'starts_with', 'ends_with', 'first', 'last', 'get', 'split_at', 'split', 'splitn', 'split_inclusive', 'to_vec', 'to_owned', 'into_iter', 'iter_mut', 'chunks'):
            self.fault(s, 'handles the buffer in a way that cannot be followed (%s)' % m) if m not in ('contains', 'starts_with', 'ends_with') else None
            return self.fresh(s, m)
        return None

    def byteref(self, s, at):
        o = ('*', self.mk(('call', 'byte at', at)))
        s.store[o] = self.mk(('call', 'byte', at))
        return o[1]

    def is_vec(self, s, v):
        for _ in range(4):
            if v == self.buf: return True
            if self.tab[v][0] not in ('ref', 'kref'): return False
            v = self.norm(s, self.content(s, v))
        return False

    def hook_call(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if g['local'] and 'blocks' in g: return None
        # what text an owned or borrowed copy holds
        if m in ('to_string', 'into_owned', 'to_owned', 'clone', 'into', 'from', 'as_ref', 'as_str', 'deref', 'to_vec', 'into_string', 'borrow', 'into_boxed_str') and len(args) == 1:
            v = args[0]
            for _ in range(3):
                if self.tab[v][0] in ('ref', 'kref'): v = self.norm(s, self.content(s, v))
            t = self.tab[v]
            if t[0] == 'agg' and t[1] == TEXT: return (self.ret(s, dest, target, v),)
        if m in ('position', 'memchr') and args:
            v = args[0] if m == 'position' else args[1]
            for _ in range(3):
                if self.tab[v][0] in ('ref', 'kref'): v = self.norm(s, self.content(s, v))
            t = self.tab[v]
            sp = t[3] if t[0] == 'agg' and t[1] in ('bytes', VIEW) else None
            if sp is not None:
                if m == 'position': nl = any(isinstance(x, int) and newline_test(self.d, x) for x in argtys[1:])
                else: nl = self.isc(self.norm(s, args[0])) == 10
                a, b = s.copy(), s.copy()
                k = self.fresh(a, 'where')
                a.eq[self.binop(a, 'Lt', k, self.sub(a, sp[1], sp[0]))] = 1
                if nl: a.eq[self.mk(('op', 'Eq', self.mk(('call', 'byte', self.add(a, sp[0], k))), self.c(10)))] = 1
                return (self.ret_many([(a, self.agg(self.cur_dest_ty, 1, (k,))), (b, self.agg(self.cur_dest_ty, 0, ()))], dest, target),)
        # calls on the buffer are not looked into
        if not g['local'] and args and 'blocks' in g and self.view(s, args[0]) is not None:
            rt = self.ty(self.cur_dest_ty) if isinstance(self.cur_dest_ty, int) else {}
            r = self.buffer(s, g, g['path'], m, args, argtys, rt)
            if isinstance(r, V): return (self.ret(s, dest, target, r),)
            if isinstance(r, list): return (self.ret_many(r, dest, target),)
        return None


def reset(e):
    e.exits, e.seen, e.groups = [], {}, {}


# ---------------------------------------------------------------- what is analysed
def slots(d):
    """statics that hold a thread's handle under a lock: name -> type of what the lock holds"""
    out = {}

    def ops(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'k' and isinstance(x[1], dict) and 'static' in x[1]: yield x[1]['static'], x[2]
            for y in x: yield from ops(y)
    users = {}
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f): continue
        for st, t in f['blocks']:
            for n, ty in ops([st, t]):
                k = d.types[ty] if isinstance(ty, int) else {}
                if k.get('k') in ('ref', 'ptr'): k = d.types[k['e']]
                if k.get('k') == 'adt' and 'Mutex' in k['def'] and k.get('args'):
                    c = [a for a in k['args'] if isinstance(a, int) and 'JoinHandle' in d.tyname(a)]
                    if c:
                        out[n] = c[-1]
                        users.setdefault(n, {})[f['id']] = f
    return out, users


def slug(w): return re.sub(r'[^a-z0-9]+', '-', w.lower()).strip('-')[:60]


def setup(e, static, tid):
    e.static, e.slot_ty = static, tid
    e.buf = e.sym('the buffer')
    e.nbound = e.nsend = e.nlock = e.nrelease = e.registered = 0
    e.spawned, e.waiters, e.slot_loc = {}, set(), ('S', static)
    return e


def capturing(ctx, d, static, tid, roots):
    bodies = {}
    tot = dict(n=0, registered=0, locks=0)
    for f in roots:
        e = setup(Cap(d), static, tid)
        s = mkstate()
        e.base(s)
        e.put(s, 'fd2', 'unknown')
        e.start(s, f['id'], [e.sym('arg%d' % i) for i in range(f['argc'])], f['path'])
        key = 'all:%s' % slug(pathtail(f['path']))
        for x in e.explore([s]):
            if x.exit[0] not in ('return', 'panic'): continue
            if x.exit[0] == 'panic' and e.contradiction(x): continue
            tot['n'] += 1
            end = 'returns' if x.exit[0] == 'return' else 'can panic (%s)' % str(x.exit[1])[:60] if x.mon['open'] or x.mon['fd2'] == 'pipe' else None
            if end:
                for n in sorted(x.mon['open']): e.fault(x, '%s with a descriptor still open (%s)' % (end, n))
                if x.mon['fd2'] == 'pipe' and (x.exit[0] == 'panic' or x.mon['held']): e.fault(x, '%s with standard error captured' % end)
                if x.mon['thr'] == 'run' and x.mon['held'] and x.exit[0] == 'return' and 'MutexGuard' not in d.tyname(f['locals'][0]): e.fault(x, '%s without having registered the thread' % end)
        why = e.wrong()
        for w in sorted(why): ctx.bad('%s:%s' % (key, slug(re.sub(r'\(.*?\)', '', w))), '%s %s' % (f['path'], w))
        for _, w, _, _ in e.claims: ctx.ob(w not in why, '%s:%s' % (key, slug(re.sub(r'\(.*?\)', '', w))), 'everything opened is closed or handed over, and standard error is put back', '%s %s' % (f['path'], w))
        for i in range(tot['n']): ctx.ob(True, key, 'end of the function', '')
        tot['registered'] += e.registered
        tot['locks'] += e.nlock
        bodies.update({i: (v, e) for i, v in e.spawned.items()})
        ctx.engine_stats(f['path'], e)
    ctx.floor('ways the functions that start and end a capture end', tot['n'], 6)
    ctx.floor('times the lock is taken', tot['locks'], 2)
    ctx.floor('ways a capture is registered', tot['registered'], 1)
    return bodies


def forwarding(ctx, d, static, tid, bid, env, e0):
    f = d.fns[bid]
    e = setup(Cap(d), static, tid)
    s = mkstate()
    e.base(s)
    s.mon.update(fd2='pipe or real', open=frozenset({'r', 'registered'}))
    ty = f['locals'][1]

    def conv(v):
        t = e0.tab[v]
        if t[0] == 'sym' and t[1] == 'fd r': return e.fd('r')
        if t[0] == 'sym' and t[1] == 'fd real': return e.fd('registered')
        if t[0] == 'agg': return e.agg(t[1], t[2], [conv(x) for x in t[3]])
        if t[0] == 'c': return e.c(t[1])
        return e.sym('captured %d' % v)
    e.start(s, bid, [conv(env)], f['path'])
    n = 0
    key = 'all:thread'
    for x in e.explore([s]):
        if x.exit[0] == 'panic':
            if e.contradiction(x): continue
            ctx.bad('%s:panic:%s' % (key, slug(str(x.exit[1][:2])[:40])), 'the thread of %s can panic without putting standard error back: %s' % (f['path'], str(x.exit[1])[:160]))
            continue
        if x.exit[0] != 'return': continue
        n += 1
        M = x.mon
        if M['fd2'] != 'real' or not M['restored']: e.fault(x, 'ends without having put standard error back')
        if 'r' in M['open']: e.fault(x, 'ends with the reading end of the pipe open')
        if 'w' in M['open']: e.fault(x, 'ends with the writing end of the pipe open')
        e.demand(x, 'ends although bytes it read were neither forwarded nor written to the real standard error', 'all_forwarded')
        if M['restored'] and not (M['ended'] and M.get('drained')): e.fault(x, 'ends although bytes may be left in the pipe')
    why = e.wrong()
    for w in sorted({c[1] for c in e.claims}): ctx.ob(w not in why, '%s:%s' % (key, slug(re.sub(r'\(.*?\)', '', w))), 'forwards what it reads once, puts standard error back, and closes the pipe', 'the thread of %s %s' % (f['path'], w))
    ctx.counts['obligations about the bytes in the buffer'] = len(e.claims)
    for x, what, args in e.again(): ctx.bad('%s:not-invariant:%s' % (key, what), 'the thread of %s: what the positions in its buffer must satisfy holds on the first passes of its loops only (%s of %s)' % (f['path'], what, ', '.join(e.pp(a)[:60] for a in args)))
    ctx.counts['facts about positions used'] = len(e.used)
    ctx.counts['parts of the buffer addressed'] = e.nbound
    ctx.floor('ways the capture thread ends', n, 3)
    ctx.floor('ways it forwards a part of the buffer', e.nsend, 3)
    ctx.engine_stats(f['path'], e)


class Dropping(Sess):
    budget = 20

    def should_inline(self, s, g): return 'blocks' in g and g['id'] in self.inl

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.waiters:
            s.mon = dict(s.mon, waited=True)
            return (self.ret(s, dest, target, self.unit),)
        return super().hook_call(s, g, args, argtys, dest, target, line)


def dropping(ctx, d, waiters):
    cg = CallGraph(d)
    reach = cg.reaching(lambda f: any(w in cg.succ[f['id']] for w in waiters)) | {f['id'] for f in d.fns.values() if any(w in cg.succ[f['id']] for w in waiters)}
    e0 = Engine(d)
    n = 0
    for ty, fid in sorted(e0.drop_impls.items(), key=str):
        f = d.fns[fid]
        if fid not in reach or not f['local']: continue
        n += 1
        e = Dropping(d)
        e.waiters, e.inl = set(waiters), reach
        s = mkstate()
        s.mon = {'waited': False}
        e.start(s, fid, [e.sym('self')], f['path'])
        for x in e.explore([s]):
            if x.exit[0] != 'return': continue
            ctx.ob(x.mon['waited'], 'all:drop:%s' % slug(str(ty).split('::')[-1]), 'waits for the capture to end', 'dropping %s can end without having waited for the capture of standard error to end' % ty)
        ctx.engine_stats(f['path'], e)
    ctx.floor('owners that wait for the capture to end when they are dropped', n, 1)


def check(ctx):
    ctx.assumptions += ['dup2 of an open descriptor onto standard error succeeds once the capture was set up (it may be interrupted)',
                        'when the real standard error does not take what is written to it, the bytes are lost',
                        'the I/O thread handles the lines forwarded to it (C22, C06)']
    d = ctx.dump('all')
    st, users = slots(d)
    ctx.floor('locks that hold the capture thread', len(st), 1)
    if not st: return
    cg = CallGraph(d)
    for static, tid in sorted(st.items()):
        started = spawned(d, cg)
        reads = cg.reaching(lambda f: bool(re.search(r'libc.*::read$|unistd::read$', f['path'])))
        roots = dict(users[static])
        for f, b in started:
            # what the thread does itself, other than by starting or ending a capture
            own, todo = {b['id']}, [b['id']]
            for x in todo:
                for y in sorted(cg.succ[x]):
                    if y not in own and y not in users[static]: own.add(y); todo.append(y)
            if any(re.search(r'^libc.*::dup2$', d.fns[x]['path']) for x in own): roots[f['id']] = f
        roots = {i: f for i, f in roots.items() if '{closure' not in f['path']}
        bodies = capturing(ctx, d, static, tid, [roots[i] for i in sorted(roots)])
        ctx.floor('capture threads', len(bodies), 1)
        for bid in sorted(bodies): forwarding(ctx, d, static, tid, bid, *bodies[bid])
        joins = cg.reaching(lambda f: bool(re.search(r'JoinHandle.*::join$', f['path'])))
        starters = {f['id'] for f, b in started if b['id'] in bodies}
        dropping(ctx, d, [i for i in roots if i in joins and i not in starters])
    ctx.analysed['stderr_capture'] = 'every local function that touches the lock that holds the capture thread, and the thread it starts'
