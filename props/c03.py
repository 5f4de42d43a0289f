"""Typestate of the claim that a session is active, in every feature configuration. The claim is the static that the
constructor takes (a mutex holding the session's sender, or an atomic flag), found by type. The constructor, the
owner's Drop and the global accessor are interpreted on all paths: the constructor starts the I/O thread only while it
holds the claim, obtained by one atomic step (test and set inside one critical section, or one successful
compare-exchange or swap), returns only with the claim set to the sender of the session it returns, and panics when it is
taken; Drop gives the claim up on every path that returns, and only after the I/O thread is known to be gone and
(with stderr capture) the capture thread has been waited for; the accessor gives a handle to exactly the claim's sender
and panics when there is none. No other function may change the claim."""
from owner import *


def claims(d):
    out = []
    for n, t in d.raw['statics']:
        if type_holds(d, t, lambda x: x['k'] == 'adt' and re.search(r'mpsc.*Sender$', x['def']) and 'Request' in x['n'], 6): out.append((n, 'mutex'))
        elif re.search(r'Atomic(Bool|<bool>|U8|<u8>|Usize|<usize>)|Mutex<bool>|Mutex<.*, bool>', d.tyname(t)): out.append((n, 'flag'))
    return out


class Claim(Owner):
    log = False
    budget = 12

    def __init__(self, d, fid, claim, kind, capture):
        super().__init__(d, fid)
        self.claim, self.kind, self.capture = ('S', claim), kind, capture
        self.capstatics = [('S', n) for n, t in d.raw['statics'] if type_holds(d, t, lambda x: x['k'] == 'adt' and x['def'].endswith('thread::JoinHandle'), 8)]

    def flagbad(self, s, what): self.add(s, 'bad', what, 8)

    def taken_none(self, s):
        """is the claim known to have been free when this critical section began?"""
        o = s.mon.get('orig')
        if o is None: return False
        k = self.isc(self.norm(s, self.discr(s, o)))
        if k is None: k = self.isc(self.norm(s, o))
        return k == 0

    def now(self, s):
        """the claim's content: 'free', 'set', or None if unknown"""
        c = self.norm(s, self.content(s, self.ref(self.claim)))
        k = self.isc(self.norm(s, self.discr(s, c)))
        if k is None: k = self.isc(c)
        return None if k is None else 'set' if k else 'free'

    def acquire(self, s, key, kind, conflict, line, g):
        if key[0] == self.claim or key[0] in self.capstatics:
            n = s.mon.get('locks:' + key[0][1], 0)
            if n: self.write(s, (key[0], ()), self.fresh(s, 'shared'))     # anything may have happened since
            self.put(s, 'locks:' + key[0][1], n + 1)
        if key[0] == self.claim:
            self.put(s, 'orig', self.norm(s, self.content(s, self.ref(self.claim))))

    def release(self, s, g):
        key = None
        for k, kind, gid in s.loans:
            if gid == self.tab[g][3]: key = k
        super().release(s, g)
        if key and key[0] == self.claim: self.released(s, self.now(s))

    def released(self, s, now):
        if now == 'set' and self.taken_none(s): self.put(s, 'claimed', True)
        if now == 'free' and not self.taken_none(s):
            self.give_up(s)
        self.put(s, 'orig', None)

    def give_up(self, s):
        self.put(s, 'claimed', False)
        self.put(s, 'gave', True)
        if not s.mon['fin']: self.flagbad(s, 'gives the claim up before the I/O thread is known to be gone')
        if self.capture:
            for c in self.capstatics:
                v = self.norm(s, self.content(s, self.ref(c)))
                if self.isc(self.norm(s, self.discr(s, v))) != 0: self.flagbad(s, 'gives the claim up before the stderr capture thread has ended')

    def held(self, s):
        if s.mon.get('claimed'): return True
        return any(k[0] == self.claim and kind == 'mut' for k, kind, gid in s.loans) and self.taken_none(s)

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if re.search(r'thread::(Builder::spawn|spawn|Builder::spawn_unchecked)', g['path']):
            self.put(s, 'spawned', True)
            if not self.held(s): self.flagbad(s, 'starts the I/O thread without holding the claim')

    def claim_model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if 'sync::atomic::Atomic' not in p or not args or self.kind != 'flag': return None
        l = self.deref(s, args[0])
        if l[0] != self.claim: return None
        op = pathtail(p)
        new = self.isc(self.norm(s, args[2 if 'compare_exchange' in op else 1])) if op != 'load' else None
        t = self.cur_dest_ty
        if op in ('compare_exchange', 'compare_exchange_weak'):
            a, b = s.copy(), s.copy()
            if self.isc(self.norm(s, args[1])) == 0 and new == 1: self.put(a, 'claimed', True)
            elif new == 0: self.give_up(a)
            return [(a, self.agg(t, 0, (args[1],))), (b, self.agg(t, 1, (self.c(1) if op == 'compare_exchange' and self.isc(self.norm(s, args[1])) == 0 else self.fresh(b, 'flag'),)))]
        if op in ('swap', 'fetch_or', 'fetch_add') and new == 1:
            a, b = s.copy(), s.copy()
            self.put(a, 'claimed', True)
            return [(a, self.c(0)), (b, self.c(1))]
        if op in ('store', 'swap', 'fetch_and') and new == 0:
            self.give_up(s)
            return self.unit if op == 'store' else self.fresh(s, 'flag')
        if op == 'store': self.put(s, 'blind', True)
        return self.fresh(s, 'flag') if op != 'store' else self.unit


def strip(e, v):
    t = e.tab[v]
    while t[0] == 'call' and pathtail(t[1]) == 'clone' and len(t) == 3:
        v = t[2]
        t = e.tab[v]
    return v


def sender_in(e, v, depth=5):
    """the request sender inside a value of the owner's or a handle's type"""
    t = e.tab[v]
    if t[0] != 'agg' or depth == 0: return []
    ty = e.d.types[t[1]] if isinstance(t[1], int) else None
    if not ty: return []
    if ty.get('def') in ('liso::InputOutput', 'liso::Output', 'liso::OutputOnly'):
        out = []
        for (n, ft), x in zip(ty['v'][0]['f'], t[3]):
            nm = e.d.tyname(ft)
            if re.search(r'mpsc.*Sender', nm) and 'Request' in nm: out.append(x)
            else: out += sender_in(e, x, depth - 1)
        return out
    return []


def finish(ctx, key, what, f, exits, bad):
    for x in exits:
        if x.exit[0] not in ('return', 'panic', 'diverge', 'unwind'): bad.append('analysis cut short: %s' % (x.exit,))
        bad += list(x.mon.get('bad', ()))
    ctx.ob(not bad, key, what, '%s: %s' % (f['path'], '; '.join(sorted(set(bad)))))


def check(ctx):
    for feat in ('default', 'none', 'noglobal', 'all', 'stderr'):
        d = ctx.dump(feat)
        cs = [c for c in claims(d) if touches(d, methods(d)['new'], c[0])]
        ctx.ob(len(cs) == 1, feat + ':claim', 'one static says whether a session is active', 'found %s' % (cs or 'none') + ' as the claim of an active session taken by the constructor')
        if len(cs) != 1: continue
        claim, kind = cs[0]
        capture = feat in ('all', 'stderr')
        ms = methods(d)
        # the constructor
        f = ms['new']
        e = Claim(d, f['id'], claim, kind, capture)
        exits = e.go()
        ctx.engine_stats(feat, e)
        bad = []
        rets = [x for x in exits if x.exit[0] == 'return']
        if not rets: bad.append('never returns')
        if not any(x.exit[0] != 'return' and not x.mon.get('spawned') for x in exits): bad.append('does not panic when a session is active')
        for x in rets:
            if not x.mon.get('spawned'): bad.append('returns an owner without an I/O thread')
            if not x.mon.get('claimed'): bad.append('returns without the claim')
            if kind == 'mutex':
                r = e.norm(x, x.user['ret'])
                mine = {strip(e, e.norm(x, v)) for v in sender_in(e, r)}
                c = e.norm(x, e.content(x, e.ref(e.claim)))
                t = e.tab[c]
                got = strip(e, t[3][0]) if t[0] == 'agg' and t[3] else None
                if got is None or mine != {got}: bad.append('the claim does not hold the sender of the session that is returned')
        finish(ctx, feat + ':new', 'the constructor starts a session only with the claim, taken in one step, and leaves it set', f, exits, bad)
        # giving it up
        f = ms.get('Drop')
        ctx.ob(f is not None, feat + ':drop-exists', 'the owner has a Drop', 'the owner has no Drop, so the claim is never given up')
        if f is not None:
            e = Claim(d, f['id'], claim, kind, capture)
            exits = e.go()
            ctx.engine_stats(feat, e)
            bad = ['a path returns without giving the claim up' for x in exits if x.exit[0] == 'return' and not x.mon.get('gave')]
            if not any(x.exit[0] == 'return' for x in exits): bad.append('never returns')
            finish(ctx, feat + ':drop', 'Drop gives the claim up, after the session is completely over', f, exits, bad)
        # the accessor and everybody else
        n = 0
        users = [f for f in d.fns.values() if f['local'] and 'blocks' in f and touches(d, f, claim)]
        allowed = {ms['new']['id'], ms['Drop']['id'] if 'Drop' in ms else None}
        cg = CallGraph(d)
        helpers = cg.reach(ms['new']['id']) & {f['id'] for f in users} | (cg.reach(ms['Drop']['id']) if 'Drop' in ms else set()) & {f['id'] for f in users}
        for f in users:
            if f['id'] in allowed: continue
            base = f['path'].split('::{')[0]
            if base in {d.fns[i]['path'] for i in allowed if i}: continue
            callers = [c for c in cg.succ if f['id'] in cg.succ[c] and d.fns[c]['local'] and c != f['id']]
            if f['id'] in helpers and callers and all(d.fns[c]['path'].split('::{')[0] in {d.fns[i]['path'] for i in allowed if i} or c in helpers for c in callers): continue
            e = Claim(d, f['id'], claim, kind, capture)
            exits = e.go()
            ctx.engine_stats(feat, e)
            bad = []
            for x in exits:
                c0, c1 = e.obj_default(e.claim), e.norm(x, e.content(x, e.ref(e.claim)))
                if x.mon.get('gave') or x.mon.get('claimed') or x.mon.get('blind') or c1 != e.norm(x, c0): bad.append('changes the claim')
                rt = d.types[f['locals'][0]]
                if x.exit[0] == 'return' and rt and rt.get('def') in ('liso::OutputOnly', 'liso::Output'):
                    n += 1
                    sd = [strip(e, e.norm(x, v)) for v in sender_in(e, e.norm(x, x.user['ret']))]
                    want = e.norm(x, e.proj(x, e.norm(x, c0), (1, 0)))
                    if sd != [want]: bad.append('the handle it returns does not send to the active session')
                    if e.isc(e.norm(x, e.discr(x, c0))) != 1: bad.append('returns a handle without a session being active')
            if rt and rt.get('def') in ('liso::OutputOnly', 'liso::Output'):
                if not any(x.exit[0] in ('panic', 'diverge') and e.isc(e.norm(x, e.discr(x, e.obj_default(e.claim)))) in (0, None) for x in exits): bad.append('does not panic when no session is active')
                if any(x.exit[0] in ('panic', 'diverge') and e.isc(e.norm(x, e.discr(x, e.obj_default(e.claim)))) == 1 for x in exits): bad.append('panics although a session is active')
            finish(ctx, '%s:user:%s' % (feat, f['path']), 'uses the claim without changing it', f, exits, bad)
        if kind == 'mutex': ctx.floor(feat + '.paths on which a global handle is returned', n, 1)
        globalf = feat in ('default', 'all', 'stderr')
        if globalf: ctx.ob(kind == 'mutex', feat + ':global', 'the claim holds the session\'s sender', 'the global handle is not tied to the claim')


def touches(d, f, name):
    """does this function refer to the static?"""
    if 'blocks' not in f: return False
    def go(x):
        if isinstance(x, dict): return x.get('static') == name or any(go(v) for v in x.values())
        if isinstance(x, (list, tuple)): return any(go(v) for v in x)
        return x == name
    return go(f['blocks'])
