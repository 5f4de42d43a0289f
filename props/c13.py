"""Inductive invariants over MIR terms with the history read afresh at every lock. Each time the I/O thread takes
the history's lock, the list behind it becomes a new unknown one: that covers every interleaving with a program that
replaces it. From any session state in which the position and the kept input are there together, every key and every request
is interpreted to its end. Every panic on the way that concerns the position, the kept input or the list must be
infeasible, which for an index means that it was compared with the very list it is used on; at the end the pair must
be there together or not at all, a new position must lie in the list that was looked at, the recalled text must be the entry
at it, no entry may be skipped, and the kept input must be the text from before, restored past the newest entry."""
from keys import *
from common import *
from scen import api_methods


class Nav:
    def on_start(self, s):
        super().on_start(s)
        s.mon = dict(s.mon, locks=0)
        self.x0 = self.norm(s, self.f0('cur_history_index'))
        self.H0 = self.norm(s, self.f0('history'))

    def acquire(self, s, key, kind, conflict, line, g):
        super().acquire(s, key, kind, conflict, line, g)
        if 'locks' not in s.mon or 'RwLock' not in g['path'] and 'Mutex' not in g['path']: return
        if self.H0 not in self.mention(key): return
        # someone else may have replaced the list since it was last looked at
        n = s.mon['locks'] + 1
        s.mon = dict(s.mon, locks=n)
        self.write(s, key, self.mk(('sym', 'HISTORY%d' % min(n, 4))))

    def mention(self, k):
        out = set()

        def go(x):
            if isinstance(x, V): out.update(self.subs(x))
            elif isinstance(x, tuple):
                for y in x: go(y)
        go(k)
        return out

    def fits(self, s, v):
        # (invariant) a stored position was an index into a list in memory once
        return v == self.inner(self.x0) or super().fits(s, v)

    def inner(self, v): return self.mk(('fld', v, 1, 0))

    def there(self, s, v):
        """is this Option Some? 0, 1 or None"""
        k = self.isc(self.norm(s, self.discr(s, v)))
        if k is None:
            # (invariant) the position and the kept input are there together
            o = [f for f in (self.x0, self.k0) if f is not None]
            if v in o:
                for f in o:
                    j = self.isc(self.norm(s, self.discr(s, f)))
                    if j is not None: return j
        return k

    def contradiction(self, s):
        a, b = (self.isc(self.norm(s, self.discr(s, f))) for f in (self.x0, self.k0))
        return a is not None and b is not None and a != b or super().contradiction(s)

    k0 = None
    KEPT = None

    def keep(self, s):
        if self.KEPT: self.k0 = self.mk(('fld', self.S, None, self.fi_idx2(self.KEPT)))

    def fi_idx2(self, name): return self.fields.index(name)

    def eqn(self, s, a, b):
        if self.same(a, b): return True
        if self.lt(s, a, b) or self.lt(s, b, a): return False
        return self.le(s, a, b) and self.le(s, b, a)

    def lists(self, s, v):
        """the lists of lines a text was taken from: (list, index)"""
        t = self.tab[v]
        if t[0] == 'idx': return t[1], t[2]
        return None


class NavReq(Nav, EditReq): pass


class NavKey(Nav, EditKey): pass


def find_kept(d, e):
    """the field that holds the input from before: the Option<String> that recalling an entry for the first time fills with it"""
    opts = [n for n, t in zip(e.fields, e.ftypes) if d.tyname(t) == 'std::option::Option<std::string::String>']
    if len(opts) == 1: return opts[0]
    from disp import tasks
    for name, cls, kw in edit_tasks(d):
        if cls is EditKey and action(kw)[0] == 'previous':
            r = EditKey(d, **kw)
            r.go()
            for x in r.exits:
                if x.exit[0] != 'idle': continue
                for n in opts:
                    v = r.norm(x, r.final_field(x, n)) if hasattr(r, 'final_field') else r.norm(x, r.read(x, (r.state_loc[0], r.state_loc[1] + ((None, r.fields.index(n)),))))
                    t = r.tab[v]
                    if t[0] == 'agg' and t[2] == 1 and t[3] and r.norm(x, t[3][0]) == r.I0: return n
            return None


def job(i):
    d, ts, comp, kept = disp._job
    name, cls, kw = ts[i]
    e = (NavKey if cls is EditKey else NavReq)(d, **kw)
    e.KEPT = kept
    e.k0 = e.mk(('fld', e.sym('S'), None, e.fields.index(kept)))
    e.go()
    out, n = [], dict(paths=0, panics=0, moved=0, infeasible=0, restored=0)
    act = action(kw, comp, True)[0] if cls is EditKey else name
    said = set()

    def say(ok, rule, okmsg, msg, x):
        if ok: out.append(('ok', rule, okmsg)); return
        if e.contradiction(x): n['infeasible'] += 1; return
        out.append(('bad', rule, msg))
    for x in e.exits:
        if 'locks' not in x.mon: continue
        k = x.exit[0]
        if k == 'panic':
            if e.completor_bug(x): continue
            if act not in ('previous', 'next', 'BumpHistory') and not e.about(x, ('cur_history_index', 'orphaned_new_input', 'history_original_line')): continue
            n['panics'] += 1
            say(False, 'panic', '', 'a panic is not ruled out: %s in %s' % (re.sub(r'src/\S*:\d+', '', str(x.exit[1][:2]))[:80], e.where(x).split(' > ')[-1]), x) if not e.contradiction(x) else out.append(('ok', 'no panic', name))
            continue
        if k not in ('idle', 'return'):
            if k not in ('spin', 'diverge', 'quiet'): out.append(('bad', 'cut', 'analysis cut short: %s' % (k,)))
            continue
        if k == 'return': continue
        n['paths'] += 1
        X = e.final(x, 'cur_history_index')
        K = e.norm(x, e.read(x, (e.state_loc[0], e.state_loc[1] + ((None, e.fields.index(kept)),))))
        I, C = e.final(x, 'input'), e.final(x, 'input_cursor')
        a, b = e.there(x, X), e.there(x, K)
        same = (X == e.x0 and K == e.k0)
        say(same or a is not None and a == b, 'together', name, 'a position may be left without the input to come back to, or the other way round (position %s, kept input %s)' % (e.pps(X)[:60], e.pps(K)[:60]), x)
        if a == 1 and X != e.x0:
            v = e.norm(x, e.proj(x, X, (1, 0)))
            H = [e.mk(('sym', 'HISTORY%d' % j)) for j in range(1, 5)]
            ls = [y for y in lens(e, x) if any(h in e.subs(y) for h in H)]
            say(any(e.lt(x, v, e.lenterm(y)) for y in ls) or v == e.inner(e.x0) and a == 1, 'in the list', name, 'the new position (%s) is not known to exist in the list looked at' % e.pps(v)[:80], x)
        was = e.there(x, e.x0)
        if act in ('previous', 'next'):
            if I == e.I0 and X == e.x0:
                say(K == e.k0 or a == b, 'unmoved', name, 'the kept input changes although nothing moves', x)
                continue
            n['moved'] += 1
            if a == 1:
                v = e.norm(x, e.proj(x, X, (1, 0)))
                src = e.lists(x, I)
                say(src is not None and e.eqn(x, src[1], v), 'shows it', name, 'the text shown (%s) is not the entry at the new position' % e.pps(I)[:80], x)
                old = e.inner(e.x0)
                one = e.mk(('op', 'Add', v, e.c1))
                L = e.lenterm(src[0]) if src else None
                if src is None: continue
                if was == 0: say(act == 'previous' and e.eqn(x, one, L), 'newest first', name, 'moving %s starts at %s rather than at the newest entry' % ('up' if act == 'previous' else 'down', e.pps(v)[:60]), x)
                elif was == 1 and act == 'previous':
                    m = e.norm(x, one)
                    u = e.unlin(e.lin(m))
                    mt = e.tab[u] if u is not None else ('',)
                    least = mt[0] == 'call' and pathtail(str(mt[1])) == 'min' and {e.norm(x, z) for z in mt[2:]} == {old, e.norm(x, L)}
                    say(least or e.eqn(x, one, old) or e.eqn(x, one, L) and e.le(x, L, old), 'older', name, 'moving up goes to %s, which is not the entry just before' % e.pps(v)[:60], x)
                elif was == 1: say(e.eqn(x, v, e.mk(('op', 'Add', old, e.c1))), 'newer', name, 'moving down goes to %s, which is not the entry just after' % e.pps(v)[:60], x)
                else: say(False, 'started', '', 'the path does not look at whether a position is remembered', x)
                if was == 0:
                    t = e.tab[K]
                    say(t[0] == 'agg' and t[2] == 1 and e.norm(x, t[3][0]) == e.I0, 'kept', name, 'the input typed so far is not kept when moving starts (kept: %s)' % e.pps(K)[:80], x)
                elif was == 1: say(K == e.k0 or e.tab[K][0] == 'agg' and e.tab[K][2] == 1 and e.norm(x, e.tab[K][3][0]) == e.inner(e.k0), 'kept on', name, 'the input kept from before is replaced while moving (by %s)' % e.pps(K)[:80], x)
            elif a == 0:
                n['restored'] += 1
                say(I == e.inner(e.k0), 'comes back', name, 'moving past the newest entry leaves %s instead of the input kept' % e.pps(I)[:80], x)
                say(act == 'next', 'leaves forward', name, 'moving up ends the navigation', x)
                # only past the newest
                old = e.inner(e.x0)
                ls = [y for y in lens(e, x) if 'HISTORY' in e.pps(y)]
                say(any(e.le(x, e.lenterm(y), e.mk(('op', 'Add', old, e.c1))) for y in ls), 'past the newest', name, 'the kept input comes back although a newer entry is there', x)
    base = [(e.isc(e.discr(s2, v)), e.isc(e.discr(s2, e.norm(s2, e.proj(s2, S0, (None, e.fields.index(kept))))))) for s2, S0 in getattr(e, 'base', []) for v in [e.norm(s2, e.proj(s2, S0, (None, e.fields.index(e.roles['cur_history_index']))))]]
    return name, act, out, n, base, e.steps


def lens(e, x):
    """lists whose length appears in what is known or in positions"""
    out = set()
    for k in list(x.eq) + [e.read(x, e.state_loc)]:
        for y in e.subs(k):
            t = e.tab[y]
            if t[0] == 'call' and opname(t[1]) == 'len' and len(t) == 3: out.add(t[2])
            if t[0] == 'idx': out.add(t[1])
            n = e.enumerated(y)
            if n is not None: out.add(n)
    return out


def check(ctx):
    for feat in ('default',) if ctx.tier == 'quick' else ('default', 'all', 'noglobal'):
        d = ctx.dump(feat)
        e0 = Sess(d)
        if not e0.has('cur_history_index') or not e0.has('history'):
            ctx.bad('anchor:%s' % feat, 'the session keeps no position in the history that this analysis can find')
            continue
        kept = find_kept(d, e0)
        if kept is None:
            ctx.bad('%s:kept:not kept' % feat, 'recalling an entry keeps the input typed so far in no field of the session')
            continue
        ts = edit_tasks(d)
        tot = dict(paths=0, panics=0, moved=0, infeasible=0, restored=0)
        comp = 'SetCompletor' in e0.variants
        for name, act, out, n, base, steps in par(job, len(ts), (d, ts, comp, kept)):
            for k in tot: tot[k] += n[k]
            a = ctx.analysed.setdefault(feat, dict(blocks_interpreted=0, scenarios=0))
            a['blocks_interpreted'] += steps; a['scenarios'] += 1
            ctx.ob(bool(base) and all(b == (0, 0) for b in base), '%s:base' % feat, 'a session starts outside the history', 'a session does not start outside the history')
            for kind, rule, msg in sorted(set(out)):
                if kind == 'bad': ctx.bad('%s:%s:%s:%s' % (feat, rule, name, re.sub(r'\d+', '#', msg)[:120]), 'handling %s: %s' % (name, msg))
            for kind, rule, msg in out:
                if kind == 'ok': ctx.ok('%s:%s' % (feat, rule), msg)
            if act in ('previous', 'next'): ctx.ob(n['moved'] > 0, '%s:moves:%s' % (feat, name), 'the key moves', 'the %s key never moves through the history' % name)
        for k in ('paths', 'moved', 'restored', 'panics'): ctx.floor('%s.%s' % (feat, k), tot[k], {'paths': 300, 'moved': 8, 'restored': 2, 'panics': 0}[k])
        told(ctx, feat, d)
    ctx.assumptions.append('assumption: the program does not panic while it holds the lock of the history (which would poison it)')


class Swap(ApiCall):
    """swap_history: what is done, in order"""

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if re.search(r'std::mem::(swap|replace|take)$', g['path']): s.mon = dict(s.mon, ch=s.mon['ch'] + ('replace',))

    def on_send(self, s, ch, v, line, g):
        t = self.tab[v]
        n = [w['name'].split('::')[-1] for w in self.d.types[t[1]]['v']][t[2]] if t[0] == 'agg' and isinstance(t[1], int) else '?'
        held = any('RwLock' in str(x) or x[1] for x in s.loans)
        s.mon = dict(s.mon, ch=s.mon['ch'] + (n,))


def told(ctx, feat, d):
    """replacing the history tells the I/O thread, after the new list is in place"""
    m = [f for f in d.fns.values() if re.search(r'(^|::)InputOutput::swap_history$', f['path']) and 'blocks' in f]
    if not m: return ctx.bad('anchor:swap_history', 'InputOutput::swap_history is missing')
    e = Swap(d, m[0]['id'])
    e.go()
    for x in e.exits:
        if x.exit[0] != 'return': continue
        ch = x.mon['ch']
        ctx.ob('replace' in ch and 'BumpHistory' in ch and ch.index('replace') < ch.index('BumpHistory'), '%s:told' % feat, 'replacing the history tells the I/O thread afterwards', 'swap_history does %s' % (', '.join(ch) or 'nothing'))
    ctx.floor('%s.swap paths' % feat, len([x for x in e.exits if x.exit[0] == 'return']), 1)
