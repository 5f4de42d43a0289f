"""Path analysis of every reading method. Each method of the owner whose result is or holds a response (enumerated from
the type-checked program; asynchronous ones as the state machines the compiler made of them, polled until ready) is
interpreted with every outcome that receiving can have at each receive: a message, nothing yet or a timeout, or a
closed channel. Rules: a message is returned as it is and nothing else is; Dead is returned exactly on the paths where
the channel was found closed (which the channel reports only after everything sent has been delivered); nothing is
returned when nothing came; each report of Dead adds exactly one to the count of such reports, no other path changes
it, and no path gets past a report with the count above a constant bound: it panics. Whole-program rules: the count
starts at zero and is written nowhere else, the Dead response is constructed nowhere else, nobody closes or swaps the
receiving end, and the sending end is held by the I/O thread alone, so the channel closes exactly when the thread
is gone."""
from owner import *
from edit import Prover


KNOWN = ('read_async', 'read', 'read_blocking', 'blocking_read', 'read_timeout', 'read_deadline', 'try_read')


def reading_methods(d):
    """the documented ones, and any other method that gives a response and gets to the receiving end"""
    cg = CallGraph(d)
    recv = cg.reaching(lambda f: bool(Owner.RECV.search(f['path'])) and not f['local'] or bool(re.search(r'mpsc.*Receiver.*::(recv|try_recv|blocking_recv|poll_recv)\b', f['path'])))
    return {n: f for n, f in methods(d).items() if holds(d, f['locals'][0]) and (n in KNOWN or f['id'] in recv)}


def count_field(e, exits):
    """the field of the owner that counts reports"""
    out = set()
    for x in exits:
        if 'closed' not in x.mon['got']: continue
        for i, n in enumerate(e.iofields):
            t = e.ty(e.d.types[e.io_ty]['v'][0]['f'][i][1])
            if t.get('k') in ('int', 'uint') or e.d.tyname(e.d.types[e.io_ty]['v'][0]['f'][i][1]) in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32'):
                if e.iof(x, n) != e.norm(x, e.mk(('fld', e.IO, None, i))): out.add(n)
    return out


def bounded(e, s, v, v0):
    """do the path's facts bound the count by a constant?"""
    for t, k in list(s.eq.items()):
        x = e.tab[t]
        if x[0] in ('bin', 'op') or x[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq'):
            pass
        ops = [y for y in x[1:] if isinstance(y, V)]
        names = [y for y in x if isinstance(y, str)]
        if len(ops) == 2 and any(n in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') for n in names):
            op = [n for n in names if n in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne')][0]
            a, b = ops
            ca, cb = e.isc(a), e.isc(b)
            if a in (v, v0) and cb is not None and (op in ('Lt', 'Le') and k == 1 or op in ('Gt', 'Ge') and k == 0 or op == 'Eq' and k == 1): return cb
            if b in (v, v0) and ca is not None and (op in ('Gt', 'Ge') and k == 1 or op in ('Lt', 'Le') and k == 0 or op == 'Eq' and k == 1): return ca
    return None


def plus_one(e, s, v, v0):
    t = e.tab[v]
    if t[0] == 'call' and pathtail(t[1]) in ('saturating_add', 'wrapping_add') and len(t) == 4 and t[2] == v0 and e.isc(t[3]) == 1: return pathtail(t[1]) != 'wrapping_add'
    return v == e.norm(s, e.binop(s, 'Add', v0, e.c(1)))


def reader(ctx, feat, d, name, f):
    e = Owner(d, f['id'])
    exits = e.go()
    ctx.engine_stats(feat, e)
    key = '%s:%s' % (feat, name)
    fields = count_field(e, exits)
    seen = set()
    bad = []
    for x in exits:
        k = x.exit[0]
        got = tuple(y for y in x.mon['got'] if y != 'empty' or y == x.mon['got'][-1])
        if k in ('panic', 'diverge', 'unwind'):
            if not got or got == ('empty',): continue       # e.g. no runtime could be made: nothing was received
            if got[-1] != 'closed': bad.append('panics after receiving %s' % got[-1])
            continue
        if k != 'return':
            bad.append('analysis cut short: %s' % (x.exit,))
            continue
        r = e.norm(x, x.user['ret'])
        t = e.tab[r]
        rt = e.d.types[t[1]] if t[0] == 'agg' and isinstance(t[1], int) else None
        none = bool(rt and rt.get('def') == 'std::option::Option' and t[2] == 0)
        inner = t[3][0] if rt and rt.get('def') == 'std::option::Option' and t[2] == 1 else r
        it = e.tab[inner]
        dead = it[0] == 'agg' and it[1] == e.resp_ty and it[2] == e.dead_vi
        last = got[-1] if got else None
        seen.add(last)
        counts = {n: (e.iof(x, n), e.norm(x, e.mk(('fld', e.IO, None, e.iofields.index(n))))) for n in fields}
        if last == 'msg':
            if got.count('msg') != 1: bad.append('a response received earlier in the call is lost')
            elif inner != e.norm(x, x.mon['last']): bad.append('returns %s instead of the response it received' % ('nothing' if none else 'Dead' if dead else 'something else'))
            if any(a != b for a, b in counts.values()): bad.append('counts a report of Dead although a response was received')
        elif 'msg' in got: bad.append('a response received earlier in the call is lost')
        elif last == 'closed':
            if not dead: bad.append('does not return Dead when the I/O thread is gone')
            if not any(plus_one(e, x, a, b) for a, b in counts.values()): bad.append('does not count its report of Dead')
            elif not any(bounded(e, x, a, b) is not None for a, b in counts.values()): bad.append('gets past its report of Dead however often that has happened')
        elif last in ('empty', 'timeout'):
            if not none: bad.append('returns %s although nothing was received and the I/O thread may be alive' % ('Dead' if dead else 'a response'))
            if any(a != b for a, b in counts.values()): bad.append('counts a report of Dead although nothing was received')
        else: bad.append('returns without having tried to receive')
    if 'msg' not in seen or 'closed' not in seen: bad.append('no path was found on which it %s' % ('returns a response' if 'msg' not in seen else 'reports Dead'))
    ctx.ob(not bad, key, '%s reports what was received, and Dead exactly when the thread is gone' % name, '%s: %s' % (f['path'], '; '.join(sorted(set(bad)))))
    return fields


def whole(ctx, feat, d, fields):
    e = Sess(d)
    io = find_adt(d, 'InputOutput')[0]
    iof = [n for n, _ in d.types[io]['v'][0]['f']]
    resp = e.resp_ty
    di = [i for i, v in enumerate(d.types[resp]['v']) if v['name'].split('::')[-1] == 'Dead'][0]
    thread = e.cg.reach(e.root)
    made, wrote, n = [], [], 0
    start = []
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f): continue
        for st, t in f['blocks']:
            for x in st:
                if x[0] != '=': continue
                r = x[2]
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == resp and r[1][2] == di:
                    n += 1
                    if f['id'] in thread: made.append(f['path'])
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == io: start.append((f, r))
            if t[0] == 'call' and t[1][0] == 'k':
                g = d.fns.get(t[1][1].get('fn')) if isinstance(t[1][1].get('fn'), int) else None
                if g and 'Receiver' in g['path'] and 'mpsc' in g['path'] and pathtail(g['path']) == 'close' and 'Response' in g['name']:
                    ctx.bad('%s:closes:%s' % (feat, f['path']), '%s closes the receiving end' % f['path'])
    ctx.ob(not made, feat + ':dead-from-thread', 'the I/O thread never sends Dead', 'the I/O thread constructs Dead in %s' % ', '.join(sorted(set(made))))
    ctx.floor(feat + '.constructions of Dead', n, 3)
    # who holds a sending end
    is_tx = lambda t: t['k'] == 'adt' and re.search(r'mpsc.*Sender$', t['def']) and 'Response' in t['n']
    for nm in ('InputOutput', 'Output', 'OutputOnly', 'Request'):
        for tid in find_adt(d, nm):
            ctx.ob(not type_holds(d, tid, is_tx, 8), '%s:sender-in:%s' % (feat, nm), '%s holds no sending end for responses' % nm, 'a %s can hold a sending end for responses, so the channel stays open after the I/O thread is gone' % nm)
    k = 0
    for body, maker in spawned(d):
        if body['id'] == e.root or body['path'] == d.fns[e.root]['path']: continue
        k += 1
        held = any(type_holds(d, t, is_tx, 8) for t in body['locals'] if isinstance(t, int))
        ctx.ob(not held, '%s:sender-in-thread:%s' % (feat, body['path']), 'no other thread holds a sending end for responses', 'the thread started in %s holds a sending end for responses' % maker['path'])
    # the count
    ctx.ob(len(fields) == 1, feat + ':count', 'all readers count in the same place', 'the readers count reports of Dead in %s' % (sorted(fields) or 'no field'))
    if len(fields) == 1:
        ci = iof.index(next(iter(fields)))
        for f, r in start:
            o = r[2][ci]
            z = o[0] == 'k' and (o[1].get('i') in (0, '0'))
            ctx.ob(z, '%s:starts:%s' % (feat, f['path']), 'the count starts at zero', 'the count of reports starts at %s' % d.pop(o))
        writers = set()
        for f in d.fns.values():
            if not (f['local'] and 'blocks' in f): continue
            for st, t in f['blocks']:
                for p in [x[1] for x in st if x[0] == '='] + ([t[3]] if t[0] == 'call' else []):
                    if writes(d, f, p, io, ci): writers.add(f['id'])
        ctx.analysed[feat + ' writers of the count'] = sorted(d.fns[w]['path'] for w in writers)
        reading = {f['path'] for f in reading_methods(d).values()}

        def fine(w, seen=()):
            """a reading method, or a helper that only reading methods use"""
            if d.fns[w]['path'].split('::{')[0] in reading: return True
            cs = [f for f in e.cg.succ if w in e.cg.succ[f] and f != w and d.fns[f]['local']]
            return w not in seen and bool(cs) and all(fine(c, seen + (w,)) for c in cs)
        for w in writers:
            ctx.ob(fine(w), '%s:writer:%s' % (feat, d.fns[w]['path']), 'the count is changed only by reading methods', '%s changes the count of reports, and is not (or not only) part of a reading method' % d.fns[w]['path'])
    ctx.floor(feat + '.constructors of the owner', len(start), 1)


def writes(d, f, p, io, ci):
    t = f['locals'][p[0]]
    for e in p[1:]:
        ty = d.types[t] if isinstance(t, int) else None
        if e == '*': t = ty.get('e') if ty else None
        elif e[0] == 'f':
            if t == io: return e[1] == ci
            t = e[2]
        elif e[0] == 'd': pass
        else: return False
    return False


def check(ctx):
    for feat in ('default', 'none', 'all'):
        d = ctx.dump(feat)
        n, fields = 0, set()
        ms = reading_methods(d)
        for name in KNOWN: ctx.ob(name in ms, '%s:exists:%s' % (feat, name), '%s exists' % name, 'the reading method %s is gone' % name)
        for name, f in sorted(ms.items()):
            n += 1
            fields |= reader(ctx, feat, d, name, f)
        whole(ctx, feat, d, fields)
        ctx.floor(feat + '.reading methods', n, 7)
    ctx.assumptions.append('the channel reports "closed" only when every sender is dropped and everything sent has been delivered (documented behaviour of tokio\'s channel)')
