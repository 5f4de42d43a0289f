"""Typestate and effect analysis over MIR: every public output method is interpreted with unknown arguments
and must send exactly one request on every returning path; that very request (variant and payload terms) is
then handled by the interpreted body of the I/O thread in an arbitrary session state, and the effects on every
path (printed lines, responses, callbacks, bells, changed fields, as terms over the method's arguments) must be
exactly the method's documented ones. Repeated in several feature configurations."""
from scen import *

DISPLAY = ('status', 'prompt', 'notice', 'input', 'input_cursor', 'input_allowed', 'clipboard', 'completor', 'history',
           'cur_history_index', 'orphaned_new_input')


def effects(e, x):
    """(lines, responses, callbacks, bells, requests, changed roles) of one path"""
    inv = {v: k for k, v in e.roles.items()}
    ch = {inv.get(n, n): v for n, v in e.changed(x).items()}
    return {k: x.mon[k] for k in ('lines', 'resp', 'cb', 'bell', 'req')}, {k: v for k, v in ch.items() if k in DISPLAY}


def only(ef, ch, **want):
    """no effects besides the wanted kinds"""
    bad = [k for k, v in ef.items() if v and k not in want]
    bad += ['field ' + k for k in ch if k not in want.get('fields', ())]
    return bad


def set_to(e, x, role, v):
    """the field now holds v (or was found equal to it)"""
    cur = e.final(x, role)
    v = e.norm(x, v)
    if cur == v: return True
    return e.isc(e.eqv(x, cur, v)) == 1


def opt(e, v):
    """payload of a known Some"""
    t = e.tab[v]
    return t[3][0] if t[0] == 'agg' and t[2] == 1 and t[3] else None


def check(ctx):
    for feat in ('default', 'all', 'none', 'noglobal'):
        one(ctx, feat)


def one(ctx, feat):
    d = ctx.dump(feat)
    ms = api_methods(d)
    n = 0
    paths = 0
    spec = {
        'println': line, 'echoln': line, 'wrapln': wrap, 'status': status, 'remove_status': status, 'notice': notice,
        'prompt': prompt, 'remove_prompt': prompt, 'bell': bell, 'suspend_and_run': suspend, 'send_custom': custom,
        'send_custom_box': custom, 'set_completor': completor,
    }
    need = {'println', 'echoln', 'status', 'remove_status', 'notice', 'prompt', 'bell', 'suspend_and_run', 'send_custom', 'send_custom_box'}
    if feat in ('default', 'all', 'noglobal'): need |= {'wrapln', 'set_completor'}
    for m in sorted(need - set(ms)): ctx.bad('anchor:%s:%s' % (feat, m), 'public method Output::%s is missing' % m)
    used = {}
    for m, fn in sorted(spec.items()):
        f = ms.get(m)
        if f is None: continue
        a = ApiCall(d, f['id'])
        a.go()
        ctx.engine_stats('api ' + feat, a)
        sent = []
        for x in a.exits:
            if x.exit[0] == 'return':
                reqs = [v for v, c in zip(x.mon['sent'], x.mon['ch']) if c == 'request']
                ctx.ob(len(reqs) == 1 and len(x.mon['sent']) == 1, '%s:one-request:%s' % (feat, m),
                       '%s sends exactly one request on this path' % m, 'a path through %s sends %d requests' % (f['path'], len(reqs)))
                sent += [(v, x) for v in reqs]
        ctx.ob(bool(sent), '%s:sends:%s' % (feat, m), '%s sends its request' % m, '%s never sends a request' % f['path'])
        n += 1
        done = set()
        for v, ax in sent:
            if v in done: continue
            done.add(v)
            if a.tab[v][0] != 'agg':
                ctx.bad('%s:payload:%s' % (feat, m), '%s sends a request the analysis cannot see through: %s' % (m, a.pp(v)))
                continue
            kind = a.tab[v][2]
            used.setdefault(kind, set()).add(m)
            e = SentEffects(d, a, v)
            e.go()
            ctx.engine_stats('handling ' + feat, e)
            A = [e.sym('arg%d' % i) for i in range(f['argc'])]
            st = [x for x in e.exits if 'lines' in x.mon]
            idle = [x for x in st if x.exit[0] == 'idle']
            ended = [x for x in st if x.exit[0] == 'return']
            ctx.ob(not ended, '%s:session-continues:%s' % (feat, m), 'handling %s does not end the session' % m,
                   'the request sent by %s can end the session (path: %s)' % (m, ended and str(ended[0].exit)))
            ctx.ob(bool(idle), '%s:handled:%s' % (feat, m), 'the request sent by %s is handled' % m, 'no path handles the request sent by %s' % m)
            for x in idle:
                paths += 1
                ef, ch = effects(e, x)
                r = fn(e, x, m, A, ef, ch, (a, ax))
                show = '; '.join('%s=%s' % (k, [e.pps(y) if isinstance(y, V) else y for y in z]) for k, z in ef.items() if z) + ' fields ' + str({k: e.pps(z) for k, z in ch.items()})
                ctx.ob(not r, '%s:effect:%s' % (feat, m), '%s takes its documented effect' % m,
                       'handling the request sent by %s: %s (effects on this path: %s)' % (m, '; '.join(r or ()), show))
    ctx.floor(feat + '.methods', n, len(need))
    ctx.floor(feat + '.paths', paths, len(need))


def line(e, x, m, A, ef, ch, api):
    r = only(ef, ch, lines=1)
    want = e.call('into', A[1])
    if ef['lines'] != (want,): r.append('the printed lines are not exactly the given line')
    return r


def wrap(e, x, m, A, ef, ch, api):
    r = only(ef, ch, lines=1)
    want = e.call('into', A[1])
    if len(ef['lines']) != 1: r.append('%d lines printed instead of one' % len(ef['lines']))
    else:
        t = e.tab[ef['lines'][0]]
        if not (t[0] == 'mut' and 'Line::wrap_to_width' in t[1] and t[3] == want and len(t) == 5 and e.from_width(t[4])):
            r.append('the printed line is not the given line wrapped to the terminal width')
    return r


def from_width(self, v):
    return any(self.tab[y][0] == 'fresh' and 'get_width' in str(self.tab[y][2]) for y in self.subs(v))


Sess.from_width = from_width


def status(e, x, m, A, ef, ch, api):
    r = only(ef, ch, fields=('status',))
    if m == 'remove_status': want = None
    else:
        a, ax = api
        d = ax.eq.get(a.mk(('discr', a.sym('arg1'))))
        sv = e.tab[e.sent][3][0]
        want = e.call('into', e.mk(('fld', A[1], 1, 0)))
        p = opt(e, sv)
        if d == 1 and p != want: r.append('a given status is not passed on')
        if d == 0 and (e.tab[sv][0] != 'agg' or e.tab[sv][2] != 0): r.append('removing the status is not passed on')
        if d is None: r.append('whether there is a status is not respected')
    sv = e.tab[e.sent][3][0]
    if m == 'remove_status' and (e.tab[sv][0] != 'agg' or e.tab[sv][2] != 0): r.append('does not ask for no status')
    if not set_to(e, x, 'status', sv): r.append('the status is not the requested one')
    return r


def notice(e, x, m, A, ef, ch, api):
    r = only(ef, ch, fields=('notice',))
    p = opt(e, e.final(x, 'notice'))
    if p is None or e.proj(x, p, (None, 0)) != e.call('into', A[1]): r.append('the notice is not the requested one')
    elif A[2] not in e.subs(e.proj(x, p, (None, 1))) and not e.overflowed(x, A[2]):
        r.append('the deadline of the notice does not depend on the requested duration')
    return r


def overflowed(self, x, dur):
    """now + duration was found not to be representable"""
    return any(k == 0 and self.tab[t][0] == 'discr' and dur in self.subs(t) for t, k in x.eq.items())


Sess.overflowed = overflowed


def known_empty(a, x, v):
    """a fact of this path says that this text is empty"""
    for t, k in x.eq.items():
        tt = a.tab[t]
        if k == 1 and tt[0] == 'call' and str(tt[1]).endswith('is_empty') and v in a.subs(t): return True
        if k == 0 and tt[0] == 'call' and tt[1] == 'len' and v in a.subs(t): return True
        if k == 0 and tt[0] == 'call' and str(tt[1]).endswith('::len') and v in a.subs(t): return True
        if k == 1 and tt[0] == 'op' and tt[1] == 'Eq' and v in a.subs(t): return True
    return False


def prompt(e, x, m, A, ef, ch, api):
    a, ax = api
    r = only(ef, ch, fields=('prompt', 'input', 'input_cursor', 'input_allowed', 'cur_history_index', 'orphaned_new_input'))
    if m == 'remove_prompt': allowed, clear, want = A[1], A[2], None
    else:
        allowed, clear, want = A[2], A[3], e.call('into', A[1])
    got = e.final(x, 'prompt')
    if want is not None:
        p = [v for v in e.tab[e.sent][3] if want in e.subs(v)]
        empty = known_empty(a, ax, a.call('into', a.sym('arg1')))
        wantv = None
        for v in e.tab[e.sent][3]:
            t = e.tab[v]
            if t[0] == 'agg' and isinstance(t[1], int) and e.ty(t[1]).get('def') == 'std::option::Option': wantv = v
        if wantv is None: r.append('the prompt text is not passed on')
        else:
            q = opt(e, wantv)
            if q is not None and q != want: r.append('another prompt text is passed on')
            if q is None and not empty: r.append('a prompt that is not empty is dropped')
            if not set_to(e, x, 'prompt', wantv): r.append('the prompt is not the requested one')
    else:
        if not (e.tab[got][0] == 'agg' and e.tab[got][2] == 0) and e.isc(e.discr(x, got)) != 0: r.append('the prompt is not removed')
    if not set_to(e, x, 'input_allowed', allowed): r.append('the input permission is not the requested one')
    c = e.isc(e.norm(x, clear))
    inp = e.final(x, 'input')
    if c is None:
        # not examined on this path: the outcome must be right either way
        if 'input' in ch or e.isc(e.lenv(x, inp)) != 0: r.append('whether to clear the input is ignored')
    elif c == 1 and e.isc(e.lenv(x, inp)) != 0: r.append('the input is not cleared')
    elif c == 0 and ('input' in ch or 'input_cursor' in ch): r.append('the input is changed without being asked')
    return r


def bell(e, x, m, A, ef, ch, api):
    r = only(ef, ch, bell=1)
    if len(ef['bell']) != 1: r.append('the bell rings %d times' % len(ef['bell']))
    return r


def suspend(e, x, m, A, ef, ch, api):
    r = only(ef, ch, cb=1)
    if ef['cb'] != (A[1],): r.append('the callback is run %d times' % len(ef['cb']))
    return r


def custom(e, x, m, A, ef, ch, api):
    r = only(ef, ch, resp=1)
    if len(ef['resp']) != 1: r.append('%d responses instead of one' % len(ef['resp']))
    else:
        t = e.tab[ef['resp'][0]]
        nm = e.ty(t[1])['v'][t[2]]['name'].split('::')[-1] if t[0] == 'agg' else '?'
        if nm != 'Custom' or t[3] != (A[1],): r.append('the response is %s' % e.pps(ef['resp'][0]))
    return r


def completor(e, x, m, A, ef, ch, api):
    r = only(ef, ch, fields=('completor',))
    if not set_to(e, x, 'completor', A[1]): r.append('the completor is not the given one')
    return r
