"""Abstract interpretation of the history's methods over MIR with a ghost account of the list: its length, the ranges
known to hold no copy of the new line, and whether the line has been added. Every operation that changes the list must be one
that only drops copies (while copies are stripped) or just as many of the oldest lines as the limit asks for, the new line is
added exactly once and last, on every path, with nothing left unlooked-at (loop exits by coinduction over the values loops
carry), and the length at the end is within the limit. Every key of both input paths and every request is then interpreted: the
lines handed to the history are exactly the entered ones, once each, before the response is sent, whether or not adding reports an error."""
from hist import *
from keys import *
from common import *


class Adds(KeyFx):
    track = KeyFx.track + ('ord',)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if 'ord' in s.mon and re.search(r'(^|::)History::add_line$', g['path']):
            self.add(s, 'ord', ('add', self.norm(s, args[1])))
            ty = self.cur_dest_ty
            a, b = s.copy(), s.copy()
            b.mon = dict(b.mon, failed=1)
            return (self.ret_many([(a, self.agg(ty, 0, (self.unit,))), (b, self.agg(ty, 1, (self.fresh(b, 'error'),)))], dest, target),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def on_send(self, s, ch, v, line, g):
        super().on_send(s, ch, v, line, g)
        if ch == 'response' and 'ord' in s.mon:
            n, p = self.vname(self.snap(s, v, None))
            if n == 'Input': self.add(s, 'ord', ('send', self.norm(s, p[0])))

    def model(self, s, g, args, argtys, dest, target, line):
        # anything else that reaches into the list of lines
        return super().model(s, g, args, argtys, dest, target, line)


class AddsReq(Adds):
    def __init__(self, d, variant, payload=None):
        OneRequest.__init__(self, d, variant, payload)
        self.prover_init()
    def request_value(self, s): return OneRequest.request_value(self, s)
    def peel(self, s, hk): return OneRequest.peel(self, s, hk)
    def model(self, s, g, args, argtys, dest, target, line): return Sess.model(self, s, g, args, argtys, dest, target, line)


def job(i):
    d, ts = disp._job
    name, cls, kw = ts[i]
    e = (Adds if cls is DispKey else AddsReq)(d, **kw)
    e.go()
    act = action(kw)[0] if cls is DispKey else None
    out, n = [], 0
    for x in e.exits:
        if x.exit[0] != 'idle' or 'ord' not in x.mon: continue
        o = [(k, v) for k, v in x.mon['ord']]
        J = Judge(e, x)
        n += 1
        allowed = e.isc(e.norm(x, e.f0('input_allowed')))
        own = lambda v: v == J.I0 or e.same_text(x, e.parts(x, v), e.tidy(x, [('part', J.I0, e.c(0), J.L0)])) or J.empty0() and not e.parts(x, v)
        adds, sends = [v for k, v in o if k == 'add'], [v for k, v in o if k == 'send']
        w = None
        if act == 'enter' and allowed != 0:
            if len(adds) != 1: w = 'an entered line is added to the history %d times' % len(adds)
            elif not own(adds[0]): w = 'what is added to the history is not the entered line'
            elif not sends: w = 'the entered line is not sent%s' % (' when it cannot be saved' if x.mon.get('failed') else '')
            elif o[0][0] != 'add': w = 'the program receives the line before it is in the history'
        elif act == 'free' or act is None and name.startswith('RawInput'): pass
        elif adds: w = 'a line is added to the history although none was entered'
        if w and not e.contradiction(x): out.append(w)
    return name, act, n, sorted(set(out)), e.steps, len(e.visited_fns)


def check(ctx):
    for feat in ('default',) if ctx.tier == 'quick' else ('default', 'all', 'noglobal'):
        d = ctx.dump(feat)
        f = find_method(d, 'add_line')
        if f is None: return ctx.bad('anchor:add_line', 'History::add_line is missing')
        methods(ctx, feat, d, f)
        ts = [t for t in tasks(d)]
        res = par(job, len(ts), (d, ts))
        enter = total = 0
        for name, act, n, bad, steps, fns in res:
            a = ctx.analysed.setdefault(feat + ' keys and requests', dict(blocks_interpreted=0, scenarios=0, paths=0, functions=0))
            a['blocks_interpreted'] += steps; a['scenarios'] += 1; a['paths'] += n; a['functions'] = max(a['functions'], fns)
            total += n
            enter += act == 'enter' and n > 0
            for w in bad: ctx.bad('%s:entered:%s:%s' % (feat, name, w), '%s: %s' % (name, w))
            if not bad: ctx.ok('%s:entered' % feat, name)
        ctx.floor(feat + '.keys that enter a line', enter, 3)
        ctx.floor(feat + '.paths', total, 200)


def methods(ctx, feat, d, f):
    e = Hist(d, f['id'])
    missing = [r for r in ('lines', 'limit', 'strip', 'handler', 'interval') if r not in e.R.idx]
    if missing: return ctx.bad('anchor:fields', 'no field of the history found for %s' % missing)
    e.go()
    ctx.engine_stats(feat + ' add_line', e)
    nret = 0
    dead = {}

    def contra(s):
        if id(s) not in dead: dead[id(s)] = e.contradiction(s)
        return dead[id(s)]
    for s, cond, rule, msg in e.oblig:
        if rule in ('handler', 'saved after'): continue
        if cond() or contra(s): ctx.ok('%s:%s' % (feat, rule), 'add_line')
        else: ctx.bad('%s:add_line:%s' % (feat, rule), 'adding a line: ' + msg)
    strips = limits = 0
    for x in e.exits:
        k = x.exit[0]
        if k == 'panic':
            i = x.exit[1]
            if contra(x) or i[0] == 'assert' and i[1] == 'overflow' and about_counter(e, x): ctx.ok(feat + ':no panic', 'add_line')
            else: ctx.bad('%s:add_line:panic:%s' % (feat, i[:2]), 'adding a line may panic: %s in %s' % (str(i[:3]), e.where(x)))
            continue
        if k != 'return':
            ctx.bad('%s:add_line:cut' % feat, 'analysis cut short: %s' % (x.exit,))
            continue
        nret += 1
        ctx.ob(x.mon['pushed'] == 1 or contra(x), '%s:add_line:once' % feat, 'the line is added once on every path', 'on some path the line is added %d times' % x.mon['pushed'])
        lim = e.isc(e.norm(x, e.discr(x, e.h0('limit'))))
        if lim == 0: ctx.ok(feat + ':limit', 'no limit')
        else:
            limits += 1
            n = e.plus(e.lin(e.limit(x)), e.lin(e.gh(x, 'n')), -1)
            ctx.ob(lim == 1 and (e.ge0(x, n) or saturated(e, x)) or contra(x), '%s:add_line:limit' % feat, 'at most as many lines as the limit at the end', 'the history may hold more lines than its limit (%s, limit %s)' % (e.pp(e.gh(x, 'n'))[:80], e.pp(e.limit(x))[:40]))
        if x.eq.get(e.h0('strip')) == 1: strips += 1
        r = x.user['ret']
        if e.isc(e.norm(x, e.discr(x, r))) != 0:
            ctx.ob(x.mon['res'] is not None, '%s:add_line:error' % feat, 'an error is that of the autosave handler', 'adding a line may fail although nothing was saved')
        for role in ('limit', 'strip', 'handler', 'interval'):
            ctx.ob(e.now(x, role) == e.norm(x, e.h0(role)), '%s:add_line:setting:%s' % (feat, role), 'settings are kept', 'adding a line changes the setting of the %s' % role)
    ctx.floor(feat + '.add_line paths', nret, 4)
    ctx.floor(feat + '.add_line paths that strip', strips, 1)
    ctx.floor(feat + '.add_line paths with a limit', limits, 1)
    # the other methods: none may change the list but the one that reads it from a file
    others = 0
    for g in d.fns.values():
        if not re.search(r'(^|::)History::\w+$', g['path']) or 'blocks' not in g or not g['local']: continue
        n = pathtail(g['path'])
        if g['argc'] < 1 or n in ('add_line',): continue
        t = d.types[g['locals'][1]]
        if not (t['k'] == 'ref' and t['mut'] and t['e'] == e.R.tid): continue
        if n == 'read_history_from': continue      # replaces the list, by definition
        h = Hist(d, g['id'])
        h.LINE = h.sym('ARG')
        h.go()
        others += 1
        for x in h.exits:
            if x.exit[0] == 'return': ctx.ob(h.lst(x) == h.norm(x, h.h0('lines')), '%s:%s:lines' % (feat, n), 'the list is kept', '%s changes the list of lines' % n)
    ctx.floor(feat + '.methods that keep the list', others, 3)
    defaults(ctx, feat, d, e)


def about_counter(e, x):
    for k, v in x.eq.items():
        t = e.tab[k]
        if t[0] == 'op' and t[1] == 'Ovf' and v == 1 and e.h0('counter') in e.subs(k): return True
    return False


def saturated(e, x):
    """len - saturating_sub(len + 1, limit) + 1 <= limit"""
    n = e.lin(e.gh(x, 'n'))
    for v, k in n[0].items():
        t = e.tab[v]
        if k == -1 and t[0] == 'call' and opname(t[1]) == 'saturating_sub' and len(t) == 4:
            d = e.plus(e.lin(t[2]), e.lin(t[3]), -1)
            # n = rest - max(0, d): both n with d taken, and (when d <= 0) n with 0, must be within the limit
            rest = e.plus(n, ({v: -1}, 0), -1)
            one = e.plus(e.lin(e.limit(x)), e.plus(rest, d, -1), -1)
            if one == ({}, 0): return True
    return False


def defaults(ctx, feat, d, e0):
    """documented defaults of a new history: at most 100 lines, copies stripped, no autosave"""
    f = find_method(d, 'new')
    if f is None: return ctx.bad('anchor:new', 'History::new is missing')
    e = PureCall(d, f['id'])
    rs, other = e.run_on(lambda e: [])
    for x, r in rs:
        fld = lambda role: e.norm(x, e.proj(x, r, (None, e0.R.idx[role])))
        lim = fld('limit')
        ctx.ob(e.isc(e.discr(x, lim)) == 1 and e.isc(e.norm(x, e.proj(x, lim, (1, 0)))) == 100, feat + ':default limit', 'a new history is limited to 100 lines', 'a new history has the limit %s' % e.pp(lim))
        ctx.ob(e.isc(fld('strip')) == 1, feat + ':default strip', 'a new history strips duplicates', 'a new history does not strip duplicates')
        ctx.ob(e.isc(e.lenv(x, fld('lines'))) == 0, feat + ':default lines', 'a new history is empty', 'a new history is not empty')
    ctx.floor(feat + '.ways to make a history', len(rs), 1)
