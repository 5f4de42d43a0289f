"""Table check over interpreted MIR: each of the 128 ASCII characters that can arrive as raw text, and each decoded
key event (control chords over the whole letter range, special keys, printable and odd characters), is interpreted
through the body of the I/O thread in an otherwise unknown session state. On every path to the next wait the effects
(responses with their payload terms, bells, screen clears, stop signals, callbacks with arguments, printed lines) must be exactly those of the action the README
assigns to the key; the same table serves both input paths, so they agree. The rest of a batch of raw characters must
be asked for after each one, nothing may happen while no input is allowed, the number of consecutive presses given to a completor is
followed through its field, and the code table of Response::as_unknown is evaluated on each variant and
compared with the keys found to send it."""
from keys import *
from scen import *
from common import *


def job(i):
    d, ts, comp, hist = disp._job
    name, cls, kw = ts[i]
    e = KeyFx(d, **kw)
    e.go()
    act, par_ = action(kw, comp, hist)
    out, n, sent, done, presses, pfields = [], 0, set(), set(), [], set()
    ends = []
    for x in e.exits:
        if 'resp' not in x.mon or x.exit[0] != 'idle': continue
        if e.contradiction(x): continue
        n += 1
        allowed = e.isc(e.norm(x, e.f0('input_allowed')))
        if allowed == 0:
            did = [k for k in KINDS if x.mon[k]]
            out.append(('quiet', 'it has effects although no input is allowed: %s' % ', '.join(did) if did else None))
            continue
        w = judge_effects(e, x, act, par_)
        out.append(('effects', w))
        if kw.get('raw'): out.append(('batch', None if x.mon.get('more') == 1 else 'the rest of a batch of characters is not handled after it'))
        for v in x.mon['resp']:
            nm, args = e.vname(v)
            sent.add((nm, e.isc(e.norm(x, args[0])) if nm == 'Unknown' and args else None))
        if act == 'complete':
            k = Judge(e, x).completed()
            if k: done.add(k)
            for cb in x.mon['cb']:
                a = [e.norm(x, v) for v in cb[1:]]
                if len(a) != 5: out.append(('completor', 'the completor is called with %d arguments' % len(a))); continue
                J = Judge(e, x)
                ok = a[2] == J.I0 and a[3] == J.C0
                out.append(('completor', None if ok else 'the completor is not given the current text and cursor'))
                t = e.tab[a[4]]
                f = None
                if t[0] == 'call' and pathtail(str(t[1])) == 'saturating_add' and len(t) >= 4 and e.isc(t[-1]) == 1 and e.tab[t[-2]][0] == 'fld':
                    f = [r for r in e.fields if e.norm(x, e.f0(r)) == t[-2]]
                if f: pfields.add(f[0])
                out.append(('completor', None if f else 'the number of presses given to the completor (%s) is not one more than that of the presses before' % e.pps(a[4])[:80]))
        ends.append((x, {f: e.final(x, f) for f in e.fields}))
    # fields that count presses: this key's effect on each integer field that some key passes to a completor
    counts = {}
    for f in e.fields:
        vals = set()
        for x, fin in ends:
            v, v0 = fin[f], e.norm(x, e.f0(f))
            t = e.tab[v]
            vals.add('same' if v == v0 else e.isc(v) if e.isc(v) is not None else 'next' if t[0] == 'call' and pathtail(str(t[1])) == 'saturating_add' and t[-2] == v0 and e.isc(t[-1]) == 1 else '?')
        counts[f] = vals
    starts = {f: set(e.isc(v) for s, v in e.start_values(f)) for f in pfields}
    return name, kw, act, out, n, sent, done, pfields, counts, starts, e.steps, len(e.visited_fns)


def check(ctx):
    total = 0
    for feat in ('default', 'all', 'none', 'noglobal') if ctx.tier == 'thorough' else ('default', 'none'):
        d = ctx.dump(feat)
        e0 = Sess(d)
        comp, hist = 'SetCompletor' in e0.variants, e0.has('history')
        ts = [t for t in edit_tasks(d) if t[1] is EditKey]
        if feat == 'none' and ctx.tier == 'quick': pass
        res = par(job, len(ts), (d, ts, comp, hist))
        acts, senders, pf = {}, {}, set()
        for name, kw, act, out, n, sent, done, pfields, counts, starts, steps, fns in res: pf |= pfields
        for name, kw, act, out, n, sent, done, pfields, counts, starts, steps, fns in res:
            a = ctx.analysed.setdefault(feat, dict(blocks_interpreted=0, keys=0, paths=0, functions=0))
            a['blocks_interpreted'] += steps; a['keys'] += 1; a['paths'] += n; a['functions'] = max(a['functions'], fns)
            total += n
            ctx.ob(n > 0, '%s:handled:%s' % (feat, name), 'some path handles it', 'no path handles %s to its end' % name)
            for rule, w in sorted(set(out), key=str):
                if w: ctx.bad('%s:%s:%s:%s' % (feat, rule, name, re.sub(r'\d+', '#', w)[:140]), '%s (%s): %s' % (name, act, w))
            for rule, w in out:
                if not w: ctx.ok('%s:%s' % (feat, rule), '%s: %s' % (name, act))
            acts.setdefault(act, set()).add(name)
            if act != 'free':
                for s in sent: senders.setdefault(s[0], set()).add(keycode(kw))
            want = {'enter': 'Input', 'discard': 'Discarded', 'finish': 'Finish', 'unknown': 'Unknown', **RESPONSE}.get(act)
            if want: ctx.ob(want in [s[0] for s in sent], '%s:sends:%s' % (feat, name), '%s sends %s on some path' % (name, want), '%s never sends %s' % (name, want))
            if act == 'complete':
                ctx.ob(done == {'insert', 'replace'}, '%s:completes:%s' % (feat, name), 'completions are inserted or replace the line', '%s: a completion is never %s' % (name, ' or '.join(sorted({'insert', 'replace'} - done))))
                for f in starts: ctx.ob(starts[f] == {0}, '%s:presses:start' % feat, 'no presses at the start', 'the count of completion presses does not start at zero')
            if act != 'free':
                for f in pf:
                    w = {'next'} if act == 'complete' else {0}
                    ctx.ob(counts[f] == w, '%s:presses:%s' % (feat, name), 'consecutive completion presses are %s' % ('counted' if act == 'complete' else 'forgotten'),
                           '%s: the count of consecutive completion presses ends as %s instead of %s' % (name, sorted(map(str, counts[f])), sorted(map(str, w))))
        if comp: ctx.floor(feat + '.press counters', len(pf), 1)
        ctx.floor(feat + '.actions', len(acts), 20)
        codes(ctx, feat, d, senders)
    ctx.floor('paths', total, 300)


def keycode(kw):
    """the control code of a key, if it has one"""
    if kw.get('raw'): return kw['keyval']
    name, ch = kw['code']
    if name == 'Char' and kw.get('ctrl'): return ord(chr(ch).upper()) & 31
    return {'Enter': 13, 'Tab': 9, 'Esc': 27, 'Backspace': 8}.get(name)


def codes(ctx, feat, d, senders):
    fs = find_fn(d, '::Response::as_unknown')
    if not fs: return ctx.bad('anchor:%s:as_unknown' % feat, 'Response::as_unknown is missing')
    rt = None
    for tid, t in enumerate(d.types):
        if t and t["k"] == "adt" and t.get('v') and any(v['name'].split('::')[-1] == 'Discarded' for v in t['v']): rt = tid
    for i, v in enumerate(d.types[rt]['v']):
        n = v['name'].split('::')[-1]
        if n not in senders: continue
        e = PureCall(d, fs[0]['id'])
        val = e.agg(rt, i, tuple(e.sym('P%d' % k) for k in range(len(v['f']))))
        rs, other = e.run_on(lambda e: [e.mk(('kref', val))])
        got = set(e.isc(r) if e.isc(r) is not None else 'own' if r == e.sym('P0') else '?' for _, r in rs)
        if n == 'Unknown': ok, want = got == {'own'}, 'its own code'
        else: ok, want = len(got) == 1 and not other and got <= {c for c in senders[n] if c is not None}, 'the code of a key that sends it (%s)' % sorted(c for c in senders[n] if c is not None)
        ctx.ob(ok, '%s:code:%s' % (feat, n), '%s reports %s' % (n, want), 'the code reported for %s is %s instead of %s' % (n, sorted(map(str, got)), want))
    ctx.floor(feat + '.responses with a code', len([n for n in senders if n]), 8)
