"""Inductive invariant over MIR terms: assuming the cursor lies in the text on a character boundary, every key (on
both input paths) and every request is interpreted through the body of the I/O thread in an otherwise unknown
session state. At the end of every path the cursor must be provably inside the new text and on a boundary (rules for
insert/replace/truncate/slices, linear facts on positions, coinduction over what loops carry), every string operation
on the way must be given positions in range, no index or arithmetic panic may remain, and the text, cursor and cut
text must be, as terms over the old ones, what the key is documented to make of them. The base case is the state
built before the first request."""
from keys import *
from common import *


def job(i):
    d, ts, comp, hist = disp._job
    name, cls, kw = ts[i]
    e = cls(d, **kw)
    e.go()
    out, n = [], dict(paths=0, ops=0, infeasible=0, panics=0)
    inf = {}

    def contra(x):
        k = id(x)
        if k not in inf: inf[k] = e.contradiction(x)
        if inf[k]: n['infeasible'] += 1
        return inf[k]

    def say(kind, rule, msg): out.append((kind, rule, msg))
    act = action(kw, comp, hist) if cls is EditKey else None
    for x in e.exits:
        if 'scr' not in x.mon: continue
        kind = x.exit[0]
        if kind in ('idle', 'return'):
            I, C = e.final(x, 'input'), e.final(x, 'input_cursor')
            if not e.boundary(x, I, C):
                if contra(x): continue
                say('bad', 'boundary', 'the cursor (%s) is not known to be on a character boundary inside the text (%s)' % (e.pps(C)[:120], e.pps(I)[:120]))
            else: say('ok', 'boundary', name)
            if kind == 'return': continue
            n['paths'] += 1
            allowed = e.isc(e.norm(x, e.f0('input_allowed')))
            J = Judge(e, x)
            if act and allowed != 0: w = J.why(*act)
            elif act: w = None if J.kept() and J.clipkept() and J.eq(J.C, J.C0) else 'the text changed although no input is allowed'
            elif name == 'Prompt': w = None if J.clipkept() and (J.kept() and J.eq(J.C, J.C0) or J.textis([]) and J.eq(J.C, e.c(0))) else 'the text is neither kept nor cleared'
            else: w = None if J.kept() and J.clipkept() and J.eq(J.C, J.C0) else 'the text being edited changed'
            if w:
                if contra(x): continue
                say('bad', 'meaning', '%s: %s (text %s, cursor %s, cut %s)' % (act[0] if act else name, w, e.pps(J.I)[:140], e.pps(J.C)[:80], e.pps(J.K)[:80]))
            else: say('ok', 'meaning', act[0] if act else name)
        elif kind == 'panic':
            n['panics'] += 1
            if contra(x): say('ok', 'no panic', name)
            elif e.about_history(x) or e.completor_bug(x): pass
            else: say('bad', 'panic', 'a panic is not ruled out: %s in %s' % (str(x.exit[1][:3])[:100], e.where(x).split(' > ')[-1]))
        elif kind not in ('spin', 'diverge', 'quiet'):
            say('bad', 'cut', 'analysis cut short: %s' % (kind,))
    for s, fn, op, line, conds in e.obl:
        n['ops'] += 1
        for c in conds:
            if e.hold(s, c): say('ok', 'operand', op); continue
            if contra(s): continue
            if c[0] == 'le' and op in ('replace_range', 'drain') and act and act[0] == 'delete word' and forward_skip(e, c[1], c[2]):
                say('assume', 'operand', op)
                continue
            say('bad', 'operand', '%s in %s may be given a position that is out of range or not on a boundary (%s)' % (op, fn, ' '.join([c[0]] + [e.pps(z)[:70] for z in c[1:]])))
    base = []
    for s, I in e.start_values('input'):
        C = [v for s2, v in e.start_values('input_cursor') if s2 is s]
        base.append(bool(C) and e.isc(C[0]) == 0)
    return name, out, n, base, e.steps, len(e.visited_fns)


def forward_skip(e, pos, end):
    """pos is reached from a position before `end` by stepping over characters that are not a column wide"""
    t = e.tab[pos]
    if t[0] != 'phi' or not e.phis.get(pos): return False
    for ev, sd, st, v in e.phis[pos]:
        l = e.lin(v)
        if list(l[0]) and e.tab[list(l[0])[0]][0] == 'phi' and list(l[0])[0] == pos and l[1] == 1: continue
        if e.le(st, v, end) or e.le(st, e.unlin(e.plus(l, ({}, -1), 1)) or v, end): continue
        return False
    return True


def check(ctx):
    total = 0
    for feat in ('default', 'all', 'none', 'noglobal') if ctx.tier == 'thorough' else ('default', 'none'):
        d = ctx.dump(feat)
        e0 = Sess(d)
        comp, hist = 'SetCompletor' in e0.variants, e0.has('history')
        ts = edit_tasks(d)
        keys = 0
        for name, out, n, base, steps, fns in par(job, len(ts), (d, ts, comp, hist)):
            a = ctx.analysed.setdefault(feat, dict(blocks_interpreted=0, scenarios=0, paths=0, string_operations=0, infeasible_paths=0, panics_examined=0, functions=0))
            a['blocks_interpreted'] += steps; a['scenarios'] += 1; a['paths'] += n['paths']; a['string_operations'] += n['ops']
            a['infeasible_paths'] += n['infeasible']; a['panics_examined'] += n['panics']; a['functions'] = max(a['functions'], fns)
            ctx.ob(n['paths'] > 0, '%s:handled:%s' % (feat, name), 'some path handles it', 'no path handles %s to its end' % name)
            ctx.ob(bool(base) and all(base), '%s:base' % feat, 'a session starts with the cursor at the start', 'a session does not start with the cursor at the start of the text')
            for kind, rule, msg in sorted(set(o for o in out if o[0] != 'ok')):
                if kind == 'bad': ctx.bad('%s:%s:%s:%s' % (feat, rule, name, re.sub(r'\d+', '#', msg)[:160]), 'handling %s: %s' % (name, msg))
            for kind, rule, msg in out:
                if kind == 'ok': ctx.ok('%s:%s' % (feat, rule), msg)
                if kind == 'assume': ctx.counts['assumed'] = ctx.counts.get('assumed', 0) + 1
            total += n['paths']
            keys += n['ops'] > 0
        ctx.floor(feat + '.keys with string operations', keys, 10)
    ctx.floor('paths', total, 300)
    ctx.assumptions.append('assumption: in delete-word, stepping forward over characters that are not a column wide stops at or before the visible character the deletion started from (it was found visible on the way back)')
