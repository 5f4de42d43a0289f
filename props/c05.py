"""Typestate analysis (ESP-style property simulation over MIR): every request, every key of both input paths and a
resize event is handled by the interpreted body of the I/O thread from an arbitrary session state, on to the point
where the thread blocks waiting for the next request. There, on every path, the drawn contents (as terms over the
session state: status, prompt, notice, input, cursor, input permission) must be the current ones, the cursor
visible exactly if input is possible, a redraw already due done, and nothing written after the last flush. A second
pass takes the request in a later receive of the same burst."""
from disp import *


class DrawDisplay(Sess):
    """the function that redraws the prompt area, on its own: what it remembers must be what it was given"""
    ok_io = True
    budget = 6
    entry_budget = 3

    def __init__(self, d, fid):
        super().__init__(d)
        self.fid = fid
        self.A = [self.sym('arg%d' % i) for i in range(d.fns[fid]['argc'])]
        self.watch_write = self.wrote

    def should_inline(self, s, g):
        return not (g['local'] and '{closure' not in g['path']) and super().should_inline(s, g)

    def generic_local(self, s, g, args, argtys):
        if self.term_ops(g['id']): self.io(s)
        v = super().generic_local(s, g, args, argtys)
        t = self.ty(self.cur_dest_ty)
        return self.ok_value(s, pathtail(g['path'])) if t.get('k') == 'adt' and t['def'] == 'std::result::Result' else v

    def io(self, s):
        s.mon = dict(s.mon)
        s.mon['io'] = 1

    def on_term(self, s, m, g, args, line):
        if m not in GETTERS: self.io(s)

    def wrote(self, s, loc, val):
        k = self.fi_idx('remembered_output')
        if loc[0] == ('*', self.A[0]) and loc[1][:1] == ((None, k),):
            s.mon = dict(s.mon)
            if loc[1] != ((None, k),): s.mon['rem'] = 'piecewise'; return
            line, pos = None, None
            for i in range(len(self.A)):
                t = self.d.tyname(self.d.fns[self.fid]['locals'][i + 1])
                if re.match(r'&(mut )?(liso::)?line::Line$', t): line = self.content(s, self.A[i])
                if t.startswith('std::option::Option<usize'): pos = self.A[i]
            t = self.tab[val]
            sub = set(self.tab[t[3][0]][3]) if t[0] == 'agg' and t[2] == 1 and self.tab[t[3][0]][0] == 'agg' else set()
            s.mon['rem'] = 'ok' if self.has_line(sub, line) and (pos is None or pos in sub) else 'other'

    def has_line(self, sub, line):
        return any(x == line or self.tab[x][:1] == ('call',) and 'clone' in str(self.tab[x][1]).lower() and self.tab[x][2] == line for x in sub)

    def go(self):
        s = mkstate()
        s.mon = dict(io=0, rem='kept')
        self.start(s, self.fid, self.A)
        return self.explore([s])


def display_drawers(ctx, feat, d):
    e = Sess(d)
    n = 0
    for fid in sorted(e.drawers):
        if e.fi_idx('remembered_output') not in e.modified_fields(fid): continue
        f = d.fns[fid]
        n += 1
        a = DrawDisplay(d, fid)
        a.go()
        ctx.engine_stats('%s %s' % (feat, pathtail(f['path'])), a)
        rem = a.proj(None, a.obj_default(('*', a.A[0])), (None, a.fi_idx('remembered_output')))
        for x in a.exits:
            if x.exit[0] != 'return': continue
            if x.mon['rem'] == 'kept':
                same = [k for k, v in x.eq.items() if v == 1 and rem in a.subs(k)]
                ctx.ob(not x.mon['io'] and len(same) >= 2, '%s:redraw-skipped:%s' % (feat, f['path']), 'a redraw is skipped only if line and cursor are those already shown',
                       '%s can return without drawing although what is to be shown may differ, or without remembering what it drew' % f['path'])
            else:
                ctx.ob(x.mon['rem'] == 'ok', '%s:redraw-remembered:%s' % (feat, f['path']), 'what was drawn is what is remembered',
                       '%s does not remember the line and cursor it was given' % f['path'])
    ctx.floor(feat + '.display drawers', n, 1)


def check(ctx):
    for feat in ('default', 'all', 'none'):
        d = ctx.dump(feat)
        n = judge(ctx, 'C05', feat, 'to-wait', survey(d, True))
        ctx.floor(feat + '.end states', n, 300)
        display_drawers(ctx, feat, d)
    d = ctx.dump('default')
    judge(ctx, 'C05', 'default', 'burst', survey(d, True, keys=False, via_try=True))
