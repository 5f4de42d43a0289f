"""Typestate analysis (ESP-style property simulation over MIR): an automaton tracks what is on the screen (prompt
area drawn / how far it has been erased / gone), the margin, the attributes and whether the terminal is released.
Every request and every key of both input paths is handled by the interpreted body of the I/O thread from an
arbitrary session state, and no path may print a line or text while the prompt area is on the screen, away from the
left margin or with left-over attributes, nor leave the bookkeeping out of step with the screen. The functions that
put a line on the terminal are interpreted on their own: they end with default attributes and a line break on every
path. A call-graph effect analysis shows that terminal operations and writes to standard output are reachable from
the I/O thread's body only: from no public function and no other spawned thread."""
from disp import *

FORBIDDEN = re.compile(r'^(<std::io::Stdout(Lock)? as std::io::Write>::|std::io::(stdio::)?_print$|std::io::Stdout::lock|crossterm::(\w+::)*(execute|queue))')


class DrawLine(Sess):
    """a function that puts a line on the terminal, on its own, with unknown arguments"""
    ok_io = True
    budget = 30

    def __init__(self, d, fid):
        super().__init__(d)
        self.fid = fid

    def on_term(self, s, m, g, args, line):
        s.mon = dict(s.mon)
        mon = s.mon
        if m in ('print', 'print_char', 'print_spaces'): mon['ln'] = 'dirty'
        elif m == 'newline':
            mon['ln'] = 'start'
            if mon['at'] == 'plain': mon['closed'] = 1
        elif m == 'reset_attrs': mon['at'] = 'plain'
        elif m == 'set_attrs': mon['at'] = 'plain' if Disp.plain(self, s, args) else 'styled'
        elif m in ('clear_forward_and_reset', 'clear_all_and_reset', 'move_cursor_up', 'move_cursor_down', 'move_cursor_left', 'move_cursor_right', 'carriage_return'):
            mon['moved'] = m
        if m in ('print', 'print_char', 'print_spaces', 'set_attrs'): mon['closed'] = 0

    known_none = Disp.known_none

    def go(self):
        s = mkstate()
        s.mon = dict(ln='nothing', at='plain', moved='', closed=0)
        f = self.d.fns[self.fid]
        self.start(s, self.fid, [self.sym('arg%d' % i) for i in range(f['argc'])])
        return self.explore([s])


def single_thread(ctx, feat, d):
    e = Sess(d)
    if e.root is None:
        ctx.bad('anchor:%s:root' % feat, 'the I/O thread body was not found'); return
    cg = e.cg
    target = lambda f: (f['kind'] == 'virtual' and 'Term::' in f['path']) or FORBIDDEN.search(f['path']) or f['id'] in e.term_makers
    ctx.floor(feat + '.terminal operations', len([f for f in d.fns.values() if f['id'] < 1000000 and target(f)]), 20)
    cg.succ = {a: b - {e.root} for a, b in cg.succ.items()}
    inroot = cg.reach(e.root)
    back_ends = {d.types[im['self']].get('def') for im in d.impls if im['trait'].endswith('term::Term')}
    back_ends |= {'liso::' + x for x in back_ends if x and not x.startswith('liso::')}
    impls = {p for im in d.impls if im['trait'].endswith('term::Term') for _, p in im['methods']}
    starts = []
    for f in d.fns.values():
        if not f['local'] or 'blocks' not in f or f['kind'] not in ('item', 'fn', 'closure', 'coroutine') or f['path'] in impls: continue
        own = re.match(r'(.*)::\w+$', f['path'])
        if own and own.group(1) in back_ends: continue
        if (f['id'] not in inroot and '{' not in f['path']) or re.match(r'liso::(Output|OutputOnly|InputOutput)::\w+$', f['path']): starts.append((f, 'not part of the I/O thread'))
    sp = spawned(d)
    for f, by in sp:
        if f['id'] != e.root: starts.append((f, 'thread started in ' + by['path']))
    ctx.floor(feat + '.thread bodies', len(sp), 2)
    for f, why in starts:
        hit = [d.fns[x]['path'] for x in cg.reach(f['id']) if target(d.fns[x])]
        ctx.ob(not hit, '%s:other-thread:%s' % (feat, f['path']), '%s (%s) cannot reach the terminal' % (f['path'], why),
               '%s (%s) reaches %s outside the I/O thread' % (f['path'], why, ', '.join(sorted(set(hit))[:4])))
    ctx.counts[feat + '.entry points'] = len(starts)


def drawers(ctx, feat, d):
    e = Sess(d)
    n = 0
    for fid in sorted(e.drawers):
        f = d.fns[fid]
        keeps = e.modified_fields(fid)
        if keeps: continue
        n += 1
        a = DrawLine(d, fid)
        a.go()
        ctx.engine_stats('%s %s' % (feat, pathtail(f['path'])), a)
        for x in a.exits:
            if x.exit[0] == 'return':
                ctx.ob(x.mon['ln'] == 'start' and x.mon['closed'], '%s:line-end:%s' % (feat, f['path']), 'a line put out by %s ends with default attributes and a line break' % f['path'],
                       '%s can return with the line not ended by default attributes followed by a line break' % f['path'])
                ctx.ob(x.mon['at'] == 'plain', '%s:attrs:%s' % (feat, f['path']), 'attributes are default after a line', '%s can return with attributes still set' % f['path'])
                ctx.ob(not x.mon['moved'], '%s:moves:%s' % (feat, f['path']), 'a line does not move back over the screen', '%s uses %s' % (f['path'], x.mon['moved']))
    ctx.floor(feat + '.line drawers', n, 1)


def check(ctx):
    for feat in ('default', 'all', 'none', 'noglobal'):
        d = ctx.dump(feat)
        n = judge(ctx, 'C04', feat, 'sessions', survey(d, False))
        ctx.floor(feat + '.end states', n, 100)
        drawers(ctx, feat, d)
        single_thread(ctx, feat, d)
