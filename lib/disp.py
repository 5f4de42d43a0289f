"""The display automaton: what is on the screen, how it was erased, whether it is up to date and flushed,
whether the terminal is released, and what is held while program code runs."""
import os
from scen import *

GETTERS = {'get_width', 'cur_style', 'cur_fg', 'cur_bg', 'get_size', 'get_height'}
SHOWN = ('status', 'prompt', 'notice', 'input', 'input_cursor', 'input_allowed')


class Disp(Effects):
    """one request, ending when the thread next asks for a request (to_block: next waits for one)"""
    budget = 16
    entry_budget = 40
    to_block = False
    via_try = False

    def on_start(self, s):
        super().on_start(s)
        m = s.mon
        m['scr'] = 'init'
        m['rem'] = self.norm(s, self.f0('remembered_output'))
        m['er'] = ()
        m['up'] = None
        m['ln'] = 'start'
        m['at'] = 'plain'
        m['susp'] = 0
        m['dirty'] = 0
        m['cur'] = '?'
        m['bad'] = ()
        m['drawn'] = None
        m['stopped'] = 0
        m['ord'] = ()
        m['late'] = 0

    def on_recv(self, s, kind, g, dest, target, line):
        if 'scr' not in s.mon and self.via_try and not s.mon.get('pre'):
            # first a request that changes nothing, so that the next one is taken by a later receive
            s.mon = dict(s.mon)
            s.mon['pre'] = 1
            if self.find_state(s) is None: return None
            return [(s, self.agg(self.cur_dest_ty, 0, (self.agg(self.req_ty, self.variants['Bell'], ()),)))]
        if 'scr' in s.mon and self.to_block and kind == 'try_recv':
            if s.mon.get('tries', 0) >= 2:
                self.finish(s, 'spin', (kind, line)); return []
            s.mon = dict(s.mon)
            s.mon['tries'] = s.mon.get('tries', 0) + 1
            et = self.ty(self.cur_dest_ty)['v'][1]['f'][0][1]
            vi = [i for i, v in enumerate(self.ty(et)['v']) if v['name'].endswith('Empty')]
            return [(s, self.agg(self.cur_dest_ty, 1, (self.agg(et, vi[0], ()),)))]
        return super().on_recv(s, kind, g, dest, target, line)

    def flag(self, s, what):
        s.mon = dict(s.mon)
        if what not in s.mon['bad'] and len(s.mon['bad']) < 4: s.mon['bad'] += (what,)

    def set(self, s, **kw):
        s.mon = dict(s.mon)
        s.mon.update(kw)

    # ---- what is on the screen
    def known_none(self, s, v):
        return self.isc(self.discr(s, self.norm(s, v))) == 0

    def onscreen(self, s):
        m = s.mon
        if m['scr'] in ('off', 'gone'): return False
        return not self.known_none(s, m['rem'])

    def rem_fields(self, s):
        """(value, known zero) of the remembered cursor row and column"""
        rem = s.mon['rem']
        ft = self.ftypes[self.fi_idx('remembered_output')]
        inner = self.ty(ft)['v'][1]['f'][0][1]
        p = self.proj(s, rem, (1, 0))
        out = {}
        for i, (n, t) in enumerate(self.ty(inner)['v'][0]['f']):
            if self.ty(t)['k'] == 'int': out[i] = (n, self.norm(s, self.proj(s, p, (None, i))))
        return out

    def top_index(self, fs):
        for i, (n, v) in fs.items():
            if re.search('top|row|break', n): return i
        return None

    def erased(self, s):
        m = s.mon
        fs = self.rem_fields(s)
        ti = self.top_index(fs)
        zero = {i for i, (n, v) in fs.items() if self.isc(v) == 0}
        if ti is None: ti = m['up'] if m['up'] is not None else None
        up_ok = (m['up'] is not None and (ti is None or m['up'] == ti)) or (ti in zero if ti is not None else bool(zero))
        left = [i for i in fs if i != ti]
        cr_ok = 'cr' in m['er'] or any(i in zero for i in left)
        return up_ok and cr_ok and '?' not in m['er']

    def on_term(self, s, m, g, args, line):
        if 'scr' not in s.mon: return super().on_term(s, m, g, args, line)
        super().on_term(s, m, g, args, line)
        mon = s.mon
        if m not in GETTERS and m != 'flush': self.set(s, dirty=1)
        if s.mon['susp'] and m not in GETTERS and m not in ('unsuspend', 'suspend', 'flush', 'cleanup'):
            self.flag(s, 'the terminal is used (%s) while it is released' % m)
        if m == 'flush': self.set(s, dirty=0)
        elif m in ('hide_cursor', 'show_cursor'): self.set(s, cur='hidden' if m[0] == 'h' else 'shown')
        elif m == 'carriage_return': self.set(s, er=tuple(sorted(set(s.mon['er']) | {'cr'})))
        elif m == 'move_cursor_up':
            n = self.norm(s, args[1])
            idx = None
            if self.onscreen(s):
                for i, (nm, v) in self.rem_fields(s).items():
                    if v == n: idx = i
            if idx is not None and s.mon['up'] is None: self.set(s, up=idx)
            else: self.set(s, er=tuple(sorted(set(s.mon['er']) | {'?'})))
        elif m in ('move_cursor_down', 'move_cursor_left', 'move_cursor_right'):
            self.set(s, er=tuple(sorted(set(s.mon['er']) | {'?'})))
        elif m == 'clear_forward_and_reset':
            if self.onscreen(s):
                if self.erased(s): self.set(s, scr='off')
                else: self.flag(s, 'the prompt area is cleared without first moving to its start')
            self.set(s, er=(), up=None, at='plain', ln='start' if not self.onscreen(s) else s.mon['ln'])
        elif m == 'clear_all_and_reset':
            self.set(s, scr='off', er=(), up=None, at='plain', ln='start')
        elif m in ('print', 'print_char', 'print_spaces'):
            if self.onscreen(s): self.flag(s, 'text is written while the prompt area is on the screen')
            self.set(s, ln='dirty')
        elif m == 'newline': self.set(s, ln='start')
        elif m == 'reset_attrs': self.set(s, at='plain')
        elif m == 'set_attrs':
            self.set(s, at='plain' if self.plain(s, args) else 'styled')
        elif m == 'suspend':
            if s.mon['susp']: self.flag(s, 'the terminal is released twice')
            self.ordev(s, 'suspend')
            self.set(s, susp=1, late=1 if self.onscreen(s) else 0)
        elif m == 'unsuspend':
            if not s.mon['susp']: self.flag(s, 'the terminal is taken back without having been released')
            self.ordev(s, 'unsuspend')
            self.set(s, susp=0)
            if self.onscreen(s): self.set(s, scr='gone')
        self.check_loans(s, None, line)

    def plain(self, s, args):
        st = self.norm(s, args[1])
        t = self.tab[st]
        while t[0] == 'agg' and len(t[3]) == 1: st = self.norm(s, t[3][0]); t = self.tab[st]
        z = self.isc(st) == 0 or (t[0] == 'call' and str(t[1]).endswith('::empty'))
        return z and self.known_none(s, args[2]) and self.known_none(s, args[3])

    def ordev(self, s, x):
        self.set(s, ord=lim(s.mon['ord'], x, 6))

    def on_draw(self, s, g, args, line):
        if 'scr' not in s.mon: return
        if s.mon['susp']: self.flag(s, 'something is drawn while the terminal is released')
        if not self.remembers(g):
            if self.onscreen(s): self.flag(s, 'a line is printed while the prompt area is on the screen')
            if s.mon['ln'] != 'start': self.flag(s, 'a line is printed without starting at the left margin')
            if s.mon['at'] != 'plain': self.flag(s, 'a line starts with attributes left over')
        self.set(s, dirty=1)
        super().on_draw(s, g, args, line)

    def drawn_field(self, s, g, args, i):
        if self.fields[i] == self.roles.get('remembered_output'):
            v = self.agg(self.ftypes[i], 1, (self.fresh(s, 'drawn'),))
            self.set(s, scr='drawn', rem=v, er=(), up=None, ln='prompt')
            return v
        return super().drawn_field(s, g, args, i)

    def on_display(self, s, g, args, line):
        # what the thread believes is on the screen must be what is
        f = self.final(s, 'remembered_output')
        if s.mon['scr'] in ('off', 'gone'):
            if not self.known_none(s, f): self.flag(s, 'the prompt area is redrawn as if it had not been erased')
        elif f != self.norm(s, s.mon['rem']) and not (self.known_none(s, f) and self.known_none(s, s.mon['rem'])):
            self.flag(s, 'the prompt area is redrawn as if it had been erased')
        i = self.line_arg(g, args)
        content = self.snap(s, args[i], g['locals'][i + 1])
        cpos = None
        for j in range(g['argc']):
            t = self.d.tyname(g['locals'][j + 1])
            if j != i and t.startswith('std::option::Option<usize'): cpos = self.norm(s, args[j])
        r = self.content_ok(s, content, cpos)
        if r: self.flag(s, r)
        self.set(s, drawn=tuple(self.final(s, x) for x in SHOWN))

    def content_ok(self, s, c, cpos):
        sub = self.subs(c)

        def shows(role, payload):
            """(is Some?, is its text included?)"""
            v = self.final(s, role)
            d = self.isc(self.discr(s, v))
            p = self.norm(s, self.proj(s, v, (1, 0)))
            if payload is not None: p = self.norm(s, self.proj(s, p, payload))
            return d, p in sub or v in sub
        d, inc = shows('status', None)
        if d == 1 and not inc: return 'the status is not drawn'
        if d is None and not inc: return 'it is not established that the status is drawn'
        d, inc = shows('notice', (None, 0))
        inp = self.final(s, 'input')
        if d == 1:
            if not inc: return 'the notice is not drawn'
            if inp in sub and self.isc(self.lenv(s, inp)) != 0: return 'the input is drawn although a notice is shown'
            return None
        if d is None: return 'it is not established whether a notice is to be drawn'
        d, inc = shows('prompt', None)
        if d == 1 and not inc: return 'the prompt is not drawn'
        if d is None and not inc: return 'it is not established that the prompt is drawn'
        if inp not in sub and self.isc(self.lenv(s, inp)) != 0: return 'the input is not drawn'
        cur = self.final(s, 'input_cursor')
        if cpos is not None:
            if not (self.isc(self.discr(s, cpos)) == 1): return 'the cursor is not placed'
            if cur not in self.subs(cpos) and self.isc(cur) != 0: return 'the cursor is not placed at the input cursor'
        return None

    # ---- program code and waiting
    def check_loans(self, s, what, line):
        pass

    def acquire(self, s, key, kind, conflict, line, g):
        if conflict and 'scr' in s.mon:
            self.flag(s, 'deadlock or double borrow: %s of something already held' % pathtail(g['path']))

    def on_callback(self, s, fv, args, g, line):
        super().on_callback(s, fv, args, g, line)
        if 'scr' not in s.mon: return
        v = self.content(s, fv) if self.tab[fv][0] in ('ref', 'kref') else fv
        if self.tab[v][0] == 'deref': v = self.tab[v][1]
        susp = v in self.request_parts()
        if not susp and 'Completor' not in g['path']: return
        self.ordev(s, 'callback')
        if s.loans: self.flag(s, 'program code is called (%s) while a lock or borrow is held' % pathtail(g['path']))
        if susp:
            if not s.mon['susp'] and self.tty: self.flag(s, 'the callback runs while the terminal is not released')
            if self.onscreen(s) and self.tty: self.flag(s, 'the callback runs while the prompt area is on the screen')

    def request_parts(self):
        return self.payload

    WAITS = re.compile(r'JoinHandle.*::join|Receiver.*::(recv|recv_timeout|recv_deadline|blocking_recv)$|SyncSender.*::send$|Condvar.*::wait|std::thread::(sleep|park)')

    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if 'scr' not in s.mon: return
        p = g['path']
        if self.WAITS.search(p) and any(self.is_history(x) for x in s.loans): self.flag(s, 'waits (%s) while the history is locked' % pathtail(p))
        if re.search(r'signal::(kill|raise|killpg)$|libc::.*(kill|raise)$', p):
            self.ordev(s, 'stop')
            self.set(s, stopped=1)
            if not s.mon['susp']: self.flag(s, 'the process is stopped while the terminal is not released')

    def is_history(self, loan):
        return True

    # ---- at the end
    def at_end(self, s):
        """reasons why this end state is wrong for the screen bookkeeping"""
        r = list(s.mon['bad'])
        f = self.final(s, 'remembered_output')
        if s.mon['scr'] in ('off', 'gone'):
            if not self.known_none(s, f): r.append('the prompt area was erased but is remembered as drawn')
        elif f != self.norm(s, s.mon['rem']) and not (self.known_none(s, f) and self.known_none(s, s.mon['rem'])):
            r.append('the prompt area is on the screen but forgotten')
        if s.mon['susp']: r.append('the terminal is left released')
        return r

    def stale(self, s):
        """reasons why the display is not up to date when the thread waits"""
        r = []
        fin = tuple(self.final(s, x) for x in SHOWN)
        if s.mon['drawn'] is not None:
            for n, a, b in zip(SHOWN, s.mon['drawn'], fin):
                if self.norm(s, a) != self.norm(s, b): r.append('%s changed after the display was drawn' % n)
            if s.mon['scr'] != 'drawn': r.append('the display was erased after it was drawn')
            notice = self.isc(self.discr(s, self.final(s, 'notice')))
            allowed = self.isc(self.final(s, 'input_allowed'))
            if notice == 0 and allowed == 1 and s.mon['cur'] != 'shown': r.append('the cursor is not shown although input is allowed')
            if (notice == 1 or allowed == 0) and s.mon['cur'] == 'shown': r.append('the cursor is shown although no input is possible')
        else:
            for n, b in zip(SHOWN, fin):
                a = self.norm(s, self.f0(n))
                if a != b and self.isc(self.eqv(s, a, b)) != 1: r.append('%s changed but was not drawn' % n)
            if s.mon['scr'] in ('off', 'gone') and not self.known_none(s, self.f0('remembered_output')): r.append('the display was erased but not drawn again')
            if self.isc(self.norm(s, self.f0('rollout_needed'))) != 0: r.append('a redraw that was already due was not done')
        if s.mon['dirty']: r.append('output has not been flushed')
        return r


class DispKey(OneKey, Disp):
    budget = 120
    max_steps = 1500000


def all_requests(e):
    return [v for v in e.variants if v not in ('RawInput', 'CrosstermEvent', 'Die')]


def runs(d, to_block, via_try=False, keys=True):
    """every request in turn: (label, engine)"""
    e0 = Sess(d)
    for v in all_requests(e0):
        e = Disp(d, v)
        e.to_block = to_block
        e.via_try = via_try
        e.go()
        yield v, e
    for name, kw in (all_keys() if keys else ()):
        e = DispKey(d, **kw)
        e.to_block = to_block
        e.go()
        yield name, e
    if 'CrosstermEvent' in e0.variants:
        e = Disp(d, 'CrosstermEvent', payload=other_event)
        e.to_block = to_block
        e.go()
        yield 'resize event', e


def other_event(e, s, fs, vals):
    """Event::Resize"""
    et = fs[0][1]
    vi = [i for i, v in enumerate(e.ty(et)['v']) if v['name'].endswith('Resize')][0]
    return [e.agg(et, vi, [e.sym('w'), e.sym('h')])]


def all_keys():
    """every control character, special key and a sample of each class of printable one, on both input paths"""
    out = []
    for k in list(range(0x20)) + [0x7F, 0x61, 0x20, 0x7E, 0x85, 0xE9, 0x301, 0x2028, 0x1F600]:
        out.append(('raw U+%04X' % k, dict(raw=True, keyval=k)))
    for ch in 'abcdefghijklmnopqrstuvwxyz\\@[]^_1A':
        out.append(('event Ctrl-%s' % ch, dict(raw=False, code=('Char', ord(ch)), ctrl=True)))
    for k in (0x61, 0x20, 0x85, 0xE9, 0x301, 0x7F, 3, 0x2028):
        out.append(('event U+%04X' % k, dict(raw=False, code=('Char', k))))
    for n in ('Tab', 'Esc', 'Enter', 'Backspace', 'Delete', 'Up', 'Down', 'Left', 'Right', 'Home', 'End', 'Insert', 'PageUp', 'BackTab'):
        out.append(('event ' + n, dict(raw=False, code=(n, 0))))
    out.append(('event F1', dict(raw=False, code=('F', 1))))
    out.append(('event Ctrl-Left', dict(raw=False, code=('Left', 0), ctrl=True)))
    return out


# ---------------------------------------------------------------- running it, and who cares about which complaint
BELONGS = (
    ('C19', r'deadlock|double borrow|while a lock|waits \('),
    ('C22', r'released|stopped while|callback runs|taken back'),
    ('C04', r'prompt area|a line (is|starts)|text is written|left margin|attributes left'),
    ('C05', r''),
)


def owner(reason):
    for p, rx in BELONGS:
        if re.search(rx, reason): return p


def tasks(d, keys=True):
    e0 = Sess(d)
    out = [(v, Disp, dict(variant=v)) for v in all_requests(e0)]
    out += [(n, DispKey, kw) for n, kw in (all_keys() if keys else ())
            if ('CrosstermEvent' in e0.variants or kw.get('raw'))]
    if 'CrosstermEvent' in e0.variants: out.append(('resize event', Disp, dict(variant='CrosstermEvent', payload=other_event)))
    return out


_job = None


def _one(i):
    d, ts, opts = _job
    name, cls, kw = ts[i]
    e = cls(d, **kw)
    for k, v in opts.items(): setattr(e, k, v)
    e.go()
    ends, why = {}, {}
    for x in e.exits:
        if 'scr' not in x.mon: continue
        k = x.exit[0]
        ends[k] = ends.get(k, 0) + 1
        rs = []
        if k == 'idle':
            rs = e.at_end(x)
            if opts.get('to_block'): rs += e.stale(x)
        else: rs = list(x.mon['bad'])
        for r in rs: why.setdefault(r, []).append((k, x.mon['ord'], len(x.mon['cb']), len(x.mon['bell'])))
    facts = []
    for x in e.exits:
        if 'scr' in x.mon: facts.append((x.exit[0], x.mon['ord'], len(x.mon['cb']), x.mon['scr'], x.mon['susp'], x.mon['stopped'], str(x.exit[1:])[:200]))
    return name, ends, {k: len(v) for k, v in why.items()}, sorted(set(facts), key=str), e.steps, len(e.visited_fns)


def par(fn, n, job):
    """fn(i) for i in range(n) in forked workers (the dump is shared copy-on-write)"""
    global _job
    import multiprocessing as mp
    _job = job
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(fn, range(n), chunksize=1)


def survey(d, to_block, keys=True, **opts):
    ts = tasks(d, keys)
    return par(_one, len(ts), (d, ts, dict(opts, to_block=to_block)))


def judge(ctx, pid, feat, tag, res, need_idle=True):
    """obligations of property pid over a survey"""
    n = 0
    for name, ends, why, facts, steps, fns in res:
        n += sum(ends.values())
        a = ctx.analysed.setdefault('%s %s' % (feat, tag), dict(blocks_interpreted=0, scenarios=0, end_states=0, functions=0))
        a['blocks_interpreted'] += steps; a['scenarios'] += 1; a['end_states'] += sum(ends.values()); a['functions'] = max(a['functions'], fns)
        ctx.ob(ends.get('idle', 0) + ends.get('return', 0) > 0, '%s:%s:handled:%s' % (feat, tag, name), 'some path handles %s to its end' % name, 'no path handles %s to its end: %s' % (name, ends))
        for k in ends:
            if k not in ('idle', 'return', 'panic', 'spin', 'diverge'): ctx.bad('%s:%s:cut:%s' % (feat, tag, name), 'analysis of %s cut short (%s)' % (name, k))
        mine = [r for r in why if owner(r) == pid]
        for r in mine: ctx.bad('%s:%s:%s:%s' % (feat, tag, name, r), 'handling %s: %s (on %d of %d end states)' % (name, r, why[r], sum(ends.values())))
        if not mine: ctx.ok('%s:%s' % (feat, tag), name)
    ctx.counts['%s.%s.end_states' % (feat, tag)] = n
    return n
