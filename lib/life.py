"""The I/O thread's life from start to end: what it has done to the terminal, and what is undone before the owner can
notice that the thread is gone (which is when either channel end is dropped)."""
from owner import *
from disp import Disp


class Life(Sess):
    budget = 8
    split_heads = True
    started = 0

    def __init__(self, d, tty=True):
        super().__init__(d)
        self.tty = tty
        self.die = [i for i, v in enumerate(d.types[self.req_ty]['v']) if v['name'].split('::')[-1] == 'Die'][0]
        self.recvs = self.cg.reaching(lambda f: f['path'].startswith('std::sync::mpsc::Receiver') and 'Request' in f['name'])
        draws = self.cg.reaching(lambda f: f['id'] in self.drawers)
        self.stubs = set()
        for f in d.fns.values():
            if not (f['local'] and 'blocks' in f and f['argc'] and f['id'] < 1000000) or f['id'] in self.recvs: continue
            t = self.ty(f['locals'][1])
            if t['k'] == 'ref' and t['mut'] and t['e'] == self.state_ty and f['id'] in draws | {x for x in draws}: self.stubs.add(f['id'])

    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def flagbad(self, s, what):
        b = s.mon['bad']
        if what not in b: self.put(s, 'bad', lim(b, what, 8))

    # ---- the session state is arbitrary once something was handled
    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.stubs:
            if g['argc'] > 1 and any(g['locals'][i + 1] == self.req_ty for i in range(g['argc'])):
                for i in range(g['argc']):
                    if g['locals'][i + 1] == self.req_ty: self.handled(s, self.norm(s, args[i]))
            l = self.deref(s, args[0])
            mod = self.modified_fields(g['id'])
            for i in sorted(mod):
                v = self.mk(('fresh', 'later', self.fields[i]))     # one name for whatever it is now: forget what was known of it
                s.eq = {t: k for t, k in s.eq.items() if v not in self.leaves(t)}
                s.ne = {t: k for t, k in s.ne.items() if v not in self.leaves(t)}
                self.write(s, (l[0], l[1] + ((None, i),)), v)
            self.put(s, 'up', None)
            self.put(s, 'er', ())
            self.put(s, 'ioerr', False)
            self.put(s, 'scr', 'on')
            if 'remembered_output' in self.roles: self.put(s, 'rem', self.norm(s, self.proj(s, self.read(s, l), (None, self.fi_idx('remembered_output')))))
            self.put(s, 'stubs', lim(s.mon['stubs'], pathtail(g['path']), 1))
            return (self.ret(s, dest, target, self.fresh(s, pathtail(g['path']))),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def handled(self, s, v):
        if s.mon['pending']: self.put(s, 'pending', False)
        else: self.flagbad(s, 'a request is handled twice, or handled without having been received')

    def on_recv(self, s, kind, g, dest, target, line):
        if s.mon['pending'] and self.tty: self.flagbad(s, 'a request is dropped without having been handled')
        if s.mon['died'] and kind in ('recv', 'iter'): self.flagbad(s, 'waits for another request after it was asked to stop')
        t = self.cur_dest_ty
        ty = self.ty(t)
        out = []
        for what in ('die', 'other', 'none', 'gone'):
            a = s.copy()
            if what == 'die':
                v = self.agg(self.req_ty, self.die, ())
                self.put(a, 'died', True)
                self.put(a, 'pending', False)
            elif what == 'other':
                v = self.fresh(a, 'request')
                self.assume_ne(a, self.mk(('discr', v)), self.d.types[self.req_ty]['v'][self.die]['d'])
                self.put(a, 'pending', True)
            else: self.put(a, 'pending', False)
            if ty.get('def') == 'std::result::Result':
                if what in ('die', 'other'): v = self.agg(t, 0, (v,))
                else:
                    et = self.ty(ty['args'][1])
                    if et.get('k') == 'adt' and et['kind'] == 'Enum':
                        vi = [i for i, x in enumerate(et['v']) if (x['name'] == 'Disconnected') == (what == 'gone')]
                        if not vi: continue
                        v = self.agg(t, 1, (self.agg(ty['args'][1], vi[0], ()),))
                    elif what == 'none': continue
                    else: v = self.agg(t, 1, (self.fresh(a, 'gone'),))
            else: return None
            out.append((a, v))
        return out

    # ---- the terminal
    def on_term(self, s, m, g, args, line):
        if m == 'new':
            self.put(s, 'term', True)
            self.put(s, 'cleaned', False)
        elif m == 'cleanup':
            self.put(s, 'cleaned', True)
            loc = self.find_state(s)
            self.put(s, 'term', True)
        elif m == 'carriage_return': self.put(s, 'er', tuple(sorted(set(s.mon['er']) | {'cr'})))
        elif m == 'move_cursor_up':
            idx = None
            if s.mon['rem'] is not None and s.mon['scr'] == 'on':
                n = self.norm(s, args[1])
                for i, (nm, v) in self.rem_fields(s).items():
                    if v == n: idx = i
            if idx is not None and s.mon['up'] is None: self.put(s, 'up', idx)
            else: self.put(s, 'er', tuple(sorted(set(s.mon['er']) | {'?'})))
        elif m in ('move_cursor_down', 'move_cursor_left', 'move_cursor_right'): self.put(s, 'er', tuple(sorted(set(s.mon['er']) | {'?'})))
        elif m == 'clear_forward_and_reset':
            if s.mon['rem'] is not None and s.mon['scr'] == 'on' and self.erased(s): self.put(s, 'scr', 'off')
            self.put(s, 'er', ())
            self.put(s, 'up', None)
        elif m == 'clear_all_and_reset': self.put(s, 'scr', 'off')
        elif m in ('print', 'print_char', 'print_spaces'): self.put(s, 'er', ('?',))

    rem_fields, top_index, erased, known_none = Disp.rem_fields, Disp.top_index, Disp.erased, Disp.known_none

    def term_result(self, s, m, g, args, dest, target, line):
        t = self.cur_dest_ty
        if t is None or self.ty(t).get('def') != 'std::result::Result': return None
        self.on_term(s, m, g, args, line)
        a, b = s.copy(), s.copy()
        self.put(b, 'ioerr', True)
        return [(a, self.ok_value(a, 'term.' + m)), (b, self.agg(t, 1, (self.fresh(b, 'ioerror'),)))]

    def on_enter(self, s, fn, args):
        """the state is consumed by the function that cleans up: was the display erased by then?"""
        f = self.d.fns[fn]
        for i, a in enumerate(args):
            if i + 1 <= f['argc'] and f['locals'][i + 1] == self.state_ty and 'remembered_output' in self.roles:
                self.given_up(s, a)

    def given_up(self, s, v):
        """nothing was drawn since the terminal was opened, or what was drawn has been erased, or erasing it failed"""
        m = s.mon
        r = self.norm(s, self.proj(s, self.norm(s, v), (None, self.fi_idx('remembered_output'))))
        was = m['rem'] if m['scr'] == 'on' else r
        if m['scr'] == 'off' or m['ioerr'] or self.known_none(s, was): self.put(s, 'erased', True)

    def raw_result(self, s, on):
        t = self.cur_dest_ty
        a, b = s.copy(), s.copy()
        self.put(a, 'raw', on)
        if not on: self.put(b, 'raw', False)       # attempted: nothing more can be done
        return [(a, self.agg(t, 0, (self.unit,))), (b, self.agg(t, 1, (self.fresh(b, 'ioerror'),)))]

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if pathtail(p) == 'clone' and argtys and self.end_of(argtys[0]) and 'UnboundedSender' in g['name']: self.put(s, 'copies', min(s.mon['copies'] + 1, 4))
        if p.endswith('terminal::enable_raw_mode'): return self.raw_result(s, True)
        if p.endswith('terminal::disable_raw_mode'): return self.raw_result(s, False)
        if re.search(r'thread::(Builder::spawn|spawn)$', p):
            self.spawned_thread(s, argtys, args)
        if re.search(r'JoinHandle.*::join$', p): self.put(s, 'reader', False)
        if re.search(r'JoinHandle.*::is_finished$', p):
            a, b = s.copy(), s.copy()
            self.put(a, 'reader', False)
            return [(a, self.c(1)), (b, self.c(0))]
        return super().model(s, g, args, argtys, dest, target, line)

    def spawned_thread(self, s, argtys, args):
        for t in argtys:
            x = self.d.types[t] if isinstance(t, int) else None
            if x and x['k'] == 'closure':
                ids = [f['id'] for f in self.d.fns.values() if f['path'] == x['def']]
                for i in ids:
                    if i in self.stdin_readers():
                        self.started += 1
                        self.put(s, 'reader', True)

    def stdin_readers(self):
        if not hasattr(self, '_sr'):
            self._sr = self.cg.reaching(lambda f: bool(re.search(r'std::io::stdin|std::io::(stdio::)?Stdin|crossterm::event::(read|poll)|nix::unistd::read|libc.*::read$', f['path'])) and not f['local'])
        return self._sr

    # ---- what the owner can notice
    CHAN = (('mpsc::Receiver', 'Request', 'the receiving end for requests'), ('UnboundedSender', 'Response', 'the sending end for responses'))

    def end_of(self, tid):
        t = self.ty(tid) if isinstance(tid, int) else {}
        if t.get('k') == 'ref': t = self.ty(t['e'])
        if t.get('k') == 'adt':
            for d, a, what in self.CHAN:
                if d.split('::')[-1] in t['def'] and a in t.get('n', ''): return what
        return None

    def on_drop(self, s, l, v, tid, depth=4):
        if not isinstance(tid, int) or depth == 0: return
        t = self.ty(tid)
        if t.get('k') == 'ref': return
        w = self.end_of(tid)
        if w is None:
            # what holds an end: a tuple, a closure, an option, a structure of the crate
            sub = [x for x in (t.get('f') or t.get('up') or []) if isinstance(x, int)] if t.get('k') in ('tuple', 'closure') else []
            if t.get('k') == 'adt' and (t.get('local') or t['def'] in ('std::option::Option', 'std::mem::ManuallyDrop')): sub = [ft for x in t['v'] or () for _, ft in x['f']]
            for x in sub: self.on_drop(s, l, v, x, depth - 1)
            return
        n = s.mon['copies'] - 1
        if 'Receiver' not in self.ty(tid)['def']:
            self.put(s, 'copies', n)
            if n > 0: return
        self.noticed(s, w)

    def undone(self, s):
        m = s.mon
        out = []
        if m['raw']: out.append('the terminal is still in raw mode')
        if m['term'] and not m['cleaned']: out.append('the terminal has not been cleaned up')
        if m['term'] and not m['erased']: out.append('the prompt and status have not been erased')
        if m['reader'] and not self.tty: out.append('the input thread has not been stopped')
        return out

    def noticed(self, s, what):
        for u in self.undone(s): self.flagbad(s, 'lets go of %s while %s' % (what, u))
        self.put(s, 'let', True)

    def go(self):
        s = mkstate()
        s.mon = {'raw': False, 'term': False, 'cleaned': False, 'erased': False, 'rem': None, 'up': None, 'er': (), 'scr': 'new', 'ioerr': False, 'pending': False, 'died': False, 'reader': False, 'bad': (), 'stubs': (), 'let': False, 'copies': 1}
        f = self.d.fns[self.root]
        self.start(s, self.root, [self.sym('thread.arg%d' % i) for i in range(f['argc'])])
        return self.explore([s])

    def on_exit(self, s):
        if s.exit[0] == 'return':
            for u in self.undone(s): self.flagbad(s, 'the thread ends while %s' % u)
            if s.mon['pending'] and self.tty: self.flagbad(s, 'the thread ends with a request it received but did not handle')
