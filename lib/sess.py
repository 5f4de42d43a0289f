"""Scenarios over the I/O thread: the thread body is interpreted from its entry point, and a chosen
request with unknown payload is received in an arbitrary session state."""
import re
from engine import Engine, Infeasible, Budget, mkstate, V
import models


def pathtail(p):
    return p.split('::')[-1]


class CallGraph:
    """which bodies can reach which callees (monomorphic instances, resolved)"""

    def __init__(self, dump):
        self.d = dump
        self.succ = {}
        self.ext = {}
        for f in dump.fns.values():
            out, ext = set(), set()
            if 'blocks' in f:
                for st, t in f['blocks']:
                    ops = []
                    for x in st:
                        if x[0] == '=': self.ops(x[2], ops)
                    if t[0] == 'call':
                        ops.append(t[1]); ops.extend(t[2])
                    if t[0] == 'drop':
                        ty = dump.types[t[4]] if isinstance(t[4], int) else {}
                    for o in ops:
                        if o[0] == 'k' and 'fn' in o[1]:
                            g = o[1]['fn']
                            if isinstance(g, int): out.add(g)
                            elif g.get('local'): out |= {y['id'] for y in dump.by_path.get(o[1].get('path'), ())}
                        elif o[0] == 'k' and isinstance(o[2], int):
                            ty = dump.types[o[2]]
                            if ty['k'] == 'fndef' and isinstance(ty['fn'], int): out.add(ty['fn'])
            self.succ[f['id']] = out
        # closures: creating one counts as reaching its body
        clos = {}
        for f in dump.fns.values():
            if f['id'] < 1000000 and f.get('kind') in ('closure', 'coroutine', 'fn', 'item') and '{closure' in f['path'] and 'blocks' in f:
                clos.setdefault(f['path'], set()).add(f['id'])
        for f in dump.fns.values():
            if 'blocks' not in f: continue
            for st, t in f['blocks']:
                for x in st:
                    if x[0] == '=' and x[2][0] == 'agg' and x[2][1][0] in ('closure', 'coroutine'):
                        ty = dump.types[x[2][1][1]]
                        self.succ[f['id']] |= clos.get(ty['def'], set())

    def ops(self, rv, out):
        k = rv[0]
        if k in ('use', 'rep'): out.append(rv[1])
        elif k in ('bin', 'cbin'): out += [rv[2], rv[3]]
        elif k in ('un', 'cast'): out.append(rv[2])
        elif k == 'agg': out += rv[2]

    def reach(self, start):
        seen = set()
        work = list(start) if not isinstance(start, int) else [start]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            work += [y for y in self.succ.get(x, ()) if y not in seen]
        return seen

    def reaching(self, pred):
        """ids of bodies from which a callee satisfying pred can be reached"""
        rev = {}
        for a, bs in self.succ.items():
            for b in bs: rev.setdefault(b, set()).add(a)
        work = [f['id'] for f in self.d.fns.values() if f['id'] < 1000000 and pred(f)]
        seen = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            work += [y for y in rev.get(x, ()) if y not in seen]
        return seen


def find_adt(d, name):
    """type ids of the local nominal type with this last path segment"""
    return [i for i, t in enumerate(d.types) if t and t.get('k') == 'adt' and t.get('local') and t['def'].split('::')[-1] == name]


def type_mentions(d, tid, pred, depth=6, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(tid, int) or tid in seen or depth == 0: return False
    seen.add(tid)
    t = d.types[tid]
    if t is None: return False
    if pred(t): return True
    for x in (t.get('args') or []):
        if type_mentions(d, x, pred, depth - 1, seen): return True
    if 'e' in t and type_mentions(d, t['e'], pred, depth - 1, seen): return True
    return False


def is_dyn(trait):
    return lambda t: t['k'] == 'dyn' and any(x.split('<')[0].endswith(trait) for x in t['traits'])


class Sess(Engine):
    """interprets the I/O thread's body"""
    tty = True
    budget = 6

    def __init__(self, dump):
        super().__init__(dump)
        d = dump
        self.cg = CallGraph(d)
        r = find_adt(d, 'Request')
        self.req_ty = r[0]
        self.resp_ty = find_adt(d, 'Response')[0]
        self.variants = {v['name'].split('::')[-1]: i for i, v in enumerate(d.types[self.req_ty]['v'])}
        self.state_ty = None
        for i, t in enumerate(d.types):
            if t and t.get('k') == 'adt' and t.get('local') and t['kind'] == 'Struct':
                for n, ft in t['v'][0]['f']:
                    x = d.types[ft]
                    if x and x['k'] == 'adt' and x['def'] == 'std::cell::RefCell' and type_mentions(d, ft, is_dyn('Term')):
                        self.state_ty = i
        self.fields = [n for n, _ in d.types[self.state_ty]['v'][0]['f']] if self.state_ty is not None else []
        self.ftypes = [x for _, x in d.types[self.state_ty]['v'][0]['f']] if self.state_ty is not None else []
        self.roles = self.find_roles()
        self.state_loc = None
        self.cur = None
        self.pure_local = self.find_pure()
        self.term_makers = {f['id'] for f in d.fns.values() if f['local'] and f['id'] < 1000000 and f.get('locals')
                            and f['kind'] in ('item', 'fn') and 'blocks' in f
                            and self.makes_term(f['locals'][0])}
        self.root = self.find_root()
        self.drawers = self.find_drawers()

    ROLES = ('status', 'prompt', 'notice', 'input', 'clipboard', 'input_cursor', 'input_allowed', 'remembered_output', 'rollout_needed',
             'term', 'own_output', 'history', 'cur_history_index', 'orphaned_new_input', 'history_original_line', 'completor',
             'consecutive_completion_presses')

    def find_roles(self):
        """what each field of the session state is for: by name, else by being the only one of its type"""
        out = {}
        if self.state_ty is None: return out
        n = lambda i: self.d.tyname(i)
        for r in self.ROLES:
            if r in self.fields: out[r] = r
        kinds = {'notice': lambda t: 'Option' in t and 'Line' in t and 'Instant' in t, 'input_cursor': lambda t: t == 'usize',
                 'history': lambda t: 'History' in t, 'completor': lambda t: 'Option' in t and 'Completor' in t,
                 'cur_history_index': lambda t: t == 'std::option::Option<usize>', 'term': lambda t: 'RefCell' in t,
                 'input_allowed': lambda t: t == 'bool', 'rollout_needed': lambda t: t == 'bool', 'clipboard': lambda t: t.endswith('String') and 'Option' not in t,
                 'input': lambda t: t.endswith('String') and 'Option' not in t,
                 'consecutive_completion_presses': lambda t: t == 'u32',
                 'status': lambda t: t == 'std::option::Option<line::Line>', 'prompt': lambda t: t == 'std::option::Option<line::Line>',
                 'remembered_output': lambda t: 'Option' in t and 'worker::' in t and 'Line' not in t.split('<')[0]}
        for r, k in kinds.items():
            if r in out: continue
            c = [f for f, ft in zip(self.fields, self.ftypes) if f not in out.values() and k(n(ft))]
            if len(c) == 1: out[r] = c[0]
        return out

    def makes_term(self, tid):
        t = self.d.types[tid]
        if t is None or t['k'] != 'adt' or t['def'] != 'std::result::Result': return False
        return type_mentions(self.d, tid, is_dyn('Term'), 4)

    def find_root(self):
        """the closure handed to a thread by the constructor that receives requests"""
        rx = [f['id'] for f in self.d.fns.values() if f['id'] < 1000000 and f['path'].startswith('std::sync::mpsc::Receiver') and 'Request' in f['name']]
        reach = self.cg.reaching(lambda f: f['id'] in rx)
        out = [f for f in self.d.fns.values() if f['id'] in reach and f['id'] < 1000000 and '{closure' in f['path'] and 'blocks' in f
               and re.match(r'liso::InputOutput::\w+::\{closure', f['path']) and f['kind'] not in ('shim',)]
        out.sort(key=lambda f: len(f['path']))
        return out[0]['id'] if out else None

    DRAWING = {'print', 'print_char', 'print_spaces', 'set_attrs', 'newline', 'clear_to_end_of_line', 'move_cursor_up', 'move_cursor_down',
               'move_cursor_left', 'move_cursor_right', 'carriage_return', 'clear_forward_and_reset', 'cur_style', 'cur_fg', 'cur_bg', 'get_width'}

    def term_ops(self, fid):
        """terminal operations reachable from a function"""
        return {pathtail(self.d.fns[x]['path']) for x in self.cg.reach(fid)
                if self.d.fns[x]['kind'] == 'virtual' and 'Term::' in self.d.fns[x]['path']}

    def find_drawers(self):
        """outermost functions given a line that do nothing but put it on the terminal"""
        d = self.d
        line_ty = set(find_adt(d, 'Line'))

        def takes_line(f):
            for i in range(1, f['argc'] + 1):
                t = d.types[f['locals'][i]]
                if t and t['k'] == 'ref' and t['e'] in line_ty: return True
            return False
        cand = set()
        for f in d.fns.values():
            if f['local'] and 'blocks' in f and f['id'] < 1000000 and takes_line(f):
                ops = self.term_ops(f['id'])
                if ops & {'print', 'print_char'} and ops <= self.DRAWING: cand.add(f['id'])
        inner = set()
        for c in cand: inner |= self.cg.reach(self.cg.succ[c]) - {c}
        return cand - inner

    def modified_fields(self, fid, seen=None):
        """fields of the session state that a function may write through a &mut parameter"""
        seen = set() if seen is None else seen
        if fid in seen: return set()
        seen.add(fid)
        f = self.d.fns[fid]
        out = set()
        if 'blocks' not in f or not f['local']: return out

        def field_of(p):
            t = f['locals'][p[0]]
            for e in p[1:]:
                ty = self.d.types[t] if isinstance(t, int) else None
                if e == '*': t = ty.get('e') if ty else None
                elif e[0] == 'f':
                    if t == self.state_ty: return e[1]
                    t = e[2]
                elif e[0] == 'oc': t = e[1]
                elif e[0] == 'd': pass
                else: t = ty.get('e') if ty else None
            return None
        for st, t in f['blocks']:
            for x in st:
                if x[0] == '=':
                    k = field_of(x[1])
                    if k is not None: out.add(k)
                    if x[2][0] in ('ref', 'addr') and str(x[2][1]).lower().startswith('m'):
                        k = field_of(x[2][2])
                        if k is not None: out.add(k)
            if t[0] == 'call':
                k = field_of(t[3])
                if k is not None: out.add(k)
            if t[0] == 'drop':
                pass
        for y in self.cg.succ.get(fid, ()): out |= self.modified_fields(y, seen)
        return out

    stub_draw = False
    skip_capture = True

    def on_draw(self, s, g, args, line):
        pass

    # effects that matter to a session; local functions that cannot reach any are treated as pure
    EFFECT = re.compile(r'^std::(io|panic|thread|sync|process|fs|env|net)|tokio|nix::|crossterm::|RefCell|std::cell|parking_lot|libc|Instant::now')

    def effectful(self, f):
        if 'blocks' in f and f['local']: return False
        p = f['path']
        if f['kind'] == 'virtual': return True
        if re.search(r'FnMut<|FnOnce<|Fn<', p) and 'Box' in p: return True
        if re.search(r'crossterm::(style|event::.*Key)', p): return False
        if re.search(r'std::io::(Error|ErrorKind|Write::by_ref)', p): return False
        return bool(self.EFFECT.search(p))

    def find_pure(self):
        eff = self.cg.reaching(self.effectful)
        return {f['id'] for f in self.d.fns.values() if f['id'] < 1000000 and f['local'] and 'blocks' in f and f['id'] not in eff}

    LINE_ADTS = ('liso::line::',)

    def should_inline(self, s, g):
        # methods of the line type only build text: their own properties are checked elsewhere
        p = g['path']
        if g['id'] in self.pure_local and g['local'] and re.search(r'(^|<)liso::line::|(^|<)liso::Line', p) and '{closure' not in p and len(g['blocks']) > 2: return False
        return True

    def generic_local(self, s, g, args, argtys):
        snaps = tuple(self.snap(s, a, t) for a, t in zip(args, argtys))
        v = self.norm(s, self.call(g['path'], *snaps))
        self.havoc_muts(s, g, args, argtys, snaps, False)
        return v

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.term_makers and len(s.stack) >= 1:
            outs = []
            a = s.copy()
            self.on_term(a, 'new', g, args, line)
            b = s.copy()
            self.on_term(b, 'new_failed', g, args, line)
            ty = self.cur_dest_ty
            return (self.ret_many([(a, self.agg(ty, 0, (self.ref(('TERM',)),))), (b, self.agg(ty, 1, (self.fresh(b, 'error'),)))], dest, target),)
        if self.skip_capture and 'stderr_capture' in g['path'] and g['local'] and 'got' not in s.mon and '{' not in g['path'] and g.get('locals') \
                and self.ty(g['locals'][0]) == {'k': 'tuple', 'f': []}:
            return (self.ret(s, dest, target, self.unit),)     # setting up the capture: its own property
        if self.stub_draw and g['id'] in self.drawers:
            self.on_draw(s, g, args, line)
            if self.state_loc is not None:
                for i in sorted(self.modified_fields(g['id'])):
                    self.write(s, (self.state_loc[0], self.state_loc[1] + ((None, i),)), self.drawn_field(s, g, args, i))
            if self.ok_io: v = self.ok_value(s, 'draw')
            else: v = self.fresh(s, 'draw')
            return (self.ret(s, dest, target, v),)
        return None

    def drawn_field(self, s, g, args, i):
        return self.fresh(s, 'drawn.' + self.fields[i])

    def on_term(self, s, method, g, args, line):
        pass

    def on_recv(self, s, kind, g, dest, target, line):
        """returns list of (state, value) or None"""
        return None

    def on_send(self, s, chan, value, line, g):
        pass

    def on_lock(self, s, g, line): pass

    def on_callback(self, s, fv, args, g, line):
        pass

    def on_extern(self, s, g, args, argtys, line):
        pass

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if g['kind'] == 'virtual':
            m = pathtail(p)
            if 'Term::' in p:
                r = self.term_result(s, m, g, args, dest, target, line)
                if r is not None: return r
                self.on_term(s, m, g, args, line)
                if self.ok_io: return self.ok_value(s, 'term.' + m)
                return self.fresh(s, 'term.' + m)
            self.on_callback(s, args[0], args, g, line)
            self.havoc_muts(s, g, args[1:], argtys[1:], (), True)
            return self.fresh(s, p)
        if g['local'] and 'blocks' in g:
            return self.generic_local(s, g, args, argtys)
        if p.startswith('std::sync::mpsc::Receiver') and 'Request' in g['name'] and pathtail(p) in ('recv', 'try_recv', 'recv_timeout', 'iter', 'try_iter'):
            r = self.on_recv(s, pathtail(p), g, dest, target, line)
            if r is not None: return r
        if pathtail(p) in ('send', 'try_send', 'blocking_send') and 'mpsc' in p:
            ch = 'request' if 'Request' in g['name'] else 'response' if 'Response' in g['name'] else 'other'
            self.on_send(s, ch, args[1], line, g)
            return self.send_result(s, ch, args, g)
        if p.endswith('::is_tty') or p.endswith('is_terminal'):
            return self.tty_value(s, g, args)
        if p in ('std::env::var', 'std::env::var_os'):
            return self.env_var(s, args)
        if re.search(r'(Box<F, A>|Box<.*>) as std::ops::(FnMut|FnOnce|Fn)<.*>>::call', p):
            self.on_callback(s, args[0], args[1:], g, line)
            return None
        self.on_extern(s, g, args, argtys, line)
        return None

    def send_result(self, s, ch, args, g):
        if self.ok_io: return self.ok_value(s, 'send')
        return self.fresh(s, 'send')

    ok_io = False   # assume terminal and channel operations succeed

    def ok_value(self, s, what):
        t = self.ty(self.cur_dest_ty) if self.cur_dest_ty is not None else {}
        if t.get('k') == 'adt' and t['def'] == 'std::result::Result':
            ft = t['v'][0]['f'][0][1]
            if self.ty(ft)['k'] == 'tuple' and not self.ty(ft)['f']: return self.agg(self.cur_dest_ty, 0, (self.unit,))
            return self.agg(self.cur_dest_ty, 0, (self.fresh(s, what),))
        return self.fresh(s, what)

    def term_result(self, s, m, g, args, dest, target, line):
        return None

    def tty_value(self, s, g, args):
        return self.c(1 if self.tty else 0)

    def env_var(self, s, args):
        return self.agg(self.cur_dest_ty, 1, (self.fresh(s, 'noenv'),))

    # ------------------------------------------------------------ arbitrary session state
    def find_state(self, s):
        """location of the session state in the current frames"""
        for idx in range(len(s.stack) - 1, -1, -1):
            fr = s.stack[idx]
            f = self.d.fns[fr[0]]
            for l, t in enumerate(f['locals']):
                if t == self.state_ty and ('L', fr[1], l) in s.store:
                    v = s.store[('L', fr[1], l)]
                    if self.tab[v][0] in ('agg', 'upd'): return (('L', fr[1], l), ())
        for o, v in s.store.items():
            t = self.tab[v]
            if t[0] == 'agg' and t[1] == self.state_ty and o[0] in ('L', 'H'): return (o, ())
        return None

    def havoc_state(self, s):
        loc = self.find_state(s)
        self.state_loc = loc
        if loc is not None:
            self.S = self.sym('S')
            self.base = getattr(self, 'base', [])
            self.base.append((s.copy(), self.read(s, loc)))
            self.write(s, loc, self.S)
        return loc

    def f0(self, name):
        """initial value of a field of the session state"""
        return self.mk(('fld', self.S, None, self.fi_idx(name)))

    def start_values(self, name):
        """(state, value) of a field when the thread first waits for a request"""
        return [(s, self.norm(s, self.proj(s, v, (None, self.fi_idx(name))))) for s, v in getattr(self, 'base', ())]

    def fi_idx(self, name):
        return self.fields.index(self.roles.get(name, name))

    def final(self, s, name):
        return self.norm(s, self.proj(s, self.read(s, self.state_loc), (None, self.fi_idx(name))))

    def has(self, role):
        return role in self.roles

    def pps(self, v):
        """print a term with the state's field names"""
        t = self.pp(v)
        return re.sub(r'\bS\.(\d+)\b', lambda m: 'state.' + self.fields[int(m.group(1))], t)


class OneRequest(Sess):
    """one request handled in an arbitrary state; ends when the thread next asks for a request"""

    ok_io = True

    def __init__(self, dump, variant, payload=None):
        super().__init__(dump)
        self.variant = variant
        self.payload_fn = payload
        self.payload = ()

    def request_value(self, s):
        i = self.variants[self.variant]
        v = self.d.types[self.req_ty]['v'][i]
        vals = [self.sym('req.%s' % (n,)) for n, _ in v['f']]
        if self.payload_fn: vals = self.payload_fn(self, s, v['f'], vals)
        self.payload = vals
        return self.agg(self.req_ty, i, vals)

    def prepare(self, s):
        """facts assumed about the arbitrary state"""
        pass

    def on_recv(self, s, kind, g, dest, target, line):
        if s.mon.get('got') is None:
            if self.find_state(s) is None and self.tty: 
                return None
            if self.tty: self.havoc_state(s)
            s.mon = dict(s.mon)
            s.mon['got'] = 1
            # what was learnt while setting up does not matter from here on
            s.eq, s.ne = {}, {}
            self.prepare(s)
            self.on_start(s)
            return [(s, self.agg(self.cur_dest_ty, 0, (self.request_value(s),)))]
        self.finish(s, 'idle', (kind, line))
        return []

    def on_start(self, s): pass

    def peel(self, s, hk):
        # what follows the request is analysed apart from what preceded it
        g = self.groups[('g', s.tags[hk])]
        return g['entry'].mon.get('got') != s.mon.get('got')

    def go(self):
        s = mkstate()
        f = self.d.fns[self.root]
        self.start(s, self.root, [self.sym('env%d' % i) for i in range(f['argc'])])
        return self.explore([s])


class OneKey(OneRequest):
    """one key: a RawInput of a single unknown character, or a key event with unknown code and modifiers"""
    entry_budget = 300
    budget = 24

    def __init__(self, dump, raw=True, keyval=None, code=None, ctrl=False):
        """keyval: the character, or None for any; code: (variant, character or number) of a key event"""
        super().__init__(dump, 'RawInput' if raw else 'CrosstermEvent')
        self.code, self.ctrl = code, ctrl
        self.raw = raw
        self.keyval = keyval
        self.text = self.sym('TEXT')
        self.chars = self.call('chars', self.text)
        self.KEY = self.sym('KEY')

    def request_value(self, s):
        i = self.variants[self.variant]
        if self.raw:
            return self.agg(self.req_ty, i, (self.text,))
        # Event::Key(KeyEvent { code: KEY, modifiers: MODS, kind, state })
        v = self.d.types[self.req_ty]['v'][i]
        et = v['f'][0][1]
        ev = self.d.types[et]
        ki = [n for n, x in enumerate(ev['v']) if x['name'].split('::')[-1] == 'Key'][0]
        kt = ev['v'][ki]['f'][0][1]
        fs = [n for n, _ in self.d.types[kt]['v'][0]['f']]
        vals = [self.sym(n.upper()) for n in fs]
        self.code_ty = self.d.types[kt]['v'][0]['f'][fs.index('code')][1]
        if self.code is not None:
            ct = self.ty(self.code_ty)
            vi = [n for n, x in enumerate(ct['v']) if x['name'].split('::')[-1] == self.code[0]][0]
            vals[fs.index('code')] = self.agg(self.code_ty, vi, (self.c(self.code[1]),) if ct['v'][vi]['f'] else ())
            vals[fs.index('modifiers')] = self.nested(self.d.types[kt]['v'][0]['f'][fs.index('modifiers')][1], 2 if self.ctrl else 0)
        self.CODE = vals[fs.index('code')]
        self.MODS = vals[fs.index('modifiers')]
        return self.agg(self.req_ty, i, (self.agg(et, ki, (self.agg(kt, 0, vals),)),))

    def peel(self, s, hk):
        if super().peel(s, hk): return True
        if s.mon.get('key') == ('first', hk[0]):
            s.mon = dict(s.mon)
            s.mon['key'] = ('done',)
            return True
        return False

    def nested(self, tid, n):
        t = self.ty(tid)
        if t['k'] == 'adt' and t['v'] and t['v'][0]['f']: return self.agg(tid, 0, (self.nested(t['v'][0]['f'][0][1], n),))
        return self.c(n)

    def bits(self, s, v):
        v = self.content(s, v) if self.tab[v][0] in ('ref', 'kref') else self.norm(s, v)
        while self.tab[v][0] == 'agg' and len(self.tab[v][3]) == 1: v = self.norm(s, self.tab[v][3][0])
        return self.isc(v)

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if 'KeyModifiers' in g['name'] and pathtail(p) in ('contains', 'intersects', 'is_empty', 'bits'):
            b = [self.bits(s, a) for a in args]
            if None not in b:
                m = pathtail(p)
                return self.c(b[0] & b[1] == b[1] if m == 'contains' else b[0] & b[1] != 0 if m == 'intersects' else b[0] == 0 if m == 'is_empty' else b[0])
        if p.endswith('Iterator>::next') and self.raw:
            l = self.deref(s, args[0])
            it = self.read(s, l)
            t = self.tab[it]
            base = it
            n = 0
            while t[0] == 'mut' and t[1] == 'next': base = t[3]; t = self.tab[base]; n += 1
            if base == self.chars:
                self.write(s, l, self.mk(('mut', 'next', 0, it)))
                if n == 0:
                    s.mon = dict(s.mon)
                    s.mon['key'] = ('first', s.stack[-1][1])
                    s.mon['more'] = 0
                else:
                    s.mon = dict(s.mon)
                    s.mon['more'] = 1
                k = self.KEY if self.keyval is None else self.c(self.keyval)
                if n == 0: return self.agg(self.cur_dest_ty, 1, (k,))
                return self.agg(self.cur_dest_ty, 0, ())
        return super().model(s, g, args, argtys, dest, target, line)
