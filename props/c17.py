"""Abstract interpretation of the terminal back ends against a model of the terminal's attributes. The model holds what
the terminal has been told to use: the set of styles, the foreground and the background; it is moved by the typed
crossterm commands and control text that each operation emits. Every operation of every back end is interpreted from an
arbitrary state in which the back end's idea (its fields of the style and colour types that operations change) is what
the terminal was told; at every end without a write error the two must agree again, resuming from a suspension even when
the terminal was left with anything. Requests (set_attrs) are interpreted for every combination of colours given or not,
before and requested, and must end with exactly the requested attributes, on the VT52 with colours that depend only on the
request, are swapped by INVERSE, and are the reset ones for a plain request."""
from palette import *
import itertools

UNKNOWN = ('?',)


class Attr(Back):
    budget = 60

    def told_what(self, s, *o):
        A, F, B, inv = s.mon['at']
        k = o[0]
        if k in ('reset', 'attr', 'attrs', 'resetcolor', 'colors', 'fg', 'bg', 'inv'): self.put(s, 'touched', True)
        if k == 'reset': A, F, B = frozenset(), None, None
        elif k == 'resetcolor': F, B = None, None
        elif k == 'attrs': A = A | {self.attrs_arg(s, o[1])}
        elif k == 'attr': A = A | {('one', o[1])}
        elif k == 'colors':
            F = self.opt(s, o[1], F)
            B = self.opt(s, o[2], B)
        elif k == 'fg': F = self.col(s, o[1])
        elif k == 'bg': B = self.col(s, o[1])
        elif k == 'inv': inv = o[1]
        self.put(s, 'at', (A, F, B, inv))

    def op(self, s, *o): pass

    def tell(self, s, *o):
        self.told_what(s, *o)
        super().tell(s, *o)

    def attrs_arg(self, s, v):
        t = self.tab[self.norm(s, v)]
        if t[0] == 'call' and t[1] == 'attributes of': return ('of', t[2])
        return ('value', v)

    def opt(self, s, v, before):
        """a colour of crossterm's Colors: none leaves it as it was"""
        d = self.isc(self.norm(s, self.discr(s, v)))
        if d == 0: return before
        if d == 1: return self.col(s, self.norm(s, self.proj(s, v, (1, 0))))
        return UNKNOWN

    def col(self, s, v):
        if isinstance(v, int) and self.ansi:
            t = self.tab[self.norm(s, v)]
            if t[0] == 'call' and t[1] == 'colour of': return ('of', t[2])
            if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1])['v'][t[2]]['name'].endswith('Reset'): return None
            return ('value', v)
        if self.ansi or not isinstance(v, int): return UNKNOWN
        return ('of', v)

    # the tables are judged elsewhere (C16): here they are names for what they give
    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['local'] and g['argc'] == 1 and g.get('locals'):
            r, a = self.ty(g['locals'][0]), g['locals'][1]
            name = None
            if r.get('k') == 'adt' and r['def'].endswith('style::Color') and is_type(self.d, a, 'liso::Color'): name = 'colour of'
            if r.get('k') == 'adt' and r['def'].endswith('::Attributes') and is_type(self.d, a, 'liso::Style'): name = 'attributes of'
            if r.get('k') == 'int' and is_type(self.d, a, 'liso::Color'): name = 'palette %s of' % g['path']
            if name:
                self.used.add(g['path'])
                v = self.norm(s, args[0])
                while self.tab[v][0] in ('ref', 'kref'): v = self.norm(s, self.content(s, v))
                return (self.ret(s, dest, target, self.norm(s, self.mk(('call', name, v)))),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def env_var(self, s, args): return self.fresh(s, 'setting')

    def begin(self):
        s = super().begin()
        self.put(s, 'at', (frozenset(), None, None, 0))
        self.put(s, 'touched', False)
        return s

    def again(self, s, keep=('hook', 'raw', 'dirty', 'input', 'at')):
        a = super().again(s, keep)
        self.put(a, 'touched', False)
        return a

    # ---- fields
    def places(self):
        """where the back end keeps its idea: places of a style, colour or small integer type that operations change"""
        out = []
        mut = self.mutated()

        def go(tid, path, top, depth):
            ty = self.ty(tid)
            if is_type(self.d, tid, 'liso::Style') and ty['k'] == 'adt': out.append(('style', path))
            elif ty.get('k') == 'adt' and ty['def'].endswith('option::Option') and is_type(self.d, ty['args'][0], 'liso::Color'): out.append(('colour', path))
            elif ty.get('k') == 'int' and ty['bits'] == 8: out.append(('number', path))
            elif ty.get('k') == 'adt' and ty['def'].startswith('liso::') and len(ty['v']) == 1 and depth < 3 or ty.get('k') == 'tuple' and depth < 3:
                fs = [x[1] for x in ty['v'][0]['f']] if ty['k'] == 'adt' else ty['f']
                for i, t in enumerate(fs): go(t, path + ((None, i),), top, depth + 1)
        for i, (n, t) in enumerate(self.ty(self.self_ty)['v'][0]['f']):
            if i in mut: go(t, ((None, i),), i, 0)
        return out

    def at_place(self, s, path):
        v = self.content(s, self.ref(self.OBJ))
        for p in path: v = self.proj(s, v, p)
        return self.norm(s, v)

    def same(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        if a == b: return True
        if self.isc(self.norm(s, self.eqv(s, a, b))) == 1: return True
        return bool(self.aliases(s, a) & self.aliases(s, b))

    def aliases(self, s, a):
        out = {a}
        for _ in range(3):
            for t, k in s.eq.items():
                tt = self.tab[t]
                if k == 1 and tt[0] == 'op' and tt[1] == 'Eq' and (tt[2] in out or tt[3] in out): out |= {tt[2], tt[3], self.norm(s, tt[2]), self.norm(s, tt[3])}
        return out

    # ---- agreement
    def styles(self, s, A):
        """the styles the terminal was told, as bits (or None)"""
        out = []
        for x in A:
            if x[0] != 'of': return None
            b = bits_of(self, s, x[1])
            if self.isc(b) == 0: continue
            if not any(self.same(s, b, y) for y in out): out.append(b)
        return out

    def style_agrees(self, s, v):
        if not self.ansi: return s.mon['at'][3] == 0
        w = self.styles(s, s.mon['at'][0])
        b = bits_of(self, s, v)
        if w is None: return False
        return len(w) == 0 and self.same(s, b, self.c0) or len(w) == 1 and self.same(s, b, w[0])

    def colour_agrees(self, s, v, told):
        if told is UNKNOWN or told == UNKNOWN: return False
        if not self.ansi: return told is not None and told[0] == 'of' and self.same(s, v, told[1])
        d = self.isc(self.norm(s, self.discr(s, v)))
        if told is None: return d == 0
        if told[0] == 'maybe': return self.same(s, v, told[1])
        if told[0] != 'of': return False
        return d == 1 and self.same(s, self.proj(s, v, (1, 0)), told[1])


def option(e, tid, name):
    """an Option<Color> that is nothing, or a colour"""
    ty = e.ty(tid)
    return [(None, e.agg(tid, 0, ())), ('of', e.agg(tid, 1, (e.sym(name),)))]


class Judge:
    def __init__(self, ctx, feat, e):
        self.ctx, self.feat, self.e, self.n = ctx, feat, e, 0
        self.who = e.name.split('::')[-1]


def arrange(e):
    """the ways the fields may play the roles of style, foreground and background"""
    ps = e.places()
    st = [p for k, p in ps if k == 'style']
    co = [p for k, p in ps if k == ('colour' if e.ansi else 'number')]
    return [(a, b, c) for a in st for b, c in itertools.permutations(co, 2)]


def set_path(e, s, path, v):
    e.write(s, (e.OBJ, tuple(path)), v)


def place_ty(e, path):
    t = e.self_ty
    for _, i in path:
        ty = e.ty(t)
        t = ty['v'][0]['f'][i][1] if ty['k'] == 'adt' else ty['f'][i]
    return t


def starts(e, live, roles):
    """a back end in any state in which it knows what the terminal was told"""
    out = []
    sp, fp, bp = roles
    for x in live:
        for (fk, fv), (bk, bv) in itertools.product(*([option(e, place_ty(e, fp), 'fg0'), option(e, place_ty(e, bp), 'bg0')] if e.ansi else [[('of', e.sym('fg0'))], [('of', e.sym('bg0'))]])):
            a = e.again(x)
            e.havoc(a)
            st = style_sym(e, 'style0')
            set_path(e, a, sp, st)
            set_path(e, a, fp, fv)
            set_path(e, a, bp, bv)
            inner = lambda k, v: None if k is None else ('of', e.proj(a, v, (1, 0)) if e.ansi else v)
            e.put(a, 'at', (frozenset([('of', st)]), inner(fk, fv), inner(bk, bv), 0))
            out.append(a)
    return out


def good(e, xs): return [x for x in xs if x.exit[0] == 'return' and not x.mon['outerr'] and not x.mon['rawerr']]


def agreement(e, roles, x):
    why = []
    if not e.style_agrees(x, e.at_place(x, roles[0])): why.append('style')
    if not e.colour_agrees(x, e.at_place(x, roles[1]), x.mon['at'][1]): why.append('foreground')
    if not e.colour_agrees(x, e.at_place(x, roles[2]), x.mon['at'][2]): why.append('background')
    return why


RESETS = ('reset_attrs', 'clear_all_and_reset', 'clear_forward_and_reset')


def trial(ctx, feat, d, e, live, roles, ops):
    """every operation, with the fields in these roles: a list of (key, ok, message)"""
    res = []
    rep = lambda key, ok, msg: res.append((key, ok, msg))
    plain = {}
    reset = {}
    for o in sorted(ops):
        if o in ('type', 'new', 'cleanup'): continue
        f = ops[o]
        ss = starts(e, live, roles)
        if o == 'unsuspend': continue
        if o == 'suspend':
            out = good(e, e.run_op(ss, f))
            ends = []
            for x in out:
                a = e.again(x)
                # whoever had the terminal meanwhile may have left it with anything
                e.put(a, 'at', (frozenset([UNKNOWN]), UNKNOWN, UNKNOWN, 1))
                ends.append(a)
            out = good(e, e.run_op(ends, ops['unsuspend']))
            for x in out:
                w = agreement(e, roles, x)
                rep('unsuspend', not w, 'after resuming, the %s it believes to be active may not be what the terminal was told' % ' and '.join(w))
            rep('unsuspend:ends', bool(out), 'resuming never succeeds')
            continue
        if o == 'set_attrs': continue
        out = e.run_op(ss, f)
        out = good(e, out)
        for x in out:
            w = agreement(e, roles, x)
            rep(o, not w, 'the %s it believes to be active may not be what the terminal was told' % ' and '.join(w))
            if o in RESETS:
                rep(o + ':style', e.same(x, bits_of(e, x, e.at_place(x, roles[0])), e.c0), 'does not reset the style')
                reset.setdefault(config(e, x), set()).add(tuple(e.norm(x, c[1]) if c else None for c in x.mon['at'][1:3]))
            elif o not in ('clear_to_end_of_line',):
                rep(o + ':untouched', not x.mon['touched'], 'changes attributes that the caller did not ask to change')
        rep(o + ':ends', bool(out), 'never succeeds')
    requests(e, live, roles, ops['set_attrs'], rep, reset)
    return res


def config(e, x):
    """the facts that do not change while the terminal is used"""
    mut = e.mutated()
    return tuple((e.tfields[i], e.pp(e.tf(x, i))) for i in range(len(e.tfields)) if i not in mut and (e.ty(e.ty(e.self_ty)['v'][0]['f'][i][1])['k'] in ('int', 'bool')))


def requests(e, live, roles, f, rep, reset):
    names = style_bits(e.d)
    tids = f['locals'][2:5]
    optty = next((t for t in tids if e.ty(t).get('def', '').endswith('option::Option')), None)
    styles = [None] if e.ansi else [0] + sorted({b for n, b in names.items() if b}) + [sum({b for b in names.values()})]
    inverse = names.get('INVERSE')
    ini = []
    table = {}
    for st in styles:
        sv = style_sym(e, 'style') if st is None else style_value(e, st)
        for (fk, fv), (bk, bv) in itertools.product(option(e, optty, 'fg'), option(e, optty, 'bg')):
            out = e.run_op(starts(e, live, roles), f, (sv, fv, bv))
            for x in out:
                if x.exit[0] != 'return' and 'overflow' not in str(x.exit[1][:2]): rep('set_attrs:panics', False, 'can panic: ' + str(x.exit[1])[:80])
            gs = good(e, out)
            rep('set_attrs:ends', bool(gs), 'never succeeds')
            for x in gs:
                w = agreement(e, roles, x)
                rep('set_attrs', not w, 'the %s it believes to be active may not be what the terminal was told' % ' and '.join(w))
                A, F, B, inv = x.mon['at']
                rep('set_attrs:style', e.same(x, bits_of(e, x, e.at_place(x, roles[0])), bits_of(e, x, sv)), 'it may believe another style to be active than was asked for')
                if e.ansi:
                    w = e.styles(x, A)
                    b = bits_of(e, x, sv)
                    rep('set_attrs:told style', w is not None and (not w and e.same(x, b, e.c0) or len(w) == 1 and e.same(x, b, w[0])), 'the terminal may be left with other styles than were asked for')
                    for what, k, v, t in (('foreground', fk, fv, F), ('background', bk, bv, B)):
                        rep('set_attrs:told ' + what, t is None if k is None else t not in (None, UNKNOWN) and t[0] == 'of' and e.same(x, t[1], e.proj(x, v, (1, 0))), 'the terminal may be left with another %s than was asked for' % what)
                else:
                    key = (config(e, x), fk, bk, st)
                    table.setdefault(key, set()).add(tuple(canon(e, x, c) for c in (F, B)))
    if e.ansi: return
    for (cfg, fk, bk, st), vals in sorted(table.items(), key=repr):
        rep('set_attrs:determined', len(vals) == 1 and None not in list(vals)[0], 'the colours that the terminal is left with do not depend on the request alone')
        if len(vals) != 1: continue
        v = list(vals)[0]
        base = table.get((cfg, fk, bk, 0), ())
        rep('set_attrs:inverse', (v[::-1] if st & inverse else v) in base, 'INVERSE does not swap the colours, or another style changes them')
        if not st:
            dflt = table.get((cfg, None, None, 0), ())
            for d in dflt:
                if fk is None: rep('set_attrs:default', v[0] == d[0], 'the foreground depends on the background asked for')
                if bk is None: rep('set_attrs:default', v[1] == d[1], 'the background depends on the foreground asked for')
        if not st and fk is None and bk is None and cfg in reset:
            rep('set_attrs:reset', {tuple(v)} == reset[cfg], 'a plain request does not give the colours that a reset gives')
    rep('set_attrs:tables', len({k[0] for k in table}) >= 4, 'no configuration of the terminal is found')


def canon(e, x, c):
    """a colour that does not depend on what was active before"""
    if c in (None, UNKNOWN): return None
    v = e.norm(x, c[1])
    old = {e.sym('fg0'), e.sym('bg0')}
    if not (e.subs(v) & old): return v
    for t, k in x.eq.items():
        tt = e.tab[t]
        if k == 1 and tt[0] == 'op' and tt[1] == 'Eq':
            for a, b in ((tt[2], tt[3]), (tt[3], tt[2])):
                if a == v and not (e.subs(b) & old): return b
    return None


class Making(Sess):
    """the function that chooses the back end: with which numbers it creates them"""
    budget = 500

    def __init__(self, d, news):
        super().__init__(d)
        self.news, self.calls = news, {}

    def should_inline(self, s, g): return g['local']

    def env_var(self, s, args): return self.fresh(s, 'setting')

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if g['id'] in self.news:
            self.calls.setdefault(g['id'], set()).add(tuple(self.isc(self.norm(s, a)) for a in args))
            return (self.ret(s, dest, target, self.fresh(s, 'term')),)
        return super().hook_call(s, g, args, argtys, dest, target, line)


def creations(d, bs):
    news = {ops['new']['id'] for ops in bs.values() if 'new' in ops}
    maker = [f for f in d.fns.values() if f['local'] and 'blocks' in f and f['id'] not in news and f['id'] < 1000000 and any(t[0] == 'call' and t[1][0] == 'k' and isinstance(t[1][1], dict) and t[1][1].get('fn') in news for st, t in f['blocks'])]
    e = Making(d, news)
    for f in maker:
        s = mkstate()
        s.mon = {}
        e.start(s, f['id'], [e.sym('arg%d' % i) for i in range(f['argc'])], f['path'])
        e.explore([s])
    return e.calls, e


def check(ctx):
    for feat in ('default', 'all'):
        d = ctx.dump(feat)
        bs = backends(d)
        ctx.floor(feat + ': terminal back ends', len(bs), 2)
        calls, e0 = creations(d, bs)
        for name, ops in sorted(bs.items()):
            who = name.split('::')[-1]
            miss = [o for o in ('set_attrs', 'suspend', 'unsuspend', 'new') + RESETS if o not in ops]
            for o in miss: ctx.bad('%s:%s:missing:%s' % (feat, who, o), 'the back end %s has no %s' % (name, o))
            if miss: continue
            e = Attr(d, name, ops)
            e.used = set()
            live = []
            for c in sorted(calls.get(ops['new']['id'], ()), key=repr):
                s = e.begin()
                args = [e.sym('new.arg%d' % i) if k is None else e.c(k) for i, k in enumerate(c)]
                for x in good(e, e.run_op([s], ops['new'], args, 'new') if not ops['new']['argc'] else run_new(e, s, ops['new'], args)):
                    v = e.norm(x, x.user['ret'])
                    if not (e.tab[v][0] == 'agg' and e.tab[v][1] == e.self_ty):
                        if not e.result_ok(x): continue
                        v = e.norm(x, e.proj(x, v, (0, 0)))
                    x.store[e.OBJ] = v
                    live.append(x)
            uniq = {}
            for x in live:
                a = e.again(x)
                e.havoc(a)
                uniq.setdefault((e.ident(a), e.monkey(a), config(e, a)), x)
            live = list(uniq.values())
            ctx.floor('%s: configurations of %s' % (feat, who), len(live), 1 if e.ansi else 3)
            ways = arrange(e)
            if not ways:
                ctx.bad('%s:%s:fields' % (feat, who), 'the back end %s does not keep track of the style and both colours' % name)
                continue
            best = None
            for w in ways:
                r = trial(ctx, feat, d, e, live, w, ops)
                n = sum(1 for _, ok, _ in r if not ok)
                if best is None or n < best[0]: best = (n, r, w)
                if n == 0: break
            for key, ok, msg in best[1]:
                k = '%s:%s:%s' % (feat, who, key)
                o = key.split(':')[0]
                ctx.ob(ok, k, 'agrees with what the terminal was told', '%s, %s: %s' % (name, ops[o]['path'].split('::')[-1] if o in ops else o, msg))
            ctx.engine_stats('%s %s' % (feat, who), e)
            ctx.analysed.setdefault('tables taken as names', {})[who] = sorted(e.used)
            ctx.analysed.setdefault('the idea is kept in', {})[who] = [''.join('.%s' % i for _, i in p) for p in best[2]]
            ctx.analysed.setdefault('ends judged', {})['%s %s' % (feat, who)] = len(best[1])
    ctx.assumptions += ['crossterm\'s typed commands do what their names say', 'an operation whose write failed ends the session']


def run_new(e, s, f, args):
    e.start(s, f['id'], args, 'new')
    n = e.steps
    e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
    out = list(e.explore([s]))
    e.steps += n
    return out
