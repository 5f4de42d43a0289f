"""Lines of styled text: a line is its text and the spans (elements) that cover it. Of the spans only the last one is kept
apart; the others are what they were. The state between operations is one of four: nothing yet; a last span without text
in an empty line; a last span without text; a last span with text. In all of them the last span ends where the text ends."""
from palette import *

MUT_VEC = re.compile(r'(::|>)(insert|remove|swap_remove|truncate|clear|pop|drain|retain|append|extend|dedup|resize|split_off|sort\w*|reverse|swap|rotate\w*|fill|extend_from_slice|set_len|as_mut_ptr|get_unchecked_mut|iter_mut|first_mut|split_at_mut)(::<.*>)?$')
APPEND = re.compile(r'String as std::ops::AddAssign<&.*>>::add_assign$|String::push_str$|String::push$|String as std::fmt::Write>::write_(str|char)$')


class LineE(Sess):
    budget = 40
    max_steps = 600000
    split_heads = True

    def __init__(self, d):
        super().__init__(d)
        self.LINE = next((i for i, t in enumerate(d.types) if t and t.get('k') == 'adt' and t['def'] == 'liso::line::Line'), None)
        self.ELEM = next((i for i, t in enumerate(d.types) if t and t.get('k') == 'adt' and t['def'] == 'liso::line::LineElement'), None)
        self.anchored = self.LINE is not None and self.ELEM is not None
        if not self.anchored: return
        fs = d.types[self.LINE]['v'][0]['f']
        self.TI = next((i for i, f in enumerate(fs) if d.types[f[1]].get('def', '').endswith('String')), None)
        self.EI = next((i for i, f in enumerate(fs) if d.types[f[1]].get('def', '').endswith('vec::Vec')), None)
        es = d.types[self.ELEM]['v'][0]['f']
        names = [f[0] for f in es]
        st = [i for i, f in enumerate(es) if is_type(d, f[1], 'liso::Style')]
        co = [i for i, f in enumerate(es) if d.types[f[1]].get('def', '').endswith('option::Option')]
        nu = [i for i, f in enumerate(es) if d.types[f[1]].get('k') == 'int']
        self.anchored = None not in (self.TI, self.EI) and len(st) == 1 and len(co) == 2 and len(nu) == 2
        if not self.anchored: return
        self.ST = st[0]
        self.FG, self.BG = (names.index('fg'), names.index('bg')) if {'fg', 'bg'} <= set(names) else co
        self.S0, self.S1 = (names.index('start'), names.index('end')) if {'start', 'end'} <= set(names) else nu
        self.OPT = es[self.FG][1]
        self.ELEMS = self.sym('elements')
        self.judged = 0

    def should_inline(self, s, g): return 'blocks' in g

    L, LAST = ('G', 'line'), ('G', 'last')

    # ---- states
    def elem(self, style, fg, bg, a, b):
        v = [None] * 5
        v[self.ST], v[self.FG], v[self.BG], v[self.S0], v[self.S1] = style, fg, bg, a, b
        return self.agg(self.ELEM, 0, tuple(v))

    def attrs0(self):
        return style_sym(self, 'style0'), self.sym('fg0'), self.sym('bg0')

    def none(self): return self.agg(self.OPT, 0, ())

    KINDS = ('nothing', 'attributes only', 'pending attributes', 'text')

    def line_state(self, kind, s=None, attrs=None):
        s = s or mkstate()
        s.mon = {'n': 0 if kind == 'nothing' else 1, 'sealed': kind == 'text', 'bad': frozenset(), **(s.mon or {})}
        self.shape(s, kind, attrs or self.attrs0())
        return s

    def shape(self, s, kind, a):
        """the line is of this kind, with these attributes, and nothing else is known about it"""
        self.quiet = True
        z, T, S = self.c(0), self.mk(('sym', 'text*')), self.sym('start*')
        self.put(s, 'n', 0 if kind == 'nothing' else 1)
        self.put(s, 'sealed', kind == 'text')
        self.put(s, 'kind', kind)
        text = self.mk(('s', '')) if kind in ('nothing', 'attributes only') else T
        L = self.lenv(s, T)
        fields = [None] * len(self.ty(self.LINE)['v'][0]['f'])
        fields[self.TI] = text
        fields[self.EI] = self.agg('arr', 0, ()) if kind == 'nothing' else self.ELEMS
        for i, f in enumerate(fields):
            if f is None: fields[i] = self.sym('linefield%d' % i)
        s.store[self.L] = self.agg(self.LINE, 0, tuple(fields))
        for dd in (s.eq, s.ne):
            for t in [t for t in dd if T in self.subs(t) or S in self.subs(t)]: del dd[t]
        s.ne[self.lenv(s, self.ELEMS)] = frozenset([0])
        if kind == 'nothing': s.store.pop(self.LAST, None)
        if kind == 'attributes only': s.store[self.LAST] = self.elem(*a, z, z)
        if kind == 'pending attributes':
            s.store[self.LAST] = self.elem(*a, L, L)
            s.ne[L] = frozenset([0])
        if kind == 'text':
            s.store[self.LAST] = self.elem(*a, S, L)
            s.ne[L] = frozenset([0])
            for x in (('op', 'Eq', S, L), ('op', 'Eq', L, S)): s.eq[self.mk(x)] = 0
        self.quiet = False

    quiet = False

    def put(self, s, k, x):
        if s.mon.get(k) == x and k in s.mon: return
        s.mon = dict(s.mon)
        s.mon[k] = x

    def bad(self, s, what): self.put(s, 'bad', s.mon['bad'] | {what})

    def binop(self, s, op, a, b, tid=None):
        if op == 'BitXor':      # twice the same constant is nothing
            a, b = self.norm(s, a), self.norm(s, b)
            for x, y in ((a, b), (b, a)):
                t = self.tab[x]
                if self.isc(y) is not None and t[0] == 'op' and t[1] == 'BitXor' and y in (t[2], t[3]): return t[2] if t[3] == y else t[3]
        return super().binop(s, op, a, b, tid)

    # ---- reading
    def theline(self, s): return self.content(s, self.ref(self.L))
    def text(self, s): return self.norm(s, self.proj(s, self.theline(s), (None, self.TI)))
    def elems(self, s): return self.norm(s, self.proj(s, self.theline(s), (None, self.EI)))
    def lastf(self, s, i): return self.norm(s, self.proj(s, s.store[self.LAST], (None, i)))

    def attrs(self, s):
        """the style and colours that text added now gets"""
        if not s.mon['n']: return style_value(self, 0), self.none(), self.none()
        return tuple(self.lastf(s, i) for i in (self.ST, self.FG, self.BG))

    # ---- lengths
    def lin(self, s, v, d=10):
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 'c': return {}, t[1]
        if d and t[0] == 'op' and t[1] in ('Add', 'Sub') and len(t) == 4:
            a, b = self.lin(s, t[2], d - 1), self.lin(s, t[3], d - 1)
            return plus(a, b, 1 if t[1] == 'Add' else -1)
        if d and t[0] == 'call' and len(t) == 3 and str(t[1]).split('::')[-1] == 'len' and self.pieces_of(s, self.norm(s, t[2])): return self.textlen(s, t[2], d - 1)
        return {v: 1}, 0

    def textlen(self, s, v, d=12):
        v = self.norm(s, v)
        p = self.pieces_of(s, v)
        if p:
            base, pieces = p
            r = self.textlen(s, base, d - 1) if d else ({v: 1}, 0)
            for x in pieces: r = plus(r, self.lin(s, self.lenv(s, x)), 1)
            return r
        return self.lin(s, self.lenv(s, v))

    def pieces_of(self, s, v):
        """(text before, [pieces appended to it])"""
        t = self.tab[v]
        if t[0] == 'mut' and t[2] == 0 and APPEND.search(str(t[1])) and len(t) >= 5: return t[3], [self.norm(s, t[4])]
        return None

    def on_piece(self, s, x): pass

    # ---- what is written
    def write(self, s, loc, val):
        obj = loc[0]
        if self.quiet or obj not in (self.L, self.LAST) or obj not in s.store or 'n' not in s.mon: return super().write(s, loc, val)
        if obj == self.L:
            tx, el = self.text(s), self.elems(s)
            super().write(s, loc, val)
            if self.elems(s) != el: self.bad(s, 'the list of spans is replaced')
            new = self.text(s)
            if new == tx: return
            got = self.appended(s, new, tx)
            if got is None: return self.bad(s, 'text that was there already is changed')
            for x in got: self.on_piece(s, x)
            return
        at, st = self.attrs(s), self.lastf(s, self.S0)
        super().write(s, loc, val)
        if s.mon['sealed']:
            for x, y in zip(at, self.attrs(s)):
                if x != y and self.isc(self.norm(s, self.eqv(s, x, y))) != 1:
                    self.bad(s, 'text that was added already gets other attributes')
                    break
        if plus(self.lin(s, self.lastf(s, self.S0)), self.lin(s, st), -1) != ({}, 0): self.bad(s, 'the beginning of a span is moved')

    # ---- keeping the state canonical
    def sync(self, s):
        """text and last span agree: forget how that came about"""
        if s.store.get(self.L) is None or 'n' not in s.mon or not s.mon['n']: return
        T = self.mk(('sym', 'text*'))
        tx = self.text(s)
        if self.kind(s) != s.mon['kind']: self.put(s, 'kind', self.kind(s))
        if tx == T or self.tab[tx] == ('s', ''): return
        tl, end = self.textlen(s, tx), self.lin(s, self.lastf(s, self.S1))
        if plus(tl, end, -1) != ({}, 0): return      # not yet
        self.judged += 1
        st = self.lin(s, self.lastf(s, self.S0))
        w = plus(end, st, -1)
        pos = lambda m: any(0 in s.ne.get(x, ()) or s.eq.get(x) for x in m)
        started = self.lin(s, self.lenv(s, T))      # the text there was
        full = s.mon['sealed'] or not w[0] and w[1] > 0 or (w[1] >= 0 and w[0] and all(k > 0 for k in w[0].values()) and pos(w[0]))
        empty = not full and w == ({}, 0)
        some = full or tl[1] > 0 or pos(tl[0])
        a = self.attrs(s)
        bad = s.mon['bad']
        self.rename(s)
        if full: kinds = ['text']
        elif empty: kinds = ['pending attributes']
        else: kinds = None
        if kinds: self.shape(s, kinds[0], a)
        else:
            # with or without text: what is common to both
            self.shape(s, 'text', a)
            L = self.lenv(s, T)
            if not some: s.ne.pop(L, None)
            for x in (('op', 'Eq', self.sym('start*'), L), ('op', 'Eq', L, self.sym('start*'))): s.eq.pop(self.mk(x), None)
        self.put(s, 'bad', bad)

    def rename(self, s):
        """the names of the text there was, where they are still in use, become others"""
        for nm in ('text*', 'start*'):
            old = self.sym(nm) if nm != 'text*' else self.mk(('sym', 'text*'))
            users = [o for o, v in s.store.items() if o not in (self.L, self.LAST) and old in self.subs(v)]
            if not users: continue
            k = 0
            while any(self.sym('%s%d' % (nm, k)) in self.subs(v) for v in s.store.values()): k += 1
            new = self.sym('%s%d' % (nm, k))
            for dd in (s.eq, s.ne):
                for t in [t for t in dd if new in self.subs(t)]: del dd[t]
            memo = {}
            for o in users: s.store[o] = self.replace(s.store[o], old, new, memo)
            for dd in (s.eq, s.ne):
                for t in [t for t in dd if old in self.subs(t)]: dd[self.replace(t, old, new, memo)] = dd[t]

    def replace(self, v, old, new, memo):
        if v == old: return new
        if v in memo: return memo[v]
        if old not in self.subs(v): return v

        def go(x):
            if isinstance(x, V): return self.replace(x, old, new, memo)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        memo[v] = r = self.mk(tuple(go(x) for x in self.tab[v]))
        return r

    def appended(self, s, tx, base):
        """the pieces appended to the base text, or None"""
        out = []
        for _ in range(20):
            if tx == base: return out
            p = self.pieces_of(s, tx)
            if not p: break
            out = p[1] + out
            tx = self.norm(s, p[0])
        if self.isc(self.norm(s, self.lenv(s, base))) == 0: return [tx] + out      # it was empty: replaced by the first piece
        return None

    def close(self, s):
        """at the end of an operation"""
        self.sync(s)
        tl = self.textlen(s, self.text(s))
        if s.mon['n']:
            if plus(self.lin(s, self.lastf(s, self.S1)), tl, -1) != ({}, 0): self.bad(s, 'the last span does not end where the text ends')
        elif tl != ({}, 0): self.bad(s, 'there is text that no span covers')
        return s.mon['bad']

    def on_leave(self, s, fr):
        self.sync(s)
        super().on_leave(s, fr)

    def arrive_head(self, s, fi, old, bb):
        self.sync(s)
        return super().arrive_head(s, fi, old, bb)

    # ---- the list of spans
    def spans(self, s, v):
        t = self.ty(self.cur_args[0]) if getattr(self, 'cur_args', None) else None
        c = self.content(s, v) if self.tab[v][0] in ('ref', 'kref', 'guard') else v
        if self.norm(s, c) == self.ELEMS: return True
        l = None
        if self.tab[v][0] == 'ref':
            o, p = self.deref(s, v)
            return o == self.L and tuple(p) == ((None, self.EI),)
        return False

    # ---- operations that are looked at by themselves
    SETTERS = ('set_style', 'toggle_style', 'activate_style', 'deactivate_style', 'clear_style', 'set_fg_color', 'set_bg_color', 'set_colors', 'reset_all')
    ADDERS = ('append_text', 'add_text')
    own = ()            # the ones that are not looked into here

    def kind(self, s):
        if not s.mon['n']: return 'nothing'
        if self.tab[self.text(s)] == ('s', ''): return 'attributes only'
        return 'text' if s.mon['sealed'] else 'pending attributes'

    def sbits(self, s, v):
        t = style_type(self.d)
        while self.ty(t)['k'] == 'adt':
            v = self.norm(s, self.proj(s, v, (None, 0)))
            t = self.ty(t)['v'][0]['f'][0][1]
        return v

    def style_with(self, s, bits):
        def go(tid):
            ty = self.ty(tid)
            if ty['k'] == 'adt': return self.agg(tid, 0, tuple(go(x[1]) for x in ty['v'][0]['f']))
            return bits
        return go(style_type(self.d))

    def wanted(self, s, name, args):
        """the attributes after this operation"""
        st, fg, bg = self.attrs(s)
        a = [self.norm(s, x) for x in args[1:]]
        op = lambda k, x, y: self.norm(s, self.binop(s, k, self.sbits(s, x), self.sbits(s, y)))
        if name == 'set_style': return a[0], fg, bg
        if name == 'toggle_style': return self.style_with(s, op('BitXor', st, a[0])), fg, bg
        if name == 'activate_style': return self.style_with(s, op('BitOr', st, a[0])), fg, bg
        if name == 'deactivate_style':
            n = self.mk(('op', 'BNot', self.sbits(s, a[0])))
            k = self.isc(self.sbits(s, a[0]))
            if k is not None: n = self.c(~k & 0xffffffff)
            return self.style_with(s, self.norm(s, self.binop(s, 'BitAnd', self.sbits(s, st), n))), fg, bg
        if name == 'clear_style': return style_value(self, 0), fg, bg
        if name == 'set_fg_color': return st, a[0], bg
        if name == 'set_bg_color': return st, fg, a[0]
        if name == 'set_colors': return st, a[0], a[1]
        if name == 'reset_all': return style_value(self, 0), self.none(), self.none()

    def done(self, s, name, args): pass

    def summary(self, s, g, args):
        """the operation has happened"""
        if not g['path'].startswith('liso::line::') or pathtail(g['path']) not in self.own: return None
        if not args or self.tab[args[0]][0] != 'ref' or self.deref(s, args[0]) != (self.L, ()): return None
        name = pathtail(g['path'])
        if g['id'] == s.stack[0][0]: return None
        self.sync(s)
        k = self.kind(s)
        if name in self.SETTERS:
            a = self.wanted(s, name, args)
            if k in ('nothing', 'attributes only'): k2 = 'attributes only'
            else: k2 = 'pending attributes' if a != self.attrs(s) else k
            self.rename(s)
            self.shape(s, k2, a)
            self.done(s, name, args)
            return [(s, args[0])]
        a = self.attrs(s)
        out = []
        x = self.piece(s, args[1])
        n = self.norm(s, self.lenv(s, x))
        if self.isc(n) != 0:
            s2 = s.copy()
            self.rename(s2)
            self.shape(s2, 'text', a)
            if name == 'append_text': self.on_piece(s2, x)
            self.done(s2, name, args)
            out.append((s2, args[0] if name != 'append_text' else self.unit))
        if self.isc(n) in (0, None) and 0 not in s.ne.get(n, ()):
            self.done(s, name, args)
            out.append((s, args[0] if name != 'append_text' else self.unit))
        return out

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if self.own:
            r = self.summary(s, g, args)
            if r is not None: return (self.ret_many(r, dest, target),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def piece(self, s, v):
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 'agg' and len(t[3]) == 1: v = self.norm(s, t[3][0])
        return v

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if args:
            if self.spans(s, args[0]):
                m = re.sub(r'::<.*?>$', '', p)
                m = pathtail(m)
                if m == 'push':
                    self.sync(s)
                    v = self.norm(s, args[1])
                    st = self.lin(s, self.proj(s, v, (None, self.S0)))
                    prev = self.lin(s, self.lastf(s, self.S1)) if s.mon['n'] else ({}, 0)
                    if plus(st, prev, -1) != ({}, 0): self.bad(s, 'a span is added that does not begin where the one before it ends')
                    if s.mon['n'] and self.textlen(s, self.text(s)) != prev: self.bad(s, 'a span is ended before the end of its text')
                    s.store[self.LAST] = v
                    self.put(s, 'n', 1)
                    self.put(s, 'sealed', False)
                    self.quiet = True
                    self.write(s, (self.L, ((None, self.EI),)), self.ELEMS)
                    self.quiet = False
                    s.ne = dict(s.ne)
                    s.ne[self.lenv(s, self.ELEMS)] = frozenset([0])
                    return self.unit
                if m in ('last', 'last_mut'):
                    from models import mkopt
                    return mkopt(self, self.ref(self.LAST) if s.mon['n'] else None, self.cur_dest_ty)
                if m in ('len', 'is_empty'):
                    if not s.mon['n']: return self.c(0 if m == 'len' else 1)
                    return self.lenv(s, self.ELEMS) if m == 'len' else self.c(0)
                if m in ('reserve', 'capacity', 'shrink_to_fit', 'reserve_exact'): return self.unit if m != 'capacity' else self.fresh(s, 'capacity')
                if MUT_VEC.search(p):
                    self.bad(s, 'the spans are changed (%s)' % m)
                    return self.fresh(s, m)
        r = super().model(s, g, args, argtys, dest, target, line)
        return r

    # ---- styles as functions of bits
    def bitfun(self, s, v, leaves, n=5):
        """the value, bit by bit, as a function of the bits of the leaves: a truth table (or None)"""
        v = bits_of(self, s, v)

        def go(v, d):
            v = self.norm(s, v)
            if v in leaves: return {i: tuple((r >> leaves.index(v)) & 1 for r in range(1 << len(leaves))) for i in range(n)}
            t = self.tab[v]
            if t[0] == 'c': return {i: tuple((t[1] >> i) & 1 for r in range(1 << len(leaves))) for i in range(n)}
            if not d or t[0] != 'op': return None
            if t[1] in ('Not', 'BNot'):
                a = go(t[2], d - 1)
                return a and {i: tuple(1 - x for x in a[i]) for i in a}
            if t[1] in ('BitAnd', 'BitOr', 'BitXor'):
                a, b = go(t[2], d - 1), go(t[3], d - 1)
                f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[t[1]]
                return a and b and {i: tuple(f(x, y) for x, y in zip(a[i], b[i])) for i in a}
            return None
        return go(v, 12)

    # ---- running a method
    def method(self, f, args=(), kinds=KINDS):
        """(kind, end) for every end, from each kind of line"""
        out = []
        for k in kinds:
            s = self.line_state(k)
            a = [self.ref(self.L)] + list(args)
            while len(a) < f['argc']: a.append(self.sym('arg%d' % len(a)))
            self.start(s, f['id'], a[:f['argc']], f['path'])
            n = self.steps
            self.exits, self.seen, self.groups, self.panics = [], {}, {}, {}
            for x in self.explore([s]): out.append((k, x))
            self.steps += n
        return out


def plus(a, b, k):
    m = dict(a[0])
    for x, n in b[0].items():
        m[x] = m.get(x, 0) + k * n
        if not m[x]: del m[x]
    return m, a[1] + k * b[1]


def line_method(d, name):
    c = [f for f in d.fns.values() if f['local'] and 'blocks' in f and re.search(r'(Line|<impl liso::line::Line>)::%s$' % name, f['path']) and f['argc'] and is_type(d, f['locals'][1], 'liso::line::Line')]
    c.sort(key=lambda f: f['id'])
    return c[0] if c else None
