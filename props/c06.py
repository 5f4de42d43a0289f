"""Text reaches the terminal in three steps, each decided from the type-checked program.
(a) Into a line. Every public operation that can change a line is interpreted (see C24) and every piece of text appended
    to a line's text must be of one of these: a constant without control characters; the text of another line; a part of
    the argument in which the sanitiser's search has just found no control character (from the end of one match to the
    beginning of the next, or to the end of the text when there is no next match); a stand-in made from a control character
    (its value is computed for each of the 66 control characters the path allows, and must be printable). The search's own
    predicate is interpreted for each of those 66 characters and must hold. Each match must be followed by exactly one
    stand-in, in inverse video, and each part between two matches must be appended. No other function may write a line's
    text or call one of the private operations that append text as it is.
(b) Onto the terminal. Every function that asks a back end to print is interpreted: what is printed must be a part of a
    line's text (or a character of it) that is known to contain no line break.
(c) Around it. No other operation of a back end takes text, no back end stores any, and nothing but the pipe mode and the
    back ends opens standard output."""
from linemodel import *
from edit import Prover
import c24
from c24 import takes_line, touches, opn

# C0 controls (but the line break), DEL, C1 controls, the line and the paragraph separator
UNSAFE = [c for c in range(0x20) if c != 10] + list(range(0x7f, 0xa0)) + [0x2028, 0x2029]


FORMATS = ('new_display', 'new_debug', 'new_upper_hex', 'new_lower_hex', 'new_octal', 'new_binary')


def template(codes):
    """(literal bytes, [flags of each argument]) of a compiled format string"""
    lits, args, i = [], [], 0
    while i < len(codes):
        b = codes[i]
        if b == 0: break
        if b < 128:
            lits += codes[i + 1:i + 1 + b]
            i += 1 + b
        elif b >= 192:
            args.append(b)
            i += 1 + (4 if b & 1 else 0) + (2 if b & 2 else 0) + (2 if b & 4 else 0) + (2 if b & 8 else 0)
        else: return None
    return lits, args


def safe_bytes(bs):
    try: t = bytes(x & 255 for x in bs).decode('utf8')
    except ValueError: return False
    return not any(ord(c) in UNSAFE for c in t)


class Safe(LineE):
    """what is appended to a line's text"""
    own = LineE.SETTERS
    budget = 60
    FROM, UPTO = ('G', 'from'), ('G', 'upto')

    def start_at(self, s):
        self.put(s, 'owed', 0)
        self.put(s, 'due', 0)
        self.put(s, 'search', None)

    def warn(self, w): self.wrong.add(w)

    def content(self, s, v):
        """the searched text and a match are told from the references to them by nothing"""
        if v in (self.sym('match*'), s.mon.get('search')): return v
        return super().content(s, v)

    def through(self, s, v):
        for _ in range(5):
            t = self.tab[v]
            if t[0] in ('ref', 'kref', 'guard'): v = self.norm(s, self.content(s, v))
            elif t[0] == 'agg' and len(t[3]) == 1 and isinstance(t[1], int) and 'Cow' in self.ty(t[1]).get('def', ''): v = self.norm(s, t[3][0])
            elif t[0] == 'call' and opn(t[1]) == 'must_use' and len(t) == 3: v = self.norm(s, t[2])
            else: break
        return v

    # ---- the search for control characters
    def model(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m == 'match_indices' and len(args) == 2:
            self.put(s, 'search', self.through(s, args[0]))
            self.patterns.add(self.norm(s, args[1]))
            s.store[self.UPTO] = self.c(0)
            s.store.pop(self.FROM, None)
            return self.mk(('sym', 'the search'))
        if m == 'next' and len(args) == 1:
            it = self.norm(s, self.content(s, args[0])) if self.tab[args[0]][0] == 'ref' else args[0]
            if it == self.mk(('sym', 'the search')): return self.found(s)
            if self.tab[it][:2] == ('call', 'characters of the match'):
                from models import mkopt
                return mkopt(self, self.sym('ctl*'), self.cur_dest_ty)
        if m in FORMATS and len(args) == 1 and argtys:
            u = argtys[0]
            while isinstance(u, int) and self.ty(u).get('k') == 'ref': u = self.ty(u)['e']
            v = args[0]
            for _ in range(3):
                if self.tab[v][0] == 'ref': v = self.norm(s, self.content(s, v))
            return self.mk(('call', 'fmtarg:%s:%s' % (m, self.ty(u).get('k')), v))
        if m in ('into_iter', 'by_ref', 'peekable') and args and self.norm(s, args[0]) == self.mk(('sym', 'the search')): return args[0]
        if m == 'chars' and args and self.through(s, args[0]) == self.sym('match*'): return self.mk(('call', 'characters of the match', self.sym('match*')))
        return super().model(s, g, args, argtys, dest, target, line)

    def found(self, s):
        from models import mkopt
        if self.dead(s): return []
        self.settle(s, True)
        ty = self.cur_dest_ty
        # the place after the match before is a name
        w = self.lin(s, s.store[self.UPTO])
        U, P, Mt, C = self.sym('upto*'), self.sym('pos*'), self.sym('match*'), self.sym('ctl*')
        for dd in (s.eq, s.ne):
            for t in [t for t in dd if {U, P, Mt, C} & set(self.subs(t))]: del dd[t]
        const = not w[0]
        for o, x in list(s.store.items()):
            x = self.norm(s, x)
            if o in (self.L, self.LAST) or self.tab[x][0] == 'ref': continue
            if o == self.UPTO or not const and self.lin(s, x) == w:
                if not const: s.store[o] = U
            else:
                for y in (U, P, Mt, C): x = self.replace(x, y, self.sym('stale'), {})
                s.store[o] = x
        s.store[self.FROM] = s.store[self.UPTO] if const else U
        self.put(s, 'first', int(const))
        none = s.copy()
        self.put(none, 'at', 'end')
        self.put(none, 'due', 1)
        self.put(s, 'at', 'match')
        self.put(s, 'due', 1)
        self.put(s, 'owed', 1)
        s.store[self.UPTO] = self.binop(s, 'Add', P, self.lenv(s, Mt))
        o = self.ty(ty)['args'][0]
        return [(none, mkopt(self, None, ty)), (s, mkopt(self, self.agg(o, 0, (P, Mt)), ty))]

    def dead(self, s):
        """does this path take a text for empty that cannot be? (a stand-in with letters of its own, or the part between two
        places that are not the same)"""
        for x, v in s.eq.items():
            t = self.tab[x]
            if v or t[0] != 'call' or t[1] != 'len': continue
            u = self.tab[t[2]]
            if u[0] != 'call': continue
            if opn(u[1]) == 'format':
                w = self.tab[self.through(s, u[2])]
                a = self.tab[self.through(s, w[2])] if w[0] == 'call' and opn(w[1]) == 'new' else ('',)
                codes = [self.isc(c) for c in a[3]] if a[0] == 'agg' else [None]
                tp = template(codes) if None not in codes else None
                if tp and tp[0]: return True
            if opn(u[1]) in ('slice', 'index') and s.mon.get('search') and self.norm(s, u[2]) == s.mon['search']:
                r = self.tab[self.norm(s, u[3])]
                if r[0] != 'agg' or not isinstance(r[1], int): continue
                n = self.ty(r[1]).get('def', '').split('::')[-1]
                L = self.lenv(s, s.mon['search'])
                p, q = {'Range': lambda: r[3][:2], 'RangeFrom': lambda: (r[3][0], L), 'RangeTo': lambda: (self.c(0), r[3][0]), 'RangeFull': lambda: (self.c(0), L)}.get(n, lambda: (L, L))()
                p, q = self.norm(s, p), self.norm(s, q)
                for y, k in s.eq.items():
                    z = self.tab[y]
                    if z[0] == 'op' and z[1] == 'Eq' and k == 0 and {z[2], z[3]} == {p, q}: return True
                if self.isc(p) is not None and self.isc(p) in s.ne.get(q, ()): return True
        return False

    def settle(self, s, again=False):
        """before the next match is looked for, and at the end"""
        if s.mon.get('due') and not self.nothing(s): self.warn('text between two control characters is left out')
        if s.mon.get('owed'): self.warn('a control character is left out instead of being replaced')
        self.put(s, 'due', 0)
        self.put(s, 'owed', 0)

    def to(self, s): return self.sym('pos*') if s.mon.get('at') == 'match' else self.lenv(s, s.mon['search'])

    def nothing(self, s):
        a, b = self.norm(s, s.store[self.FROM]), self.norm(s, self.to(s))
        if self.lin(s, a) == self.lin(s, b): return True
        if any(v == 1 and self.tab[t][0] == 'op' and self.tab[t][1] == 'Eq' and {self.tab[t][2], self.tab[t][3]} == {a, b} for t, v in s.eq.items()): return True
        # the part itself was found to be empty
        return any(v == 0 and self.tab[t][0] == 'call' and self.tab[t][1] == 'len' and self.clean(s, self.tab[t][2]) for t, v in s.eq.items())

    def clean(self, s, x):
        """is this the part of the searched text in which nothing was found?"""
        if not s.mon.get('search') or self.FROM not in s.store or not s.mon.get('at'): return False
        t, i = self.tab[x], s.mon['search']
        a, b = self.lin(s, s.store[self.FROM]), self.lin(s, self.to(s))
        if x == i: return a == ({}, 0) and s.mon['at'] == 'end'
        if t[0] != 'call' or opn(t[1]) not in ('slice', 'index') or self.norm(s, t[2]) != i: return False
        r = self.tab[self.norm(s, t[3])]
        if r[0] != 'agg' or not isinstance(r[1], int): return False
        n = self.ty(r[1]).get('def', '').split('::')[-1]
        L = self.lin(s, self.lenv(s, i))
        if n == 'Range': p, q = self.lin(s, r[3][0]), self.lin(s, r[3][1])
        elif n == 'RangeFrom': p, q = self.lin(s, r[3][0]), L
        elif n == 'RangeTo': p, q = ({}, 0), self.lin(s, r[3][0])
        elif n == 'RangeFull': p, q = ({}, 0), L
        else: return False
        return p == a and q == b

    # ---- pieces
    def on_piece(self, s, x):
        if self.dead(s): return
        self.pieces += 1
        x = self.through(s, x)
        t = self.tab[x]
        if t[0] == 's':
            if any(ord(c) in UNSAFE for c in t[1]): self.warn('a constant with a control character is added')
            return
        if self.of_line(s, x): return
        if self.clean(s, x):
            self.cleaned += 1
            if not s.mon['due']: self.warn('text is added twice')
            self.put(s, 'due', 0)
            return
        r = self.standin(s, x)
        if r is None: return self.warn('text is added in which control characters were not looked for (%s)' % self.pp(x)[:600])
        if r == 'number' : return
        self.standins += 1
        if r != 'fine': return self.warn(r)
        if s.mon.get('due') and not self.nothing(s): self.warn('text before a control character is left out')
        self.put(s, 'due', 0)
        if not s.mon.get('owed'): self.warn('a control character is replaced twice')
        self.put(s, 'owed', 0)
        got = self.bitfun(s, self.sbits(s, self.attrs(s)[0]), [self.sym('style0')])
        b = self.inverse.bit_length() - 1
        want = {i: (0, 1) if i != b else (1, 0) for i in range(5)}
        if s.mon.get('base'):       # nothing there yet: the plain style
            want = {i: (0, 0) if i != b else (1, 1) for i in range(5)}
        if got is None or {i: got[i] for i in range(5)} not in (want, {i: (0, 0) if i != b else (1, 1) for i in range(5)} if s.mon.get('k0') == 'nothing' else want): self.warn('the stand-in for a control character is not in inverse video')

    def of_line(self, s, x):
        t = self.tab[x]
        if t[0] == 'call' and opn(t[1]) in ('slice', 'index', 'as_str', 'deref', 'get', 'clone'): return self.of_line(s, self.through(s, t[2]))
        if t[0] == 'fld' and t[2] == 1 and t[3] == 0: return self.of_line(s, t[1])
        if t[0] == 'fld' and t[3] == self.TI: return t[1] in self.lines or self.tab[t[1]][0] == 'deref' and self.tab[t[1]][1] in self.lines
        return False

    def standin(self, s, x):
        t = self.tab[x]
        if t[0] == 'call' and opn(t[1]) in ('format', 'to_string', 'into') and len(t) == 3:
            x = self.through(s, t[2])
            t = self.tab[x]
        if not (t[0] == 'call' and opn(t[1]) in ('new', 'new_v1', 'from_str', 'new_const')): return None
        if opn(t[1]) == 'from_str':
            u = self.tab[self.through(s, t[2])]
            return 'number' if u[0] == 's' and not any(ord(c) in UNSAFE for c in u[1]) else None
        a = self.tab[self.through(s, t[2])]
        b = self.tab[self.through(s, t[3])] if len(t) > 3 else ('agg', 'arr', 0, ())
        if a[0] != 'agg' or b[0] != 'agg': return None
        codes = [self.isc(c) for c in a[3]]
        tp = template(codes) if None not in codes else None
        if tp is None or not safe_bytes(tp[0]): return None if tp is None else 'a stand-in contains a control character'
        made = False
        for y in b[3]:
            u = self.tab[self.norm(s, y)]
            if u[0] != 'call': return None
            kind, what = (u[1].split(':') + ['', ''])[1:3]
            v = self.through(s, u[2])
            if self.sym('ctl*') in self.subs(v): made = True
            if kind in ('new_upper_hex', 'new_lower_hex', 'new_octal', 'new_binary'): continue
            if kind != 'new_display' and kind != 'new_debug': return None
            if kind == 'new_debug' and self.sym('ctl*') in self.subs(v): continue      # escapes what cannot be seen
            if what in ('int', 'uint', 'float', 'bool'): continue
            r = self.shown(s, v)
            if r != 'fine': return r
        return 'fine' if made else 'number'

    def shown(self, s, v):
        """what is shown for each control character that this path allows"""
        C = self.sym('ctl*')
        for c in UNSAFE:
            if not self.allows(s, c): continue
            k = self.value(v, {C: c})
            if k is None: return 'it is not known what is shown instead of a control character'
            if k in UNSAFE or k < 32: return 'U+%04X is shown as another control character' % c
        return 'fine'

    def allows(self, s, c):
        C = self.sym('ctl*')
        for t, k in s.eq.items():
            if C in self.subs(t):
                x = self.value(t, {C: c})
                if x is not None and x != k: return False
        for t, ks in s.ne.items():
            if C in self.subs(t):
                x = self.value(t, {C: c})
                if x is not None and x in ks: return False
        return True

    def value(self, v, env, d=12):
        if v in env: return env[v]
        t = self.tab[v]
        if t[0] == 'c': return t[1]
        if not d: return None
        if t[0] == 'cast':
            x = self.value(t[2], env, d - 1)
            if x is None: return None
            if 'u8' in t[1]: return x & 255
            return x
        if t[0] == 'op':
            a = [self.value(x, env, d - 1) for x in t[2:]]
            if None in a: return None
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y, 'BitAnd': lambda x, y: x & y,
                 'Lt': lambda x, y: int(x < y), 'Le': lambda x, y: int(x <= y), 'Gt': lambda x, y: int(x > y), 'Ge': lambda x, y: int(x >= y), 'Eq': lambda x, y: int(x == y),
                 'Ne': lambda x, y: int(x != y), 'Not': lambda x: int(not x)}.get(t[1])
            return f(*a) if f else None
        return None


class Pred(Sess):
    """the predicate of the search, for one character"""
    def should_inline(self, s, g): return 'blocks' in g

    def model(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        k = self.isc(self.norm(s, self.content(s, args[0]) if args and self.tab[args[0]][0] == 'ref' else args[0])) if args else None
        if m == 'is_control' and k is not None: return self.c(int(k < 32 or 127 <= k < 160))
        if m == 'is_ascii_control' and k is not None: return self.c(int(k < 32 or k == 127))
        if m in ('eq', 'ne') and len(args) == 2:
            j = self.isc(self.norm(s, self.content(s, args[1]) if self.tab[args[1]][0] == 'ref' else args[1]))
            if None not in (j, k): return self.c(int((j == k) == (m == 'eq')))
        return super().model(s, g, args, argtys, dest, target, line)


def predicate(ctx, feat, d, e, pats):
    n = 0
    for p in pats:
        t = e.tab[p]
        f = None
        if t[0] == 'agg' and isinstance(t[1], int): f = next((g for g in d.fns.values() if 'blocks' in g and g['argc'] == 2 and (g['locals'][1] == t[1] or d.types[g['locals'][1]].get('k') == 'ref' and d.types[g['locals'][1]]['e'] == t[1])), None)
        elif t[0] == 'fn' and 'blocks' in d.fns.get(t[1], {}): f = d.fns[t[1]]
        if f is None:
            ctx.bad(feat + ':search', 'control characters are looked for by something else than a predicate of the crate (%s)' % e.pp(p)[:60])
            continue
        missed = []
        for c in UNSAFE:
            x = Pred(d)
            s = mkstate()
            s.mon = {}
            x.start(s, f['id'], ([x.sym('closure')] if f['argc'] == 2 else []) + [x.c(c)], f['path'])
            rs = {x.isc(x.norm(y, y.user['ret'])) for y in x.explore([s]) if y.exit[0] == 'return'}
            n += 1
            if rs != {1}: missed.append(c)
        ctx.ob(not missed, feat + ':search', 'the search finds every control character', 'the search for control characters passes over %s' % ', '.join('U+%04X' % c for c in missed[:4]))
    ctx.counts[feat + ': control characters tried'] = n
    ctx.floor(feat + ': searches for control characters', len(pats), 1)


def into_lines(ctx, feat, d):
    e0 = Safe(d)
    if not e0.anchored: return ctx.bad(feat + ':line', 'the type of lines has another shape than text and spans of a style, two colours and a range')
    public = set(d.raw['public'])
    inverse = next((b for n, b in style_bits(d).items() if n.upper() in ('INVERSE', 'REVERSE')), None)
    if inverse is None: return ctx.bad(feat + ':inverse', 'there is no inverse style')
    inner, outer = c24.rewriters(d)
    visited, pats, tot = set(), set(), [0, 0, 0]
    for f in sorted(d.fns.values(), key=lambda f: f['id']):
        if not (f['local'] and 'blocks' in f) or '{closure' in f['path']: continue
        i = takes_line(e0, f)
        if i is None or f['id'] in inner | outer: continue
        name = pathtail(f['path'])
        if f['path'] not in public: continue
        e = Safe(d)
        if name == 'add_ansi_text' or name == 'append_line': e.own = LineE.SETTERS + ('add_text',)
        e.wrong, e.patterns, e.pieces, e.cleaned, e.standins, e.lines, e.inverse = set(), set(), 0, 0, 0, set(), inverse
        args = []
        for j in range(1, f['argc'] + 1):
            t = f['locals'][j]
            u = d.types[t]
            if j == i: args.append(e.ref(e.L))
            elif is_type(d, t, 'liso::Style'): args.append(style_sym(e, 'arg'))
            elif is_type(d, t, 'liso::line::Line') or u.get('k') == 'adt' and u.get('def') == 'liso::line::Line':
                args.append(e.sym('other'))
                e.lines.add(e.sym('other'))
            else: args.append(e.sym('arg%d' % j))
        if name == 'add_ansi_text': run_coarse(e, f, args)
        else:
            for k in e.KINDS:
                s = e.line_state(k)
                e.put(s, 'k0', k)
                e.start_at(s)
                e.start(s, f['id'], args, f['path'])
                e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
                for x in e.explore([s]):
                    if x.exit[0] == 'return' and not e.dead(x): e.settle(x)
        visited |= e.visited_fns
        pats |= {(d, e, p) for p in e.patterns}
        for a, b in enumerate((e.pieces, e.cleaned, e.standins)): tot[a] += b
        key = '%s:%s' % (feat, name)
        for w in sorted(e.wrong): ctx.bad(key + ':' + re.sub(r'[^a-z]+', '-', w.lower())[:50], '%s: %s' % (f['path'], w))
        ctx.ob(not e.wrong, key, 'only text without control characters is added', 'see above')
        ctx.engine_stats('%s %s %d' % (feat, name, f['id']), e)
    predicate_all(ctx, feat, d, pats)
    for n, k, least in (('pieces of text added', 0, 6), ('searched parts added', 1, 3), ('stand-ins added', 2, 2)): ctx.floor('%s: %s' % (feat, n), tot[k], least)
    # text that is rewritten
    for i in sorted(inner):
        f = d.fns[i]
        r = Rewrite(d)
        s = r.begin(e0, r.sym('a'), r.sym('b'))
        r.texts = set()
        li = takes_line(e0, f)
        args = [r.ref(r.L) if j == li else r.agg(f['locals'][j], 0, (r.sym('a'), r.sym('b'))) if d.types[f['locals'][j]].get('def', '').endswith('::Range') else r.sym('arg%d' % j) for j in range(1, f['argc'] + 1)]
        r.start(s, f['id'], args, f['path'])
        list(r.explore([s]))
        visited |= r.visited_fns
        for w in r.texts: ctx.ob(w is not None and not any(ord(c) in UNSAFE for c in w), '%s:%s' % (feat, pathtail(f['path'])), 'a range is replaced by a constant without control characters', '%s replaces text of a line by %s' % (f['path'], 'something that is not known to be free of control characters' if w is None else repr(w)))
        ctx.floor('%s: replacements in %s' % (feat, pathtail(f['path'])), len(r.texts), 1)
    visited |= outer
    # nobody else
    private = {f['id'] for f in d.fns.values() if f['local'] and f['id'] in visited and f['path'] not in public and takes_line(e0, f) is not None and f['id'] not in inner | outer}
    for f in sorted(d.fns.values(), key=lambda f: f['id']):
        if not (f['local'] and 'blocks' in f) or f['id'] in visited: continue
        if touches(e0, f): ctx.bad('%s:touches:%s' % (feat, pathtail(f['path'])), '%s changes the fields of a line, apart from the operations of lines' % f['path'])
        if c24.builds(e0, f):
            why = c24.built(d, f)
            ctx.ob(why is None, '%s:built:%s' % (feat, re.sub(r'[^a-z_]+', '-', pathtail(f['path']).lower())), 'lines begin empty or as copies', '%s makes a line of %s' % (f['path'], why))
        for _, t in f['blocks']:
            if t[0] == 'call' and c24.callee(d, t) in private: ctx.bad('%s:raw:%s' % (feat, pathtail(f['path'])), '%s adds text to a line as it is (%s)' % (f['path'], pathtail(d.fns[c24.callee(d, t)]['path'])))


def predicate_all(ctx, feat, d, pats):
    by = {}
    for _, e, p in pats: by.setdefault(e.pp(p) + str(e.tab[p][1]), (e, p))
    n = 0
    for e, p in by.values(): predicate(ctx, feat, d, e, [p])
    ctx.floor(feat + ': searches for control characters', len(by), 1)


def run_coarse(e, f, args):
    class C(type(e)):
        pass
    e.__class__ = type('Coarse', (type(e),), {'arrive_head': coarse_head})
    e.budget, e.entry_budget = 6, 4
    for k in e.KINDS:
        s = e.line_state(k)
        e.put(s, 'k0', k)
        e.start_at(s)
        e.start(s, f['id'], args, f['path'])
        e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
        for x in e.explore([s]):
            if x.exit[0] == 'return' and not e.dead(x): e.settle(x)


def coarse_head(self, s, fi, old, bb):
    self.sync(s)
    k = s.mon['kind']
    if self.text(s) == self.mk(('sym', 'text*')) or self.tab[self.text(s)] == ('s', ''):
        for o, v in list(s.store.items()):
            if o[0] == 'L' and not any(self.tab[x][0] == 'ref' for x in self.subs(v)): s.store[o] = self.sym('any %s %s' % (o[1], o[2]))
        s.eq, s.ne = {}, {}
        self.rename(s)
        self.shape(s, k, self.attrs0())
    return LineE.arrive_head(self, s, fi, old, bb)


class Rewrite(c24.Erase):
    def model(self, s, g, args, argtys, dest, target, line):
        if opn(g['path']) == 'replace_range' and len(args) == 3:
            w = self.norm(s, args[2])
            for _ in range(3):
                if self.tab[w][0] in ('ref', 'kref'): w = self.norm(s, self.content(s, w))
            self.texts.add(self.tab[w][1] if self.tab[w][0] == 's' else None)
        return super().model(s, g, args, argtys, dest, target, line)


# ---------------------------------------------------------------- (b)
class Out(Prover, Sess):
    replace = LineE.replace
    """what is printed contains no line break"""
    budget = 40
    split_heads = True
    max_steps = 300000
    CLEAN, TXT = ('G', 'clean'), ('G', 'txt')

    def should_inline(self, s, g): return 'blocks' in g and g['local'] and g['id'] not in self.backend

    def put(self, s, k, x):
        if s.mon.get(k) != x:
            s.mon = dict(s.mon)
            s.mon[k] = x

    def known_facts(self, s):
        c, l, i = self.sym('clean*'), self.sym('later*'), self.sym('idx*')
        return [({l: 1, c: -1}, 0), ({i: 1, l: -1}, 0), ({c: 1}, 0), ({i: 1, c: -1}, 0)]

    def through(self, s, v):
        for _ in range(5):
            if self.tab[v][0] in ('ref', 'kref', 'guard'): v = self.norm(s, self.content(s, v))
            else: break
        return v

    def newline(self, s, ch):
        """is this character known (not) to be a line break?"""
        if self.isc(ch) is not None: return self.isc(ch) == 10
        if s.eq.get(ch) is not None: return s.eq[ch] == 10
        if 10 in s.ne.get(ch, ()): return False
        for t, v in s.eq.items():
            u = self.tab[t]
            if u[0] == 'op' and u[1] in ('Eq', 'Ne') and set(u[2:4]) == {ch, self.c(10)}: return (u[1] == 'Eq') == bool(v)
        return None

    def origin(self, s, v, k=10):
        t = self.tab[v]
        if not k: return None
        if t[0] == 'call' and opn(t[1]) in ('chars', 'char_indices') and len(t) > 2: return t[2]
        if t[0] == 'mut' and opn(t[1]) in ('next',): return self.origin(s, t[3], k - 1)
        if t[0] == 'call' and opn(t[1]) in ('into_iter', 'by_ref') and len(t) > 2: return self.origin(s, t[2], k - 1)
        if t[0] == 'phi':
            for _, _, _, y in self.phis.get(v, ()):
                if y != v:
                    r = self.origin(s, y, k - 1)
                    if r is not None: return r
        return None

    def hook_call(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m in ('char_indices',) and len(args) == 1:
            s.store[self.TXT] = self.through(s, args[0])
            self.put(s, 'at', None)
            s.store[self.CLEAN] = self.c(0)
            return (self.ret(s, dest, target, self.sym('the characters')),)
        if m == 'into_iter' and len(args) == 1 and self.norm(s, args[0]) == self.sym('the characters'): return (self.ret(s, dest, target, args[0]),)
        if m == 'next' and len(args) == 1 and self.tab[args[0]][0] == 'ref' and self.norm(s, self.content(s, args[0])) == self.sym('the characters'):
            return (self.ret_many(self.step(s), dest, target),)
        if g['kind'] == 'virtual' and 'Term::' in g['path']:
            if m == 'print': self.prints(s, self.norm(s, args[1]))
            if m == 'print_char': self.prints_char(s, self.norm(s, args[1]))
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def gc(self, s):
        # what is known of the character is forgotten with the last variable that holds it
        if s.mon.get('at') == 'char':
            nl = self.newline(s, self.sym('ch*'))
            if nl is not None: self.put(s, 'nl', nl)
        super().gc(s)

    def txt(self, s): return self.norm(s, s.store[self.TXT]) if self.TXT in s.store else None

    def place(self, x, seen=()):
        """can this be a place in the text (and not, say, a reference or an iterator)?"""
        t = self.tab[x]
        if t[0] in ('c', 'op', 'sym'): return True
        if t[0] == 'phi' and x not in seen: return any(self.place(y, seen + (x,)) for _, _, _, y in self.phis.get(x, ()))
        return False

    def step(self, s):
        from models import mkopt
        ty = self.cur_dest_ty
        C, L, I, H = self.sym('clean*'), self.sym('later*'), self.sym('idx*'), self.sym('ch*')
        C2, L2 = self.sym('clean new'), self.sym('later new')
        nl = None
        clean = self.norm(s, s.store[self.CLEAN])
        if s.mon.get('at') == 'char':
            nl = self.newline(s, H)
            if nl is None: nl = s.mon.get('nl')
            if nl is not False: clean = self.binop(s, 'Add', I, self.c(1))
        cl, old = self.lin(clean), self.lin(self.norm(s, s.store[self.CLEAN]))
        for o, x in list(s.store.items()):
            x = self.norm(s, x)
            if self.tab[x][0] in ('ref', 'agg'): continue
            l = self.lin(x)
            if o == self.CLEAN or l == cl: x = C2
            elif s.mon.get('at') == 'char' and nl is False and (x == I or x == L): x = L2
            elif cl != old and any(self.tab[y][0] == 'phi' for y in self.subs(x)) and self.place(x):
                # carried by a loop: what was known of it was about the place before
                x = L2 if self.ge0(s, self.plus(l, cl, -1)) else self.sym('stale')
            else:
                for y in (C, L, I, H): x = self.replace(x, y, self.sym('stale'), {})
            s.store[o] = x
        for dd in (s.eq, s.ne):
            for t in [t for t in dd if {C, L, I, H} & set(self.subs(t))]: del dd[t]
        for o, x in list(s.store.items()):
            if C2 in self.subs(x) or L2 in self.subs(x): s.store[o] = self.replace(self.replace(x, C2, C, {}), L2, L, {})
        self.put(s, 'nl', None)
        none = s.copy()
        self.put(none, 'at', 'end')
        self.put(s, 'at', 'char')
        return [(none, mkopt(self, None, ty)), (s, mkopt(self, self.agg(self.ty(ty)['args'][0], 0, (I, H)), ty))]

    def prints(self, s, x):
        self.printed += 1
        x = self.through(s, x)
        t = self.tab[x]
        if t[0] == 's':
            if any(ord(c) in UNSAFE or c == '\n' for c in t[1]): self.wrong.add('a constant with a control character is printed')
            return
        if not self.from_line(s, x): self.wrong.add('text is printed that is not from a line')
        if self.piece_of_split(s, x): return
        if t[0] == 'call' and opn(t[1]) in ('slice', 'index') and self.norm(s, t[2]) == self.txt(s):
            a, b = self.bounds(self.norm(s, t[3]), t[2])
        elif x == self.txt(s): a, b = self.c(0), self.lenterm(x)
        else: a = b = None
        if a is None: return self.wrong.add('text is printed without looking for line breaks in it')
        a, b = self.norm(s, a), self.norm(s, b)
        c = self.norm(s, s.store[self.CLEAN])
        if not self.ge0(s, self.plus(self.lin(a), self.lin(c), -1)): self.wrong.add('text is printed that can contain a line break (from its beginning)')
        end = s.mon.get('at')
        okay = end == 'end' or end == 'char' and self.ge0(s, self.plus(self.lin(self.sym('idx*')), self.lin(b), -1)) or \
            end == 'char' and self.newline(s, self.sym('ch*')) is False and self.ge0(s, self.plus(self.plus(self.lin(self.sym('idx*')), self.lin(b), -1), ({}, 1), 1))
        if not okay: self.wrong.add('text is printed that can contain a line break (at its end)')

    def prints_char(self, s, ch):
        self.printed += 1
        k = self.isc(ch)
        if k is not None:
            if k in UNSAFE or k == 10: self.wrong.add('a control character is printed')
            return
        if self.newline(s, ch) is not False: self.wrong.add('a line break can be printed as a character')
        t = self.tab[ch]
        okay = ch == self.sym('ch*') or t[0] == 'fld' and (t[1] in self.chars or self.is_linechar(t))
        if not okay: self.wrong.add('a character is printed that is not from a line (%s)' % self.pp(ch)[:50])

    def is_linechar(self, t):
        # the item of an iterator over a line
        u = self.tab[t[1]]
        while u[0] in ('fld', 'deref'):
            u = self.tab[u[1]]
        return u[0] == 'call' and opn(u[1]) == 'next' and 'LineCharIterator' in str(u[1])

    def from_line(self, s, x):
        return any(self.tab[y][0] == 'fld' and self.tab[y][3] == self.m.TI and (self.tab[y][1] in self.lines or self.tab[self.tab[y][1]][0] == 'deref' and self.tab[self.tab[y][1]][1] in self.lines) for y in self.subs(x))

    def piece_of_split(self, s, x):
        for y in self.subs(x):
            t = self.tab[y]
            if t[0] == 'call' and opn(t[1]) == 'lines' or t[0] == 'call' and opn(t[1]) in ('split', 'split_terminator') and len(t) > 3 and self.isc(t[3]) == 10: return True
        return False


def onto_terminal(ctx, feat, d):
    m = LineE(d)
    backend = {f['id'] for f in d.fns.values() if f['local'] and re.search(r' as (liso::)?term::Term>|^liso::term::(cross|vt52)::', f['path'])}
    todo = []
    callers = {}
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f) or f['id'] in backend: continue
        for _, t in f['blocks']:
            if t[0] != 'call': continue
            g = d.fns.get(c24.callee(d, t))
            if g is None: continue
            callers.setdefault(g['id'], set()).add(f['id'])
            if g['kind'] == 'virtual' and 'Term::' in g['path'] and pathtail(g['path']) in ('print', 'print_char'): todo.append(f['id'])
    todo = sorted(set(todo))
    ctx.floor(feat + ': functions that print', len(todo), 1)
    n = 0
    done = set()
    level = 0
    while todo and level < 4:
        nxt = []
        for i in todo:
            if i in done: continue
            done.add(i)
            f = d.fns[i]
            e = Out(d)
            e.prover_init()
            e.backend, e.m, e.wrong, e.printed, e.lines, e.chars = backend, m, set(), 0, set(), set()
            args = []
            for j in range(1, f['argc'] + 1):
                t = f['locals'][j]
                u = d.types[t]
                a = e.sym('arg%d' % j)
                args.append(a)
                if is_type(d, t, 'liso::line::Line') or u.get('def') == 'liso::line::Line': e.lines.add(a)
                if is_type(d, t, 'liso::line::LineChar') or u.get('def') == 'liso::line::LineChar':
                    e.chars.add(a)
                    e.chars.add(e.mk(('deref', a)))
            s = mkstate()
            s.mon = {}
            e.start(s, f['id'], args, f['path'])
            for x in e.explore([s]): pass
            n += e.printed
            ctx.engine_stats('%s %s' % (feat, f['path']), e)
            if not e.wrong:
                ctx.ob(True, '%s:print:%s' % (feat, pathtail(f['path'])), 'what is printed is from a line and has no line break', '')
                continue
            up = sorted(c for c in callers.get(i, ()) if c not in done)
            params = any(d.types[f['locals'][j]].get('k') in ('char', 'str') or d.types[f['locals'][j]].get('k') == 'ref' and d.types[d.types[f['locals'][j]]['e']].get('k') == 'str' for j in range(1, f['argc'] + 1))
            if up and level < 3 and params: nxt += up          # depends on who calls it
            else:
                for w in sorted(e.wrong): ctx.bad('%s:print:%s:%s' % (feat, pathtail(f['path']), re.sub(r'[^a-z]+', '-', w.lower())[:40]), '%s: %s' % (f['path'], w))
        todo = nxt
        level += 1
    ctx.floor(feat + ': printing judged', n, 3)


# ---------------------------------------------------------------- (c)
def textual(d, t, seen=None):
    """does a value of this type hold text?"""
    seen = seen if seen is not None else set()
    if t in seen or not isinstance(t, int): return False
    seen.add(t)
    u = d.types[t]
    if not u: return False
    k = u.get('k')
    if k in ('str', 'char'): return True
    if k in ('ref', 'ptr', 'slice', 'array'): return textual(d, u.get('e'), seen)
    if k == 'tuple': return any(textual(d, x, seen) for x in u.get('a', u.get('f', ())) if isinstance(x, int))
    if k == 'adt':
        n = u.get('def', '')
        if n.endswith('String') or n in ('liso::line::Line', 'liso::line::LineChar'): return True
        if n.startswith('liso::') or n.startswith('std::option') or n.startswith('std::vec') or n.startswith('std::boxed'):
            return any(textual(d, x[1], seen) for v in u.get('v', ()) for x in v['f']) or any(textual(d, a, seen) for a in u.get('args', ()))
    return False


def around(ctx, feat, d):
    n = 0
    for im in d.impls:
        if not im['trait'].endswith('Term'): continue
        t = d.types[im['self']]
        for v in t.get('v', ()):
            for fl in v['f']:
                n += 1
                ctx.ob(not textual(d, fl[1]) or d.types[fl[1]].get('def', '').startswith('std::io'), '%s:stored:%s' % (feat, fl[0]), 'a back end stores no text', 'the back end %s stores text (%s)' % (t.get('def'), fl[0]))
        for nm, p in im['methods']:
            for f in d.fns.values():
                if f['path'] == p and 'blocks' in f:
                    for j in range(2, f['argc'] + 1):
                        n += 1
                        if textual(d, f['locals'][j]): ctx.ob(pathtail(nm) in ('print', 'print_char'), '%s:takes:%s' % (feat, pathtail(nm)), 'only print and print_char take text', '%s takes text' % f['path'])
                    break
    ctx.floor(feat + ': fields and parameters of back ends', n, 12)
    opens = 0
    for f in sorted(d.fns.values(), key=lambda f: f['id']):
        if not (f['local'] and 'blocks' in f): continue
        used, prints = set(), False
        for _, t in f['blocks']:
            if t[0] != 'call': continue
            g = d.fns.get(c24.callee(d, t))
            if g is None: continue
            p = re.sub(r'<.*?>', '', g['path'])
            if re.search(r'^std::io::(stdio::)?_print$', p): prints = True
            if re.search(r'^std::io::(stdio::)?stdout$', p): used.add('')
            elif any(a[0] in ('copy', 'move') and stdoutish(d, f['locals'][a[1][0]]) for a in t[2]): used.add(pathtail(g['path']))
        if not used and not prints: continue
        opens += 1
        key = '%s:opens:%s' % (feat, re.sub(r'[^a-z_]+', '-', '-'.join(f['path'].split('::')[-2:]).lower()))
        if re.search(r'::pipe_worker|^<?liso::term::', f['path']):
            ctx.ob(True, key, 'standard output is opened by the pipe mode and the back ends', '')
            continue
        rest = used - {'', 'is_tty', 'is_terminal', 'as_raw_fd', 'as_fd'}
        ctx.ob(not rest, key, 'apart from them, it is only asked what it is', '%s writes to standard output (%s)' % (f['path'], ', '.join(sorted(rest))))
        if prints:
            e = Printed(d)
            e.said = []
            s = mkstate()
            s.mon = {}
            e.start(s, f['id'], [e.sym('arg%d' % j) for j in range(1, f['argc'] + 1)], f['path'])
            list(e.explore([s]))
            ctx.ob(e.said and all(e.said), key + ':print', 'what is printed past the back ends is a constant without control characters', '%s prints something that is not a constant without control characters' % f['path'])
    ctx.floor(feat + ': functions that open standard output', opens, 2)


def stdoutish(d, t):
    for _ in range(3):
        if not isinstance(t, int): return False
        u = d.types[t]
        if not u: return False
        if u.get('k') == 'ref': t = u['e']
    return 'Stdout' in d.types[t].get('def', '') if isinstance(t, int) and d.types[t] else False


class Printed(Sess):
    """what a function gives to print!, by itself"""
    budget = 10

    def should_inline(self, s, g): return False

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if re.search(r'^std::io::(stdio::)?_print$', g['path']):
            u = self.tab[self.norm(s, args[0])]
            okay = False
            if u[0] == 'call' and opn(u[1]) in ('from_str', 'new_const', 'new') and len(u) > 2:
                w = u[2]
                for _ in range(3):
                    if self.tab[w][0] in ('ref', 'kref'): w = self.norm(s, self.content(s, w))
                w = self.tab[w]
                okay = w[0] == 's' and not any(ord(c) in UNSAFE for c in w[1])
            self.said.append(okay)
        return super().hook_call(s, g, args, argtys, dest, target, line)


def check(ctx):
    for feat in ('default', 'all'):
        d = ctx.dump(feat)
        into_lines(ctx, feat, d)
        onto_terminal(ctx, feat, d)
        around(ctx, feat, d)
