"""Four tables and what is done with them, decided by abstract interpretation of the type-checked program.
(a) Every style and colour operation of a line is interpreted from a line in each kind of state (nothing yet, attributes
    only, attributes for text to come, text) with arbitrary attributes and arguments; the attributes at every end must be
    the named function of those before (style bits compared as truth tables over the old bit and the argument's bit).
(b) A witness program that uses each keyword of liso!/liso_add!/color! (every colour in both spellings, none, every style
    set, added, removed and toggled, plain, reset, and in every position of a list) is given to the compiler against the
    crate as built; the operations it expands to are read from its MIR and interpreted on a line with arbitrary
    attributes; the text that is added and the attributes it gets must be those the keyword names.
(c) The ANSI parser is interpreted in lockstep with a reference reader of SGR parameters: wherever it takes a parameter,
    that parameter is each code of the table, an operand, or any other code; before the next one is taken, exactly the
    change named by the code must have been made (none for codes that are not in the table, and for operands).
(d) The conversions to the terminal library's colours and attribute sets are interpreted for every colour and for every
    combination of style bits; each gives the attribute of that name.
(e) Every colour number that a VT52 back end sends is a constant or from a table, all below the palette's size."""
from linemodel import *
from c17 import Attr, creations, run_new, good, arrange, trial, config
from witness import dump_witness

KEYWORDS = ('bold', 'dim', 'underline', 'inverse', 'reverse', 'italic')
COLOURS = ('black', 'red', 'green', 'yellow', 'blue', 'cyan', 'magenta', 'white')
# meaning of an SGR code
SGR = {0: 'reset', 1: '+bold', 2: '+dim', 3: '+italic', 4: '+underline', 7: '+inverse', 21: '-bold', 22: '-bold -dim', 23: '-italic', 24: '-underline', 27: '-inverse', 39: 'fg=none', 49: 'bg=none'}
for i, c in enumerate(('black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white')):
    SGR[30 + i], SGR[40 + i] = 'fg=' + c, 'bg=' + c


class Meaning:
    """what a keyword does to (style bits, foreground, background)"""
    def __init__(self, d):
        self.bits = {n.lower(): b for n, b in style_bits(d).items()}
        self.cols = {n.lower(): x for n, x in colors(d).items()}

    def bit(self, n): return self.bits[n]

    def want(self, e, s, words, at):
        """words applied to attributes (style, fg, bg) as terms"""
        st, fg, bg = at
        for w in words.split():
            if w == 'reset': st, fg, bg = style_value(e, 0), e.none(), e.none()
            elif w == 'plain': st = style_value(e, 0)
            elif w[:3] in ('fg=', 'bg='):
                v = e.none() if w[3:] == 'none' else e.agg(e.OPT, 1, (color_value(e, self.cols[w[3:]]),))
                if w[0] == 'f': fg = v
                else: bg = v
            else:
                k, n = (w[0], w[1:]) if w[0] in '+-^' else ('', w)
                b = e.c(self.bit(n))
                o = e.sbits(s, st)
                if k == '': x = b
                elif k == '-': x = e.binop(s, 'BitAnd', o, e.c(~self.bit(n) & 0xffffffff))
                else: x = e.binop(s, {'+': 'BitOr', '^': 'BitXor'}[k], o, b)
                st = e.style_with(s, e.norm(s, x))
        return st, fg, bg


def same(e, s, a, b, leaves=()):
    a, b = e.norm(s, a), e.norm(s, b)
    if a == b or e.isc(e.norm(s, e.eqv(s, a, b))) == 1: return True
    if e.tab[a][0] == 'agg' and e.tab[b][0] == 'agg' and e.tab[a][2] == e.tab[b][2] and len(e.tab[a][3]) == len(e.tab[b][3]) and e.ty(e.OPT) and e.tab[a][1] == e.OPT:
        return all(same(e, s, x, y) for x, y in zip(e.tab[a][3], e.tab[b][3]))
    return False


def known_equal(e, s, a, b):
    """on this path the two are equal"""
    pairs = {(a, b), (b, a)}
    return any(k == 1 and e.tab[t][0] == 'op' and e.tab[t][1] == 'Eq' and (e.tab[t][2], e.tab[t][3]) in pairs for t, k in s.eq.items())


def differences(e, s, got, want, leaves):
    out = []
    g, w = e.sbits(s, got[0]), e.sbits(s, want[0])
    fg, fw = e.bitfun(s, g, leaves), e.bitfun(s, w, leaves)       # the five styles there are
    if not (g == w or fg is not None and fg == fw or known_equal(e, s, g, w) or same(e, s, got[0], want[0]) or assumed(e, s, g, w, leaves)): out.append('style')
    for i, n in ((1, 'foreground'), (2, 'background')):
        if not same(e, s, got[i], want[i]): out.append(n)
    return out


def assumed(e, s, g, w, leaves):
    """equal under the equalities of this path (x = y where x and y are terms over the leaves)"""
    import itertools as it
    n = len(leaves)
    rows = [set(range(1 << n)) for _ in range(5)]
    for t, k in s.eq.items():
        tt = e.tab[t]
        if k == 1 and tt[0] == 'op' and tt[1] == 'Eq':
            a, b = e.bitfun(s, tt[2], leaves), e.bitfun(s, tt[3], leaves)
            if a and b:
                for i in range(5): rows[i] = {r for r in rows[i] if a[i][r] == b[i][r]}
    fg, fw = e.bitfun(s, g, leaves), e.bitfun(s, w, leaves)
    return bool(fg and fw) and all(fg[i][r] == fw[i][r] for i in range(5) for r in rows[i])


# ---------------------------------------------------------------- (a)
def methods(ctx, feat, d, m):
    e = LineE(d)
    if not e.anchored: return ctx.bad(feat + ':line', 'the type of lines has another shape than text and spans of a style, two colours and a range')
    for name in e.SETTERS:
        f = line_method(d, name)
        if f is None:
            ctx.bad('%s:method:%s' % (feat, name), 'there is no Line::%s' % name)
            continue
        args = []
        for i in range(2, f['argc'] + 1):
            args.append(style_sym(e, 'arg') if is_type(d, f['locals'][i], 'liso::Style') else e.sym('colour%d' % i))
        ends = 0
        for k, x in e.method(f, args):
            key = '%s:method:%s' % (feat, name)
            if x.exit[0] != 'return':
                if 'overflow' not in str(x.exit[1][:2]): ctx.bad(key + ':panics', 'Line::%s can panic: %s' % (name, str(x.exit[1])[:100]))
                continue
            ends += 1
            y = e.line_state(k)
            want = e.wanted(y, name, [e.ref(e.L)] + args)
            diff = differences(e, x, e.attrs(x), want, [e.sym('style0'), e.sym('arg')])
            ctx.ob(not diff, key, 'does to the attributes what its name says', 'Line::%s can leave another %s active than its name says (%s)' % (name, ' and '.join(diff), k))
        ctx.floor('%s: ends of Line::%s' % (feat, name), ends, 4)
    for name in ('get_style', 'get_colors'):
        f = line_method(d, name)
        if f is None: continue
        for k, x in e.method(f):
            if x.exit[0] != 'return': continue
            y = e.line_state(k)
            at, v = e.attrs(y), e.norm(x, x.user['ret'])
            if name == 'get_style': okay = same(e, x, v, at[0])
            else: okay = all(same(e, x, e.proj(x, v, (None, i)), at[1 + i]) for i in (0, 1))
            ctx.ob(okay, '%s:method:%s' % (feat, name), 'gives the active attributes', 'Line::%s can give something else than the active attributes (%s)' % (name, k))
    ctx.engine_stats(feat + ': Line', e)


# ---------------------------------------------------------------- (b)
def witness_text():
    fns, n = [], 0

    def add(items, kind='liso'):
        nonlocal n
        src = ', '.join(i if not i.startswith('"') else i for i in items)
        if kind == 'liso': fns.append((n, list(items), 'pub fn w%d() -> liso::Line { liso!(%s) }' % (n, src)))
        elif kind == 'trail': fns.append((n, list(items), 'pub fn w%d() -> liso::Line { liso!(%s,) }' % (n, src)))
        elif kind == 'plain': fns.append((n, list(items), 'pub fn w%d() -> liso::Line { liso!(%s) }' % (n, src.replace(', "', ' "', 1))))
        else: fns.append((n, list(items), 'pub fn w%d(line: &mut liso::Line) { liso_add!(line, %s); }' % (n, src)))
        n += 1
    words = ['reset', 'plain'] + [p + k for k in KEYWORDS for p in ('', '+', '-', '^')]
    for c in COLOURS + ('none',):
        for g in ('fg', 'bg'):
            words.append('%s = %s' % (g, c))
            if c != 'none':
                words.append('%s = %s' % (g, c.capitalize()))
                words.append('%s = Some(liso::Color::%s)' % (g, c.capitalize()))
    for w in words:
        add([w], 'add')
        add([w, '"a"'], 'add')
        add(['"a"', w, '"b"'], 'add')
        add([w])
        add(['+bold', 'fg = red', '"a"', w, '"b"', '^italic', 'bg = blue', '"c"'])
        add([w, '"x"'], 'trail')
    for a in ('bold', '+dim', '-italic', '^inverse', 'plain'):
        for b in ('underline', '+reverse', 'fg = green', 'reset', '"t"'): add([a, b], 'add')
    return fns, '#![allow(unused)]\nuse liso::{liso, liso_add};\n' + '\n'.join(x[2] for x in fns) + '\n'


def word(item):
    m = re.match(r'(fg|bg) = (?:Some\(liso::Color::)?(\w+)', item)
    return '%s=%s' % (m.group(1), m.group(2).lower()) if m else item


def macros(ctx, feat, d, m):
    fns, text = witness_text()
    w, err = dump_witness(feat, text)
    if w is None: return ctx.bad(feat + ':macros', 'a program that uses the documented keywords is not accepted: ' + err[-300:])
    e = LineE(d)
    by = {f['path'].split('::')[-1]: f for f in w.fns.values() if f['path'].startswith('witness::w') and 'blocks' in f}
    n = 0
    for i, items, src in fns:
        f = by.get('w%d' % i)
        label = ' '.join(items)[:60]
        if f is None:
            ctx.bad('%s:macros:missing' % feat, 'the witness %s is not in the program' % label)
            continue
        fresh = src.find('liso!(') >= 0 and 'liso_add' not in src
        tr = trace(e, w, f)
        if isinstance(tr, str):
            ctx.bad('%s:macros:%s' % (feat, keyof(items)), 'what `%s` expands to cannot be read: %s' % (label, tr))
            continue
        s = e.line_state('nothing' if fresh else 'text')
        exp, at = [], e.attrs(s)
        for it in items:
            if it.startswith('"'): exp.append((it.strip('"'), at))
            else: at = m.want(e, s, word(it), at)
        exp.append((None, at))
        states = [(s, [])]
        wrong = None
        for name, args in tr:
            nxt = []
            for s, texts in states:
                if name == 'add_text':
                    nxt.append((s, texts + [(args[0], e.attrs(s))]))
                    continue
                g = line_method(d, pathtail(name))
                if g is None:
                    wrong = 'calls %s' % name
                    break
                t = s.copy()
                t.stack, t.exit = (), None
                vals = args_of(e, g, args)
                e.start(t, g['id'], [e.ref(e.L)] + vals, g['path'])
                e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
                for x in e.explore([t]):
                    if x.exit[0] != 'return': continue
                    e.sync(x)
                    for o in [o for o in x.store if o[0] == 'L']: del x.store[o]
                    x.stack = ()
                    nxt.append((x, texts))
            states = nxt
            if wrong: break
        diffs = set()
        for s, texts in states if not wrong else ():
            got = texts + [(None, e.attrs(s))]
            n += 1
            if [t for t, _ in got] != [t for t, _ in exp]:
                diffs.add('the text %r is added instead of %r' % ([t for t, _ in got[:-1]], [t for t, _ in exp[:-1]]))
                continue
            for (t, a), (_, b) in zip(got, exp):
                for x in differences(e, s, a, b, [e.sym('style0')]): diffs.add('another %s %s' % (x, 'for the text %r' % t if t is not None else 'is left active'))
        ctx.ob(not wrong and not diffs and states, '%s:macros:%s' % (feat, keyof(items)), 'the keyword means what it says', '`%s` %s' % (label, wrong or ('gives ' + '; '.join(sorted(diffs))) if states else 'never ends'))
    ctx.floor(feat + ': keyword uses', n, 300)
    ctx.engine_stats(feat + ': keywords', e)


def keyof(items):
    ws = [word(i) for i in items if not i.startswith('"')]
    return ws[0] if len(ws) == 1 else next((w for w in ws if w not in ('+bold', 'fg=red', '^italic', 'bg=blue')), ' '.join(ws[:2]))


def args_of(e, g, args):
    out = []
    for a, tid in zip(args, g['locals'][2:2 + len(args)]):
        if isinstance(a, tuple) and a[0] == 'style': out.append(style_value(e, a[1]))
        elif isinstance(a, tuple) and a[0] == 'colour': out.append(e.none() if a[1] is None else e.agg(e.OPT, 1, (color_value(e, a[1]),)))
        else: out.append(e.sym('arg?'))
    return out


class Wit(Engine):
    """the witness: a straight line of calls"""
    def should_inline(self, s, g): return 'blocks' in g and g['krate'] != 'witness'

    def hook_call(self, s, g, args, argtys, dest, target, line):
        p = re.sub(r'::<.*?>', '', g['path'])
        if 'Line' in p and p.startswith('liso::'):
            if pathtail(p) == 'new': return (self.ret(s, dest, target, self.sym('theline')),)
            self.calls.append((p, [self.decode(s, a) for a in args[1:]]))
            return (self.ret(s, dest, target, args[0]),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def decode(self, s, v):
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 's': return ('text', t[1])
        if t[0] == 'agg' and isinstance(t[1], int):
            ty = self.ty(t[1])
            if ty.get('def') == 'liso::Style':
                b = bits_of(self, s, v)
                return ('style', self.isc(b)) if self.isc(b) is not None else ('?', self.pp(v))
            if ty.get('def', '').endswith('option::Option'):
                if t[2] == 0: return ('colour', None)
                d = self.isc(self.norm(s, self.discr(s, t[3][0])))
                if d is not None: return ('colour', d)
                c = self.tab[self.norm(s, t[3][0])]
                if c[0] == 'agg' and isinstance(c[1], int) and self.ty(c[1]).get('def') == 'liso::Color': return ('colour', self.discrs[c[2]])
        return ('?', self.pp(v))


def trace(e, w, f):
    """the operations on the line that a witness does, or why they cannot be read"""
    x = Wit(w)
    x.calls = []
    x.discrs = [v['d'] for v in e.ty(color_type(e.d))['v']]
    s = mkstate()
    s.mon = {}
    x.start(s, f['id'], [x.sym('theline') for _ in range(f['argc'])])
    ends = [y for y in x.explore([s]) if y.exit[0] == 'return']
    if len(ends) != 1: return 'it has %d ends' % len(ends)
    out = []
    for p, args in x.calls:
        if any(a[0] == '?' for a in args): return '%s is called with %s' % (p, args[0][1])
        if pathtail(p) == 'add_text': out.append(('add_text', [args[0][1]]))
        else: out.append((p, args))
    return out


# ---------------------------------------------------------------- (c)
OTHER = 99
CLASSES = [None] + sorted(set(SGR) | {5, 38, 48, 58}) + [OTHER, 0xffffffff]


class Ansi(LineE):
    """the parser, in step with a reader of SGR parameters"""
    budget = 6
    entry_budget = 4
    own = LineE.SETTERS + LineE.ADDERS

    def begin_ansi(self):
        s = self.line_state('text')
        self.put(s, 'sgr', None)          # what the next parameter is: None = nothing read yet
        self.put(s, 'code', None)
        return s

    def judge(self, s):
        """the change made since the last parameter was taken"""
        want = self.meaning.want(self, s, SGR.get(s.mon['code'], '') if s.mon['code'] is not None else '', (style_sym(self, 'style0'), self.sym('fg0'), self.sym('bg0')))
        diff = [] if self.attrs(s) == want else differences(self, s, self.attrs(s), want, [self.sym('style0')])
        self.judged_codes.setdefault(s.mon['code'], 0)
        self.judged_codes[s.mon['code']] += 1
        if diff: self.wrong.add((s.mon['code'], s.mon['sgr'] or '', ' and '.join(diff)))
        if self.attrs(s) != self.attrs0() or s.mon['kind'] != 'text':
            self.rename(s)
            self.shape(s, 'text', self.attrs0())
        self.put(s, 'code', None)

    def take(self, s, c):
        """a parameter is taken"""
        self.judge(s)
        k = s.mon['sgr']
        if c is None: nx = 'end'          # there is none, and no more after it
        elif k and k.startswith('mode'): nx = {5: 'operand 1', 2: 'operand 3'}.get(c)
        elif k and k.startswith('operand'):
            n = int(k.split()[1]) - 1
            nx = 'operand %d' % n if n else None
        else:
            self.put(s, 'code', c)
            nx = 'mode' if c in (38, 48, 58) else None
        self.put(s, 'sgr', nx)

    def classes(self, s):
        k = s.mon['sgr'] or ''
        if k == 'end': return [None]
        return [None, 0, 1, 38, OTHER] if k.startswith('operand') else [None, 0, 1, 2, 5, 31, 38, OTHER, 0xffffffff] if k.startswith('mode') else CLASSES

    def arrive_head(self, s, fi, old, bb):
        if s.mon['code'] is not None: self.judge(s)
        if s.mon['sgr'] == 'end': self.put(s, 'sgr', None)
        # where in the text it is does not matter here
        s.eq, s.ne = {}, {}
        for o, v in list(s.store.items()):
            if o[0] == 'L' and not any(self.tab[x][0] == 'ref' for x in self.subs(v)): s.store[o] = self.sym('any %s %s' % (o[1], o[2]))
        if self.attrs(s) == self.attrs0(): self.shape(s, 'text', self.attrs0())
        return super().arrive_head(s, fi, old, bb)

    def summary(self, s, g, args):
        r = super().summary(s, g, args)
        return r[:1] if r and pathtail(g['path']) in self.ADDERS else r      # what text is added does not matter here

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        m = pathtail(re.sub(r'::<[^<>]*>', '', p))
        ty = self.ty(self.cur_dest_ty) if isinstance(self.cur_dest_ty, int) else {}
        if m == 'next' and ty.get('def', '').endswith('option::Option'):
            inner = self.ty(ty['args'][0])
            if inner.get('k') == 'int' and inner['bits'] == 32:
                self.taken += 1
                out = []
                for c in self.classes(s):
                    t = s.copy()
                    self.take(t, c)
                    out.append((t, self.agg(self.cur_dest_ty, 0, ()) if c is None else self.agg(self.cur_dest_ty, 1, (self.c(c),))))
                return out
            if inner.get('k') == 'ref' and self.ty(inner['e']).get('k') == 'str':
                self.taken += 1
                out = []
                for c in self.classes(s):
                    t = s.copy()
                    self.take(t, c)
                    st = self.mk(('s', '' if c == 0 else '4294967296' if c == 0xffffffff else str(c)))
                    out.append((t, self.agg(self.cur_dest_ty, 0, ()) if c is None else self.agg(self.cur_dest_ty, 1, (st,))))
                return out
        if m == 'parse' and args:
            r = self.parse(s, args[0])
            if r is not None: return r
        if m == 'split' and 'str' in p and len(args) == 2: self.separators.add(self.isc(self.norm(s, args[1])))
        return super().model(s, g, args, argtys, dest, target, line)

    def parse(self, s, v):
        t = self.tab[self.norm(s, v)]
        ty = self.ty(self.cur_dest_ty)
        if t[0] == 's' and ty.get('def', '').endswith('result::Result'):
            if re.fullmatch(r'\+?[0-9]+', t[1]) and int(t[1]) < 1 << 32: return self.agg(self.cur_dest_ty, 0, (self.c(int(t[1])),))
            return self.agg(self.cur_dest_ty, 1, (self.sym('parse error'),))
        return None


class Param(Sess):
    """what is made of the text of one parameter"""
    def should_inline(self, s, g): return 'blocks' in g

    def model(self, s, g, args, argtys, dest, target, line):
        m = pathtail(re.sub(r'::<[^<>]*>', '', g['path']))
        if m == 'parse': return Ansi.parse(self, s, args[0])
        if m == 'unwrap_or' and len(args) == 2:
            d = self.isc(self.norm(s, self.discr(s, args[0])))
            t = self.tab[self.norm(s, args[0])]
            if t[0] == 'agg' and 'Result' in self.ty(t[1]).get('def', ''): return t[3][0] if t[2] == 0 else args[1]
        if m in ('eq', 'ne') and len(args) == 2:
            a, b = (self.strip(s, x) for x in args)
            if a is not None and b is not None: return self.c(int((a == b) == (m == 'eq')))
        return super().model(s, g, args, argtys, dest, target, line)

    def strip(self, s, v):
        v = self.norm(s, v)
        for _ in range(3):
            if self.tab[v][0] in ('ref', 'kref'): v = self.norm(s, self.content(s, v))
        return self.tab[v][1] if self.tab[v][0] == 's' else None


def ansi(ctx, feat, d, m):
    f = line_method(d, 'add_ansi_text')
    if f is None: return ctx.bad(feat + ':ansi', 'there is no Line::add_ansi_text')
    e = Ansi(d)
    e.meaning, e.wrong, e.judged_codes, e.taken, e.separators = m, set(), {}, 0, set()
    # the text of a parameter
    cl = [g for g in d.fns.values() if g['local'] and 'blocks' in g and g['path'].startswith(f['path'] + '::{closure') and g['argc'] == 2 and d.types[g['locals'][0]].get('k') == 'int' and d.types[g['locals'][0]]['bits'] == 32]
    for g in cl:
        for txt, want in [('', 0), ('0', 0)] + [(str(c), c) for c in sorted(SGR) if c] + [('38', 38), ('5', 5), ('2', 2), ('001', 1), (':', None), ('1:2', None), ('<', None), ('4294967297', None), ('4294967328', None)]:
            x = Param(d)
            s = mkstate()
            s.mon = {}
            x.start(s, g['id'], [x.sym('closure'), x.mk(('s', txt))])
            for y in x.explore([s]):
                r = x.norm(y, y.user['ret']) if y.exit[0] == 'return' else None
                k = x.isc(r) if r is not None else None
                if k is None and r is not None and 'MAX' in str(x.pp(r)): k = 0xffffffff
                if want is not None: okay = k == want
                else: okay = k is not None and k not in SGR and k not in (38, 48, 58)
                ctx.ob(okay, '%s:ansi:parameter %s' % (feat, 'empty' if not txt else 'digits' if want is not None else 'unreadable'), 'a parameter is read as its number', 'the SGR parameter %r is read as %s' % (txt, 'code %s' % k if k is not None else 'something else (%s)' % (x.pp(r) if r is not None else y.exit[0])))
    s = e.begin_ansi()
    e.start(s, f['id'], [e.ref(e.L), e.sym('input')], f['path'])
    ends = e.explore([s])
    rets = [x for x in ends if x.exit[0] == 'return']
    for x in rets: e.judge(x)
    for c, k, diff in sorted(e.wrong, key=repr):
        name = 'operand' if c is None else 'any other code' if c in (OTHER, 0xffffffff, 5) and c not in SGR else 'code %d' % c
        ctx.bad('%s:ansi:%s' % (feat, name), 'SGR %s changes the %s otherwise than %s' % (name, diff, SGR.get(c, 'not at all')))
    for c in e.judged_codes: ctx.ob(not any(c == w[0] for w in e.wrong), '%s:ansi:%s' % (feat, c), 'the code means what it says', 'see above')
    ctx.floor(feat + ': SGR codes taken', len([c for c in SGR if c in e.judged_codes]), len(SGR))
    ctx.ob(e.separators <= {ord(';')}, feat + ':ansi:separator', 'parameters are separated by semicolons', 'the parameters of a sequence are not separated by semicolons alone')
    ctx.floor(feat + ': ends of the ANSI parser', len(rets), 2)
    ctx.engine_stats(feat + ': ANSI', e)


# ---------------------------------------------------------------- (d)
CT = {'black': 'Black', 'red': 'DarkRed', 'green': 'DarkGreen', 'yellow': 'DarkYellow', 'blue': 'DarkBlue', 'cyan': 'DarkCyan', 'magenta': 'DarkMagenta', 'white': 'Grey'}
CA = {'bold': 'Bold', 'dim': 'Dim', 'underline': 'Underlined', 'inverse': 'Reverse', 'italic': 'Italic'}


class Conv(Sess):
    def should_inline(self, s, g): return 'blocks' in g

    def model(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if 'Attributes' in p:
            m = pathtail(re.sub(r'::<[^<>]*>', '', p))
            if m in ('default', 'none', 'new'): return self.mk(('attrset', ()))
            if m in ('set', 'unset', 'toggle', 'with', 'without'):
                v = args[0]
                cur = self.norm(s, self.content(s, v)) if self.tab[v][0] in ('ref', 'kref') else self.norm(s, v)
                n = self.attr(s, args[1])
                t = self.tab[cur]
                if t[0] == 'attrset' and n:
                    x = set(t[1])
                    if m in ('set', 'with'): x.add(n)
                    elif m in ('unset', 'without'): x.discard(n)
                    else: x ^= {n}
                    r = self.mk(('attrset', tuple(sorted(x))))
                    if m in ('set', 'unset', 'toggle'):
                        self.write(s, self.deref(s, v), r)
                        return self.unit
                    return r
        if 'BitOr' in p and args and self.tab[self.norm(s, args[0])][0] == 'attrset':
            n = self.attr(s, args[1])
            if n: return self.mk(('attrset', tuple(sorted(set(self.tab[self.norm(s, args[0])][1]) | {n}))))
        return super().model(s, g, args, argtys, dest, target, line)

    def attr(self, s, v):
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def', '').endswith('Attribute'): return self.ty(t[1])['v'][t[2]]['name'].split('::')[-1]
        return None


def conversions(ctx, feat, d, m):
    key = lambda what: '%s:terminal:%s' % (feat, what)
    distinct = [b for n, b in m.bits.items() if n in CA]
    for n in KEYWORDS + ('plain',): ctx.ob(n in m.bits, key('style ' + n), 'the style exists', 'there is no style %s' % n.upper())
    ctx.ob(len(set(distinct)) == 5 and all(b and b & (b - 1) == 0 for b in distinct), key('flags'), 'every style is a bit of its own', 'the styles are not single, distinct bits: %s' % m.bits)
    ctx.ob(m.bits.get('reverse') == m.bits.get('inverse'), key('style reverse'), 'REVERSE is INVERSE', 'REVERSE is not the same style as INVERSE')
    ctx.ob(m.bits.get('plain') == 0, key('style plain'), 'PLAIN is no style', 'PLAIN is not the absence of styles')
    for n in COLOURS: ctx.ob(n in m.cols, key('colour ' + n), 'the colour exists', 'there is no colour %s' % n)
    col, att = [], []
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f and f['argc'] == 1 and f['id'] < 1000000): continue
        r, a = d.types[f['locals'][0]], f['locals'][1]
        if r.get('k') == 'adt' and r['def'].endswith('style::Color') and is_type(d, a, 'liso::Color'): col.append(f)
        if r.get('k') == 'adt' and r['def'].endswith('::Attributes') and is_type(d, a, 'liso::Style'): att.append(f)
    ctx.floor(feat + ': conversions of colours', len(col), 1)
    ctx.floor(feat + ': conversions of styles', len(att), 1)

    def run(f, mk):
        e = Conv(d)
        s = mkstate()
        s.mon = {}
        v = mk(e)
        if d.types[f['locals'][1]]['k'] == 'ref':
            s.store[('G', 'arg')] = v
            v = e.ref(('G', 'arg'))
        e.start(s, f['id'], [v], f['path'])
        return e, [x for x in e.explore([s]) if x.exit[0] == 'return']
    for f in col:
        for n, x in m.cols.items():
            e, out = run(f, lambda e: color_value(e, x))
            got = {vname(e, y) for y in out}
            ctx.ob(got == {CT.get(n)}, key('colour ' + n), 'the terminal gets the colour of that name', '%s makes %s of %s' % (f['path'], '/'.join(sorted(map(str, got))), n))
    for f in att:
        names = [n for n in CA]
        for k in range(1 << len(names)):
            on = [n for i, n in enumerate(names) if k >> i & 1]
            if any(n not in m.bits for n in on): continue
            e, out = run(f, lambda e: style_value(e, sum(m.bits[n] for n in on)))
            want = tuple(sorted(CA[n] for n in on))
            got = {e.tab[e.norm(y, y.user['ret'])] for y in out}
            okay = got == {('attrset', want)}
            lost = [n for n in on if not okay and len(on) == 1]
            ctx.ob(okay, key('style ' + (on[0] if len(on) == 1 else 'none' if not on else 'combinations')), 'all the styles are sent', '%s makes %s of %s' % (f['path'], ' '.join(sorted(str(g[1] if g[0] == 'attrset' else e.pp(g)) for g in got)), '+'.join(on) or 'no style'))


def vname(e, s):
    v = e.norm(s, s.user['ret'])
    t = e.tab[v]
    if t[0] == 'agg' and isinstance(t[1], int): return e.ty(t[1])['v'][t[2]]['name'].split('::')[-1]
    return None


# ---------------------------------------------------------------- (e)
class Numbers(Attr):
    def told_what(self, s, *o):
        if o[0] in ('fg', 'bg'): self.sent.add(self.norm(s, o[1]) if isinstance(o[1], V) else ('?', str(o[1])))
        super().told_what(s, *o)


def palettes(ctx, feat, d, m):
    tables = {}
    for f in d.fns.values():
        if not (f['local'] and 'blocks' in f and f['argc'] == 1 and f['id'] < 1000000): continue
        r, a = d.types[f['locals'][0]], f['locals'][1]
        if not (r.get('k') == 'int' and r.get('bits') == 8 and d.types[a].get('k') == 'adt' and is_type(d, a, 'liso::Color')): continue
        tab = {}
        for n, x in m.cols.items():
            e = Conv(d)
            s = mkstate()
            s.mon = {}
            e.start(s, f['id'], [color_value(e, x)], f['path'])
            vals = {e.isc(e.norm(y, y.user['ret'])) for y in e.explore([s]) if y.exit[0] == 'return'}
            tab[n] = vals
            ctx.ob(all(v is not None and 0 <= v < 16 for v in vals) and vals, '%s:palette:%s' % (feat, f['path'].split('::')[-1]), 'within the palette', '%s gives %s for %s: not a number of the 16-colour palette' % (f['path'], vals, n))
        tables[f['path']] = tab
    bs = backends(d)
    calls, _ = creations(d, bs)
    n = 0
    for name, ops in sorted(bs.items()):
        if not {'set_attrs', 'suspend', 'unsuspend', 'new'} <= set(ops): continue
        e = Numbers(d, name, ops)
        if e.ansi: continue
        e.used, e.sent = set(), set()
        live = []
        for c in sorted(calls.get(ops['new']['id'], ()), key=repr):
            s = e.begin()
            args = [e.sym('new.arg%d' % i) if k is None else e.c(k) for i, k in enumerate(c)]
            for x in good(e, e.run_op([s], ops['new'], args, 'new') if not ops['new']['argc'] else run_new(e, s, ops['new'], args)):
                v = e.norm(x, x.user['ret'])
                if not (e.tab[v][0] == 'agg' and e.tab[v][1] == e.self_ty):
                    if not e.result_ok(x): continue
                    v = e.norm(x, e.proj(x, v, (0, 0)))
                x.store[e.OBJ] = v
                live.append(x)
        uniq = {}
        for x in live: uniq.setdefault(config(e, x), x)
        ways = arrange(e)
        if not ways: continue
        best = None
        for w in ways:
            e.sent = set()
            r = trial(ctx, feat, d, e, list(uniq.values()), w, ops)
            bad = sum(1 for _, ok, _ in r if not ok)
            if best is None or bad < best[0]: best = (bad, set(e.sent))
            if not bad: break
        for v in sorted(best[1], key=str):
            n += 1
            ctx.ob(number_ok(e, v, tables), '%s:palette:sent' % feat, 'within the palette', '%s may send %s as a colour: not known to be a number of the palette' % (name, e.pp(v) if isinstance(v, V) else v[1]))
        ctx.engine_stats('%s %s' % (feat, name.split('::')[-1]), e)
    ctx.floor(feat + ': colour numbers sent', n, 6)
    ctx.analysed.setdefault('palette tables', {})[feat] = sorted(tables)


def number_ok(e, v, tables, d=4):
    if not isinstance(v, V): return False
    k = e.isc(v)
    if k is not None: return 0 <= k < 16
    if v in (e.sym('fg0'), e.sym('bg0')): return True
    t = e.tab[v]
    return t[0] == 'call' and t[1].startswith('palette ') and t[1].split()[1] in tables


def check(ctx):
    for feat in ('default', 'all'):
        d = ctx.dump(feat)
        m = Meaning(d)
        if not (set(KEYWORDS) <= set(m.bits) and set(COLOURS) <= set(m.cols)):
            conversions(ctx, feat, d, m)
            continue
        methods(ctx, feat, d, m)
        conversions(ctx, feat, d, m)
        macros(ctx, feat, d, m)
        ansi(ctx, feat, d, m)
        palettes(ctx, feat, d, m)
    ctx.assumptions += ['crossterm\'s attributes and colours denote what their names say', 'the numbers of the SGR codes are those of ECMA-48 (21 as "not bold", as documented)']
