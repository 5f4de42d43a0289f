"""Abstract interpretation of every function that can change a line, from a line in each kind of state (nothing yet,
attributes only, attributes for text to come, text that is covered), with text, attributes and arguments arbitrary. Any
write to a line's text must only append, no write may reach the attributes or the beginning of a span that has text, the
list of spans may only grow at its end, each new span must begin where the one before ends, and at every end the last
span must end where the text ends. Functions that touch a line's fields are enumerated from the type-checked program: one
that is not among those interpreted is reported. Appending a line is checked to add, for each span, its whole text with its
own attributes; reading a line back is checked to give each character the attributes of the first span that ends after it.
Wrapping: the function that replaces a range of the text by a line break is interpreted for an arbitrary span and range,
and its new bounds must be the image of the old ones under the edit, on every path; the ranges it is given must be gaps
between consecutive pieces that the wrapping library returned for the same text, and must be applied from last to first."""
from linemodel import *
from edit import Prover


def places(f):
    """(place, how) for every place a body writes to or takes a mutable borrow of"""
    for st, t in f['blocks']:
        for x in st:
            if x[0] == '=':
                yield x[1], 'assigned'
                r = x[2]
                if r[0] == 'ref' and r[1] == 'm' or r[0] in ('ptr', 'addr') and len(r) > 2 and r[1] == 'm': yield r[2], 'borrowed'
        if t[0] == 'call': yield t[3], 'assigned'


def types_along(e, f, p):
    """(type before a projection, the projection)"""
    for i in range(1, len(p)):
        yield e.place_ty(f, p[:i]), p[i], i


def touches(e, f):
    """does this body change a line's fields, or a span's?"""
    for p, how in places(f):
        if not isinstance(p, list) or len(p) < 2: continue
        try: al = list(types_along(e, f, p))
        except Exception: continue
        for t, q, i in al:
            if t in (e.LINE, e.ELEM) and isinstance(q, (list, tuple)) and q[0] == 'f': return True
    return False


def builds(e, f):
    for st, t in f['blocks']:
        for x in st:
            if x[0] == '=' and x[2][0] == 'agg' and x[2][1][0] == 'adt' and x[2][1][1] == e.LINE: return True
    return False


def takes_line(e, f):
    for i in range(1, f['argc'] + 1):
        t = e.d.types[f['locals'][i]] if isinstance(f['locals'][i], int) else {}
        if t.get('k') == 'ref' and t.get('mut') and t['e'] == e.LINE: return i
    return None


class Build(LineE):
    own = LineE.SETTERS + LineE.ADDERS + ('append_line', 'add_ansi_text', 'reset_and_break')
    budget = 60

    def summary(self, s, g, args):
        if pathtail(g['path']) in self.own and pathtail(g['path']) not in self.SETTERS + self.ADDERS:
            if g['path'].startswith('liso::line::') and args and self.tab[args[0]][0] == 'ref' and self.deref(s, args[0]) == (self.L, ()) and g['id'] != s.stack[0][0]:
                # looked at by itself: whatever it appends, the line is in one of the four states afterwards
                out = []
                for k in self.KINDS:
                    t = s.copy()
                    self.rename(t)
                    self.shape(t, k, (self.fresh_style(t), self.fresh(t, 'colour'), self.fresh(t, 'colour')))
                    out.append((t, self.sym('result')))
                return out
        return super().summary(s, g, args)

    def fresh_style(self, s):
        return self.fresh(s, 'style')

    coarse = False      # nothing is remembered around a loop but the kind of line and what locals refer to

    def arrive_head(self, s, fi, old, bb):
        if self.coarse and 'n' in s.mon:
            self.sync(s)
            k = s.mon['kind']
            if self.text(s) == self.mk(('sym', 'text*')) or self.tab[self.text(s)] == ('s', ''):
                for o, v in list(s.store.items()):
                    if o[0] == 'L' and not any(self.tab[x][0] == 'ref' for x in self.subs(v)): s.store[o] = self.sym('any %s %s' % (o[1], o[2]))
                s.eq, s.ne = {}, {}
                self.rename(s)
                self.shape(s, k, self.attrs0())
        return super().arrive_head(s, fi, old, bb)


class Appending(Build):
    """appending a line: what is added comes from one span of the other line, with its attributes"""
    def done(self, s, name, args):
        if name not in self.ADDERS: return
        self.adds += 1
        x = self.piece(s, args[1])
        for _ in range(3):
            if self.tab[x][0] in ('ref', 'kref'): x = self.norm(s, self.content(s, x))
        src = self.slice_of(s, x)
        if src is None: return self.odd.add('the text it adds is not a range of the other line\'s text')
        text, a, b = src
        if not self.other_text(text): self.odd.add('the text it adds is not the other line\'s')
        ea, eb = self.field_of(a, self.S0), self.field_of(b, self.S1)
        if ea is None or ea != eb: self.odd.add('the text it adds is not the range of one span')
        else:
            at = self.attrs(s)
            for i, v, n in ((self.ST, at[0], 'style'), (self.FG, at[1], 'foreground'), (self.BG, at[2], 'background')):
                w = self.norm(s, self.proj(s, ea, (None, i)))
                if v != w and self.isc(self.norm(s, self.eqv(s, v, w))) != 1: self.odd.add('the text it adds does not get the %s of its span' % n)
            if s.mon.get('span') is not None: self.put(s, 'span', None)

    def slice_of(self, s, x):
        t = self.tab[x]
        if t[0] == 'call' and opn(t[1]) in ('slice', 'index') and len(t) >= 4:
            r = self.tab[self.norm(s, t[3])]
            if r[0] == 'agg' and isinstance(r[1], int) and self.ty(r[1]).get('def', '').endswith('::Range'): return t[2], self.norm(s, r[3][0]), self.norm(s, r[3][1])
        return None

    def other_text(self, v): return any(self.tab[x][0] == 'fld' and self.tab[x][3] == self.TI and self.sym('other') in self.subs(x) for x in self.subs(v))

    def field_of(self, v, i):
        t = self.tab[v]
        return t[1] if t[0] == 'fld' and t[3] == i else None


def opn(n):
    from edit import opname
    return opname(n)


def building(ctx, feat, d):
    e0 = LineE(d)
    if not e0.anchored: return ctx.bad(feat + ':line', 'the type of lines has another shape than text and spans of a style, two colours and a range')
    visited = set()
    n = 0
    names = []
    for f in sorted(d.fns.values(), key=lambda f: f['id']):
        if not (f['local'] and 'blocks' in f): continue
        i = takes_line(e0, f)
        if i is None or '{closure' in f['path']: continue
        name = pathtail(f['path'])
        e = (Appending if name == 'append_line' else Build)(d)
        e.odd, e.adds = set(), 0
        if wraps(e, f): continue
        key = '%s:%s' % (feat, name)
        names.append(f['path'])
        args = []
        for j in range(1, f['argc'] + 1):
            t = f['locals'][j]
            if j == i: args.append(e.ref(e.L))
            elif is_type(d, t, 'liso::Style'): args.append(style_sym(e, 'arg'))
            elif is_type(d, t, 'liso::line::Line'):
                e.mkother = True
                args.append(e.sym('other'))
            else: args.append(e.sym('arg%d' % j))
        ends = 0
        if name in e.own and name not in e.SETTERS + e.ADDERS + ('append_line',): e.coarse, e.budget, e.entry_budget = True, 6, 4
        for k in e.KINDS:
            s = e.line_state(k)
            at0 = e.attrs(s)
            e.start(s, f['id'], args, f['path'])
            e.exits, e.seen, e.groups, e.panics = [], {}, {}, {}
            for x in e.explore([s]):
                if x.exit[0] != 'return':
                    if 'assert_failed' in str(x.exit[1][:2]): ctx.bad(key + ':asserts', 'Line::%s can fail its own assertion (%s)' % (name, k))
                    continue
                ends += 1
                b = e.close(x)
                n += 1
                ctx.ob(not b, key, 'every byte is covered once, in order, and nothing added before changes', '%s, on a line with %s: %s' % (f['path'], k, '; '.join(sorted(b))))
                if name in LineE.ADDERS:
                    at = e.attrs(x)
                    ctx.ob(all(p == q or e.isc(e.norm(x, e.eqv(x, p, q))) == 1 or same_style(e, x, p, q) for p, q in zip(at0, at)), key + ':attributes', 'adding text leaves the active attributes', '%s can leave other attributes active than before' % f['path'])
        visited |= e.visited_fns
        ctx.floor('%s: ends of %s' % (feat, f['path'].split('line::')[-1]), ends, 2)
        for o in e.odd: ctx.bad(key + ':spans', '%s: %s' % (f['path'], o))
        if name == 'append_line': ctx.floor('%s: additions by append_line' % feat, e.adds, 1)
        ctx.engine_stats('%s %s %d' % (feat, name, f['id']), e)
    ctx.floor(feat + ': functions that change lines', len(names), 12)
    # whoever else touches the fields
    for f in sorted(d.fns.values(), key=lambda f: f['id']):
        if not (f['local'] and 'blocks' in f): continue
        short = re.sub(r'<.*?>', '', f['path'])
        if touches(e0, f) and f['id'] not in visited and not wraps(e0, f):
            ctx.bad('%s:touches:%s' % (feat, pathtail(f['path'])), '%s changes the fields of a line, apart from the operations of lines' % f['path'])
        if builds(e0, f):
            why = built(d, f)
            ctx.ob(why is None, '%s:built:%s' % (feat, re.sub(r'[^a-z_]+', '-', pathtail(f['path']).lower())), 'lines begin empty or as copies', '%s makes a line of %s' % (f['path'], why))
    ctx.analysed.setdefault('operations of lines', {})[feat] = sorted(set(names))


def same_style(e, s, a, b):
    x, y = e.bitfun(s, e.sbits(s, a), [e.sym('style0')]), e.bitfun(s, e.sbits(s, b), [e.sym('style0')])
    return x is not None and x == y


def built(d, f):
    """what a function that makes a line makes it of, if it is not the empty line or a copy"""
    e = LineE(d)
    s = mkstate()
    s.mon = {}
    e.start(s, f['id'], [e.sym('arg%d' % i) for i in range(1, f['argc'] + 1)], f['path'])
    out = [x for x in e.explore([s]) if x.exit[0] == 'return']
    for x in out:
        v = e.norm(x, x.user['ret'])
        lines = [y for y in e.subs(v) if e.tab[y][0] == 'agg' and e.tab[y][1] == e.LINE]
        for l in lines:
            t, el = e.norm(x, e.tab[l][3][e.TI]), e.norm(x, e.tab[l][3][e.EI])
            if e.isc(e.norm(x, e.lenv(x, t))) == 0 and e.isc(e.norm(x, e.lenv(x, el))) == 0: continue
            src = [e.tab[y][1] for y in e.subs(t) if e.tab[y][0] == 'fld' and e.tab[y][3] == e.TI]
            src2 = [e.tab[y][1] for y in e.subs(el) if e.tab[y][0] == 'fld' and e.tab[y][3] == e.EI]
            if src and src == src2: continue
            return 'parts that are not known to fit (%s, %s)' % (e.pp(t)[:40], e.pp(el)[:40])
    return None


# ---------------------------------------------------------------- reading back
class Reading(Prover, Sess):
    budget = 60
    split_heads = True

    def should_inline(self, s, g): return 'blocks' in g


def reading(ctx, feat, d):
    e0 = LineE(d)
    fs = [f for f in d.fns.values() if f['local'] and 'blocks' in f and pathtail(f['path']) == 'next' and is_type(d, opt_of(d, f['locals'][0]), 'liso::line::LineChar')]
    if not ctx.ob(len(fs) == 1, feat + ':read', 'one way of reading a line back', 'there are %d iterators over the characters of a line' % len(fs)): return
    f = fs[0]
    self_t = d.types[d.types[f['locals'][1]]['e']]
    flds = self_t['v'][0]['f']
    at = lambda ok: [i for i, x in enumerate(flds) if ok(d.types[x[1]])]
    line_i, num_i, ind_i = at(lambda t: t.get('k') == 'ref' and t['e'] == e0.LINE), at(lambda t: t.get('k') == 'int'), at(lambda t: t.get('def', '').endswith('CharIndices'))
    if not ctx.ob(len(line_i) == len(num_i) == len(ind_i) == 1, feat + ':read:fields', 'the iterator has a line, a place in it and a position in the list of spans', 'the iterator over the characters of a line has other fields than the line, its characters and a position in its list of spans'): return
    line_i, num_i, ind_i = line_i[0], num_i[0], ind_i[0]
    cs = d.types[opt_of(d, f['locals'][0])]['v'][0]['f']
    names = [x[0] for x in cs]
    e = Reading(d)
    e.prover_init()
    s = mkstate()
    s.mon = {}
    o = ('G', 'it')
    it = e.sym('it')
    s.store[o] = it
    e.start(s, f['id'], [e.ref(o)], f['path'])
    n = 0
    key = feat + ':read'
    es = e0.d.types[e0.ELEM]['v'][0]['f']
    ename = {e0.ST: 'style', e0.FG: 'fg', e0.BG: 'bg'}
    for x in e.explore([s]):
        if x.exit[0] != 'return': continue
        r = e.tab[e.norm(x, x.user['ret'])]
        if r[0] == 'agg' and r[2] == 0: continue
        n += 1
        c = e.norm(x, e.proj(x, e.norm(x, x.user['ret']), (1, 0)))
        val = {nm: e.norm(x, e.proj(x, c, (None, i))) for i, nm in enumerate(names)}
        owners = set()
        for i, nm in ename.items():
            v = e.tab[val.get(nm)]
            owners.add(v[1] if v[0] == 'fld' and v[3] == i else None)
        if not ctx.ob(len(owners) == 1 and None not in owners, key + ':attributes', 'a character has the style and both colours of one span', 'the style and colours of a character that is read back are not those of one span'): continue
        el = owners.pop()
        t = e.tab[el]
        if not ctx.ob(t[0] == 'idx', key + ':span', 'the span is one of the list', 'the span of a character that is read back is not one of the list of spans'): continue
        k, index = t[2], val.get('index')
        end = lambda k: e.mk(('fld', e.mk(('idx', t[1], k)), None, e0.S1))
        ctx.ob(index is not None and e.tab[index][0] == 'fld', key + ':index', 'the index is that of the character', 'the index of a character that is read back is not that of the character')
        ctx.ob(e.lt(x, index, end_of(e, x, e0, el)), key + ':covers', 'the span ends after the character', 'a character can be given the attributes of a span that ends before it')
        ctx.ob(past(e, x, e0, t[1], k, index, num_i, it, set()), key + ':first', 'no earlier span ends after the character', 'a character can be given the attributes of a span after the one that covers it')
        k2 = e.norm(x, e.proj(x, x.store[o], (None, num_i)))
        ctx.ob(k2 == k or past(e, x, e0, t[1], k2, index, num_i, it, set()), key + ':resume', 'the next search begins at a span that may still cover', 'the search for the span of the next character begins after the span that covers it')
    ctx.floor(feat + ': ends of reading back', n, 2)
    ctx.engine_stats(feat + ': reading back', e)
    # it begins with the first character and the first span
    e = Reading(d)
    e.prover_init()
    m = 0
    for g in d.fns.values():
        if not (g['local'] and 'blocks' in g): continue
        if not any(x[0] == '=' and x[2][0] == 'agg' and x[2][1][0] == 'adt' and d.types[x[2][1][1]].get('def') == self_t['def'] for st, _ in g['blocks'] for x in st): continue
        if 'Clone' in g['path']: continue
        s = mkstate()
        s.mon = {}
        l = e.ref(('G', 'theline'))
        s.store[('G', 'theline')] = e.sym('line')
        e.start(s, g['id'], [l] + [e.sym('arg%d' % i) for i in range(2, g['argc'] + 1)], g['path'])
        for x in e.explore([s]):
            if x.exit[0] != 'return': continue
            m += 1
            v = e.norm(x, x.user['ret'])
            ctx.ob(e.isc(e.norm(x, e.proj(x, v, (None, num_i)))) == 0, key + ':begins', 'reading begins with the first span', '%s begins reading with another span than the first' % g['path'])
            ind = e.norm(x, e.proj(x, v, (None, ind_i)))
            tx = e.norm(x, e.proj(x, e.sym('line'), (None, e0.TI)))
            ctx.ob(tx in e.subs(ind) and not any(e.tab[y][0] in ('idx', 'mut') or e.tab[y][0] == 'call' and opn(e.tab[y][1]) in ('slice', 'index', 'skip') for y in e.subs(ind)), key + ':begins', 'reading begins with the first character', '%s begins reading elsewhere than at the beginning of the text' % g['path'])
    ctx.floor(feat + ': ways to begin reading', m, 1)


def end_of(e, x, e0, el): return e.norm(x, e.proj(x, el, (None, e0.S1)))


def opt_of(d, t):
    t = d.types[t]
    if t and t.get('def', '').endswith('option::Option') and t.get('args'): return t['args'][0]
    return 0


def past(e, s, e0, vec, k, index, num_i, it, seen):
    """every span before this one, from where the search began, is known to end at or before the character"""
    if k in seen: return True
    seen.add(k)
    t = e.tab[k]
    if t[0] == 'fld' and t[1] == it and t[3] == num_i: return True
    if t[0] == 'op' and t[1] == 'Add' and e.isc(t[3]) == 1:
        return e.le(s, end_of(e, s, e0, e.mk(('idx', vec, t[2]))), index) and past(e, s, e0, vec, t[2], index, num_i, it, seen)
    if t[0] == 'phi':
        ins = e.phis.get(k, ())
        return bool(ins) and all(past(e, st, e0, vec, v, index, num_i, it, seen) for _, _, st, v in ins)
    return False


# ---------------------------------------------------------------- wrapping
def solvable(facts):
    """can these linear terms all be at least 0 (over the rationals)?"""
    fs = [(dict(m), k) for m, k in facts]
    for _ in range(30):
        out = []
        for m, k in fs:
            if not m:
                if k < 0: return False
            else: out.append((m, k))
        fs = out
        if not fs: return True
        v = min({x for m, _ in fs for x in m}, key=lambda x: sum(1 for m, _ in fs if x in m))
        pos, neg, rest = [f for f in fs if f[0].get(v, 0) > 0], [f for f in fs if f[0].get(v, 0) < 0], [f for f in fs if v not in f[0]]
        for p in pos:
            for q in neg:
                a, b = p[0][v], -q[0][v]
                m = {}
                for x in set(p[0]) | set(q[0]):
                    c = p[0].get(x, 0) * b + q[0].get(x, 0) * a
                    if c: m[x] = c
                rest.append((m, p[1] * b + q[1] * a))
        fs = list({(tuple(sorted(m.items())), k): (m, k) for m, k in rest}.values())
        if len(fs) > 400: return True
    return True


class Erase(Prover, Sess):
    """a range of the text is replaced by a line break: the bounds of the spans must follow"""
    budget = 60
    split_heads = True
    max_steps = 300000
    L, EL = ('G', 'line'), ('G', 'span')

    def should_inline(self, s, g): return 'blocks' in g

    def put(self, s, k, x):
        s.mon = dict(s.mon)
        s.mon[k] = x

    def bad(self, s, w):
        self.wrong.add(w)

    def begin(self, m, a, b):
        self.m, self.a, self.b, self.wrong, self.closed = m, a, b, set(), 0
        self.prover_init()
        self.regions_seen = {}
        s = mkstate()
        s.mon = {'begun': False, 'edited': False, 'open': False}
        self.TX, self.EV = self.sym('text'), self.sym('elements')
        fields = [None] * len(self.ty(m.LINE)['v'][0]['f'])
        fields[m.TI], fields[m.EI] = self.TX, self.EV
        s.store[self.L] = self.agg(m.LINE, 0, tuple(x if x is not None else self.sym('f%d' % i) for i, x in enumerate(fields)))
        s.store[('G', 'len')] = self.sym('len*')
        return s

    def known_facts(self, s):
        a, b, S, E = self.a, self.b, self.sym('S'), self.sym('E')
        return [({a: 1}, 0), ({b: 1, a: -1}, 0), ({S: 1}, 0), ({E: 1, S: -1}, 0)]

    def is_elems(self, s, v):
        for _ in range(3):
            if self.tab[v][0] in ('ref', 'kref', 'guard'):
                if self.tab[v][0] == 'ref' and self.deref(s, v)[0] == self.EL: return False
                v = self.norm(s, self.content(s, v))
        return v == self.EV

    def lin(self, v, d=8):
        # positions are far below the largest number: casts between the integer types keep them
        t = self.tab[v]
        if t[0] == 'cast' and ('isize' in t[1] or 'usize' in t[1]): return self.lin(t[2], d)
        return super().lin(v, d)

    def length(self, s): return s.store[('G', 'len')]

    def lins(self, s, v): return self.lin(self.norm(s, v))

    def known(self, s, m):
        """is this linear term known to be at least 0 here?"""
        neg = ({x: -k for x, k in m[0].items()}, -m[1] - 1)
        return not solvable(self.facts(s, m[0]) + [neg])

    def equal(self, s, m): return self.known(s, m) and self.known(s, ({x: -k for x, k in m[0].items()}, -m[1]))

    def open(self, s, i):
        i = self.norm(s, i)
        if s.mon['open'] and self.same(i, s.store[('G', 'v')]): return self.ref(self.EL)
        self.shut(s)
        above = self.lin(s.store[('G', 'v')]) if s.mon['begun'] else self.lin(self.length(s))
        if not self.equal(s, self.plus(self.plus(self.lin(i), above, -1), ({}, 1), 1)): self.bad(s, 'a span is passed over')
        s.store[('G', 'v')] = i
        self.put(s, 'begun', True)
        self.put(s, 'open', True)
        S, E = self.sym('S'), self.sym('E')
        for dd in (s.eq, s.ne):
            for t in [t for t in dd if S in self.subs(t) or E in self.subs(t)]: del dd[t]
        m = self.m
        v = [None] * 5
        v[m.ST], v[m.FG], v[m.BG], v[m.S0], v[m.S1] = self.sym('style'), self.sym('fg'), self.sym('bg'), S, E
        s.store[self.EL] = self.agg(m.ELEM, 0, tuple(v))
        return self.ref(self.EL)

    REGIONS = ('before', 'at the beginning of', 'inside', 'at the end of', 'after', 'at (nothing is replaced)')

    def region(self, r, p):
        a, b = ({self.a: 1}, 0), ({self.b: 1}, 0)
        lt = lambda x, y: self.plus(self.plus(y, x, -1), ({}, -1), 1)
        eq = lambda x, y: [self.plus(y, x, -1), self.plus(x, y, -1)]
        return {0: [lt(p, a)], 1: eq(p, a) + [lt(a, b)], 2: [lt(a, p), lt(p, b)], 3: eq(p, b) + [lt(a, b)], 4: [lt(b, p)], 5: eq(p, a) + eq(a, b)}[r]

    def shut(self, s):
        """a span is done: have its bounds followed the edit?"""
        if not s.mon.get('open'): return
        self.put(s, 'open', False)
        self.closed += 1
        m = self.m
        v = s.store[self.EL]
        g = lambda i: self.norm(s, self.proj(s, v, (None, i)))
        for i, n in ((m.ST, 'style'), (m.FG, 'fg'), (m.BG, 'bg')):
            if g(i) != self.sym(n): self.bad(s, 'the attributes of a span change')
        fs = self.facts(s, (g(m.S0), g(m.S1)))
        a, b = ({self.a: 1}, 0), ({self.b: 1}, 0)
        width = self.plus(b, a, -1)
        for i, n, what in ((m.S0, 'S', 'beginning'), (m.S1, 'E', 'end')):
            p, q = ({self.sym(n): 1}, 0), self.lin(g(i))
            for r in range(6):
                R = fs + self.region(r, p)
                if not solvable(R): continue
                val = None
                for nm, w in (('same', p), ('moved', self.plus(self.plus(p, width, -1), ({}, 1), 1)), ('a', a), ('a+1', self.plus(a, ({}, 1), 1))):
                    x = self.plus(q, w, -1)
                    if not solvable(R + [self.plus(x, ({}, -1), 1)]) and not solvable(R + [({y: -k for y, k in x[0].items()}, -x[1] - 1)]):
                        val = nm
                        break
                fine = {0: ('same',), 1: ('same',), 2: ('a', 'a+1'), 3: ('moved',), 4: ('moved',), 5: ('same', 'moved')}[r]
                if val not in fine: self.bad(s, 'the %s of a span that was %s the range ends up elsewhere (%s)' % (what, self.REGIONS[r], val or 'an unrelated place'))
                elif self.regions_seen.setdefault(r, val) != val: self.bad(s, 'the bounds of neighbouring spans %s the range end up apart' % self.REGIONS[r])

    def arrive_head(self, s, fi, old, bb):
        self.shut(s)
        if s.mon.get('begun'):
            v, n = self.lin(s.store[('G', 'v')]), self.lin(self.length(s))
            V_, N_ = self.sym('v*'), self.sym('len*')
            for dd in (s.eq, s.ne):
                for t in [t for t in dd if V_ in self.subs(t) or N_ in self.subs(t) or self.sym('S') in self.subs(t) or self.sym('E') in self.subs(t)]: del dd[t]
            for o, x in list(s.store.items()):
                x = self.norm(s, x)
                if self.tab[x][0] == 'ref' or o in (self.L, self.EL): continue
                V1, N1 = self.sym('v new'), self.sym('len new')
                for nu, l in ((V1, v), (N1, n)):
                    for y in sorted(self.subs(x), reverse=True):
                        if self.tab[y][0] in ('op', 'sym', 'phi') and self.lin(y) == l: x = LineE.replace(self, x, y, nu, {})
                for a, b in ((V_, self.sym('v old')), (N_, self.sym('len old')), (V1, V_), (N1, N_)): x = LineE.replace(self, x, a, b, {})
                if s.store[o] != x: s.store[o] = x
        return super().arrive_head(s, fi, old, bb)

    replace = LineE.replace

    def model(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if args and m == 'replace_range' and self.tab[args[0]][0] == 'ref' and self.deref(s, args[0]) == (self.L, ((None, self.m.TI),)):
            a, b = self.bounds(self.norm(s, args[1]), self.TX)
            if a is None or not (self.same(self.norm(s, a), self.a) and self.same(self.norm(s, b), self.b)): self.bad(s, 'another range of the text is replaced')
            w = self.norm(s, args[2])
            for _ in range(3):
                if self.tab[w][0] in ('ref', 'kref'): w = self.norm(s, self.content(s, w))
            if self.tab[w] != ('s', '\n'): self.bad(s, 'the range is replaced by something else than a line break')
            if s.mon['edited']: self.bad(s, 'text is replaced twice')
            self.put(s, 'edited', True)
            return self.unit
        if args and self.is_elems(s, args[0]):
            from models import mkopt
            if m in ('len',): return self.length(s)
            if m in ('index', 'index_mut', 'get_unchecked', 'get_unchecked_mut'): return self.open(s, args[1])
            if m in ('get', 'get_mut'): return mkopt(self, self.open(s, args[1]), self.cur_dest_ty)
            if m == 'is_empty': return self.fresh(s, 'empty')
            if m == 'remove':
                if not (s.mon['open'] and self.equal(s, self.plus(self.lins(s, args[1]), self.lin(s.store[('G', 'v')]), -1))): self.bad(s, 'another span is removed than the one looked at')
                else:
                    v = s.store[self.EL]
                    e_, s_ = (self.norm(s, self.proj(s, v, (None, i))) for i in (self.m.S1, self.m.S0))
                    if not self.known(s, self.plus(self.lin(s_), self.lin(e_), -1)): self.bad(s, 'a span that covers text is removed')
                    last = self.plus(self.plus(self.lins(s, args[1]), self.lin(self.length(s)), -1), ({}, 1), 1)
                    if not self.differs(s, last): self.bad(s, 'the last span can be removed, and the attributes for text to come with it')
                self.shut(s)
                s.store[('G', 'len')] = self.binop(s, 'Sub', self.length(s), self.c(1))
                return self.fresh(s, 'removed')
            if m in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'into_iter') and len(args) == 1 and self.tab[args[0]][0] == 'ref': return args[0]
            if m in ('iter_mut', 'iter'): return self.mk(('call', 'spans'))
            if MUT_VEC.search(g['path']): self.bad(s, 'the list of spans is changed (%s)' % m)
        return super().model(s, g, args, argtys, dest, target, line)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m in ('min', 'max') and len(args) == 2 and all(self.ty(x).get('k') == 'int' for x in argtys):
            a, b = args       # not b < a, or b < a
            out = []
            for k, v in ((0, a), (1, b)):
                u = s.copy()
                if self.assume_lt(u, b, a, k): out.append((u, v if m == 'min' else (b, a)[k]))
            return (self.ret_many(out, dest, target),)
        if m == 'rev' and len(args) == 1:
            t = self.tab[self.norm(s, args[0])]
            if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def') == 'std::ops::Range': return (self.ret(s, dest, target, self.mk(('call', 'downto', t[3][0], t[3][1]))),)
        if m in ('into_iter', 'iter') and len(args) == 1 and self.tab[self.norm(s, args[0])][:2] == ('call', 'downto'): return (self.ret(s, dest, target, args[0]),)
        if m == 'next' and len(args) == 1 and self.tab[args[0]][0] == 'ref':
            t = self.tab[self.norm(s, self.content(s, args[0]))]
            if t[:2] == ('call', 'downto'):
                from models import mkopt
                out = []
                ty = self.cur_dest_ty
                for k in (0, 1):
                    u = s.copy()
                    if not self.assume_lt(u, t[2], t[3], k): continue
                    if not k: out.append((u, mkopt(self, None, ty)))
                    else:
                        i = self.norm(u, self.binop(u, 'Sub', t[3], self.c(1)))
                        self.write(u, self.deref(u, args[0]), self.mk(('call', 'downto', t[2], i)))
                        out.append((u, mkopt(self, i, ty)))
                return (self.ret_many(out, dest, target),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def assume_lt(self, s, a, b, k):
        v = self.norm(s, self.binop(s, 'Lt', a, b))
        c = self.isc(v)
        if c is not None: return c == k
        m = self.plus(self.plus(self.lins(s, b), self.lins(s, a), -1), ({}, -1), 1)      # b - a - 1
        if k == 0: m = ({x: -y for x, y in m[0].items()}, -m[1] - 1)
        if not solvable(self.facts(s, m[0]) + [m]): return False
        s.eq = dict(s.eq)
        s.eq[v] = k
        return True

    def differs(self, s, m):
        """is this linear term known to be other than 0?"""
        if self.known(s, (m[0], m[1] - 1)) or self.known(s, ({x: -k for x, k in m[0].items()}, -m[1] - 1)): return True
        neg = ({x: -k for x, k in m[0].items()}, -m[1])
        for k, v in s.eq.items():
            t = self.tab[k]
            if t[0] == 'op' and t[1] == 'Eq' and v == 0 or t[0] == 'op' and t[1] == 'Ne' and v == 1:
                x = self.plus(self.lins(s, t[2]), self.lins(s, t[3]), -1)
                if x in (m, neg): return True
        return False


def erasing(ctx, feat, d, f, i):
    m = LineE(d)
    e = Erase(d)
    a, b = e.sym('a'), e.sym('b')
    s = e.begin(m, a, b)
    args = []
    nums = 0
    for j in range(1, f['argc'] + 1):
        t = d.types[f['locals'][j]]
        if j == i: args.append(e.ref(e.L))
        elif t.get('def', '').endswith('::Range'): args.append(e.agg(f['locals'][j], 0, (a, b)))
        elif t.get('k') == 'int':
            args.append((a, b)[min(nums, 1)])
            nums += 1
        else: args.append(e.sym('arg%d' % j))
    e.start(s, f['id'], args, f['path'])
    key = '%s:wrap:%s' % (feat, pathtail(f['path']))
    n = 0
    for x in e.explore([s]):
        if x.exit[0] != 'return': continue
        n += 1
        opened = x.mon['open']
        e.shut(x)
        if not x.mon['edited']: e.bad(x, 'the range is not replaced')
        if not x.mon['begun']:
            if not e.known(x, ({y: -k for y, k in e.lin(e.length(x))[0].items()}, -e.lin(e.length(x))[1])): e.bad(x, 'the spans are not moved')
        else:
            v = e.lin(e.norm(x, x.store[('G', 'v')]))
            neg = ({y: -k for y, k in v[0].items()}, -v[1])
            if not (e.known(x, neg) or opened and e.known(x, ({e.a: 1, e.sym('S'): -1}, -1))): e.bad(x, 'spans that the range touches are left as they are')
    for w in sorted(e.wrong): ctx.bad(key, '%s: %s' % (f['path'], w))
    ctx.ob(not e.wrong, key, 'the bounds of every span follow the edit', 'see above')
    ctx.floor('%s: ends of %s' % (feat, f['path'].split('line::')[-1]), n, 2)
    ctx.floor('%s: spans moved by %s' % (feat, f['path'].split('line::')[-1]), e.closed, 2)
    ctx.engine_stats('%s %s' % (feat, f['path']), e)
    return e.visited_fns


class Wrapping(Prover, Sess):
    """which ranges are replaced, and in which order"""
    budget = 30
    split_heads = True
    max_steps = 300000
    L, PREV, CUR = ('G', 'line'), ('G', 'prev'), ('G', 'cur')

    def should_inline(self, s, g): return 'blocks' in g

    def put(self, s, k, x):
        if s.mon.get(k) != x:
            s.mon = dict(s.mon)
            s.mon[k] = x

    def begin(self, m):
        self.prover_init()
        self.m = m
        self.wrong, self.wraps, self.pushes, self.erases, self.unknown = set(), [], 0, 0, set()
        s = mkstate()
        s.mon = {'first': True, 'start': False}
        s.store[self.L] = self.sym('line')
        self.tx = self.norm(s, self.proj(s, self.sym('line'), (None, m.TI)))
        return s

    def through(self, s, v):
        for _ in range(4):
            if self.tab[v][0] in ('ref', 'kref', 'guard'): v = self.norm(s, self.content(s, v))
        return v

    def settle(self, s):
        """the piece looked at becomes the one before"""
        cur = s.store.pop(self.CUR, None)
        if cur is None or self.PREV not in s.store: return
        lo, hi = self.mk(('call', 'lo', cur)), self.mk(('call', 'hi', cur))
        if s.mon.get('empty'): return
        s.store[self.PREV] = hi
        self.put(s, 'first', False)

    def arrive_head(self, s, fi, old, bb):
        self.settle(s)
        if self.PREV in s.store:
            p, P = self.norm(s, s.store[self.PREV]), self.sym('prev*')
            if p != P and not s.mon['first']:
                for dd in (s.eq, s.ne):
                    for t in [t for t in dd if P in self.subs(t)]: del dd[t]
                for o, x in list(s.store.items()):
                    if self.norm(s, x) == p: s.store[o] = P
        return super().arrive_head(s, fi, old, bb)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        n = opn(g['path'])
        if n == 'convert_subset_slice_to_range' or g['local'] and len(args) == 2 and all(self.ty(t).get('k') == 'ref' and self.ty(self.ty(t)['e']).get('k') == 'str' for t in argtys) and self.ty(g['locals'][0]).get('k') == 'tuple':
            el = self.norm(s, self.through(s, args[1]))
            if not self.is_text(s, args[0]): self.wrong.add('the place of a piece is looked for in another text')
            s.store[self.CUR] = el
            self.converts.add(g['id'])
            lo, hi, out = self.mk(('call', 'lo', el)), self.mk(('call', 'hi', el)), []
            for empty in (0, 1):
                u = s.copy()
                self.put(u, 'empty', empty)
                for p, q in ((lo, hi), (hi, lo)): u.eq[self.mk(('op', 'Eq', p, q))] = empty
                for x in (el, self.norm(u, self.content(u, el))):
                    for p, q in ((self.lenv(u, x), self.c(0)), (self.c(0), self.lenv(u, x))): u.eq[self.mk(('op', 'Eq', p, q))] = empty
                    if empty: u.eq[self.lenv(u, x)] = 0
                    else: u.ne[self.lenv(u, x)] = frozenset([0])
                out.append((u, self.agg(g['locals'][0], 0, (lo, hi))))
            return (self.ret_many(out, dest, target),)
        if g['id'] in self.erasers:
            self.erase(s, g, args)
            return (self.ret(s, dest, target, self.unit),)
        return super().hook_call(s, g, args, argtys, dest, target, line)

    def is_text(self, s, v):
        return self.norm(s, self.through(s, v)) == self.tx

    def model(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m == 'wrap' and g['path'].startswith('textwrap::') and len(args) == 2:
            t = self.tab[self.norm(s, self.through(s, args[0]))]
            if self.norm(s, args[1]) != self.sym('width'): self.wrong.add('text is wrapped to another width than the one asked for')
            a = b = None
            if t[0] == 'call' and opn(t[1]) in ('slice', 'index') and t[2] == self.tx: a, b = self.bounds(self.norm(s, t[3]), self.tx)
            elif t[0] == 'fld' and self.is_text(s, args[0]): a, b = self.c(0), self.lenv(s, self.tx)
            if a is None: self.wrong.add('something else is wrapped than a part of the line\'s own text')
            else:
                self.wraps.append((self.norm(s, a), self.norm(s, b)))
                s.store[self.PREV] = self.norm(s, a)
                s.store.pop(self.CUR, None)
                self.put(s, 'first', True)
                self.put(s, 'start', False)
        if m == 'next' and args and self.CUR in s.store: self.settle(s)
        if m == 'push' and len(args) == 2:
            v = self.norm(s, args[1])
            t = self.tab[v]
            if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def') == 'std::ops::Range' and self.PREV in s.store: self.gap(s, self.norm(s, t[3][0]), self.norm(s, t[3][1]))
        return super().model(s, g, args, argtys, dest, target, line)

    def gap(self, s, x, y):
        """this range is noted down to be replaced"""
        self.pushes += 1
        cur = s.store.get(self.CUR)
        if cur is None: return self.wrong.add('a range is replaced that is not before a piece')
        if y != self.mk(('call', 'lo', cur)): self.wrong.add('a range is replaced that does not end where a piece begins')
        if x != self.norm(s, s.store[self.PREV]): self.wrong.add('a range is replaced that does not begin where the piece before ends')
        if s.mon['first'] and not self.lt(s, x, y):
            zero = not self.nonzero(s, y)
            self.put(s, 'start', 'zero' if zero or s.mon['start'] == 'zero' else True)

    def nonzero(self, s, y): return 0 in s.ne.get(y, ()) or self.ge0(s, self.plus(self.lin(y), ({}, -1), 1)) or any(k == 0 and self.tab[t][0] == 'op' and self.tab[t][1] == 'Eq' and y in self.tab[t][2:] and self.c(0) in self.tab[t][2:] for t, k in s.eq.items())

    def erase(self, s, g, args):
        self.erases += 1
        rs = [self.norm(s, a) for a in args[1:]]
        r = next((a for a in rs if self.ty(g['locals'][1 + args.index(a)]).get('def', '').endswith('::Range')), None) if len(rs) == 1 else None
        if r is None: return self.unknown.add('how ranges are given to be replaced')
        way = self.way(r)
        if way is None:
            t = self.tab[r]
            if t[0] == 'agg': self.wrong.add('ranges are replaced from the first to the last, although each replacement moves the ones after it')
            else: self.unknown.add('the order in which ranges are replaced')
        elif way == 0: self.wrong.add('ranges are replaced from the first to the last, although each replacement moves the ones after it')
        if s.mon['start']:
            a = self.norm(s, self.proj(s, r, (None, 0)))
            byte = any(v == 0 and self.tab[t][0] == 'op' and self.tab[t][1] == 'Eq' and self.c(10) in self.tab[t][2:] and a in self.subs(t) and self.tx in self.subs(t) for t, v in s.eq.items()) or \
                any(10 in vs and a in self.subs(t) and self.tx in self.subs(t) for t, vs in s.ne.items())
            at0 = self.le(s, a, self.c(0))
            if not (byte or at0): self.wrong.add('a line break can be inserted where a line begins anyway')
            if not byte and s.mon['start'] == 'zero': self.wrong.add('a line break can be inserted at the beginning of the text')

    def way(self, v, seen=None):
        """the direction of the iteration that yields this: 1 backwards, 0 forwards"""
        seen = seen if seen is not None else set()
        if v in seen: return None
        seen.add(v)
        t = self.tab[v]
        if t[0] == 'fld': return self.way(t[1], seen)
        if t[0] == 'phi':
            for _, _, _, y in self.phis.get(v, ()):
                w = self.way(y, seen)
                if w is not None: return w
            return None
        if t[0] in ('ref', 'kref'): return None
        if t[0] in ('call', 'mut') and len(t) > 2:
            m = opn(t[1])
            a = t[2] if t[0] == 'call' else t[3]
            if m in ('pop', 'next_back', 'rev'):
                w = self.way(a, seen)
                return (1 if w is None else 1 - w) if m != 'pop' else 1
            if m in ('next', 'into_iter', 'iter', 'cloned', 'copied', 'drain', 'by_ref', 'enumerate', 'deref', 'as_slice', 'call', 'take', 'clone', 'zip', 'map', 'collect'):
                w = self.way(a, seen)
                return 0 if w is None else w
            return None
        return None


class Places:
    """what list of places an iterator over the line breaks of the text gives"""
    def __init__(self, e, d): self.e, self.d = e, d

    def seq(self, v, k=10):
        e = self.e
        t = e.tab[v]
        if not k: return None
        if t[0] == 'agg' and isinstance(t[1], int) and e.ty(t[1]).get('def', '').endswith('option::Option'):
            return [('one', t[3][0])] if t[2] == 1 else []
        if t[0] == 'phi':
            outs = {repr(x): x for x in (self.seq(y, k - 1) for _, _, _, y in e.phis.get(v, ())) if x is not None}
            return next(iter(outs.values())) if len(outs) == 1 else None
        if t[0] not in ('call', 'mut') or len(t) < 3: return None
        m = opn(t[1])
        a = t[2:] if t[0] == 'call' else t[3:]
        if t[0] == 'mut' and m == 'next': return self.seq(a[0], k - 1)
        if m in ('collect', 'iter', 'into_iter', 'cloned', 'copied', 'deref', 'as_slice', 'chars?', 'once'):
            if m == 'once': return [('one', a[0])]
            return self.seq(a[0], k - 1)
        if m == 'rev':
            x = self.seq(a[0], k - 1)
            return x and [('breaks', y[1], not y[2], y[3], y[4]) if y[0] == 'breaks' else y for y in reversed(x)]
        if m == 'chain':
            x, y = self.seq(a[0], k - 1), self.seq(a[1], k - 1)
            return x + y if x is not None and y is not None else None
        if m == 'skip':
            x, n = self.seq(a[0], k - 1), e.isc(a[1])
            if x is None or n is None: return None
            for _ in range(n):
                if not x or x[0][0] != 'one': return [('cut',)] + (x or [])
                x = x[1:]
            return x
        if m == 'map':
            x, off = self.seq(a[0], k - 1), self.offset(a[1])
            if x is None or off is None: return None
            return [('breaks', y[1], y[2], y[3] + off if isinstance(y[3], int) else y[3], y[4]) if y[0] == 'breaks' else ('one', e.binop(mkstate(), 'Add', y[1], e.c(off))) if y[0] == 'one' else y for y in x]
        if m == 'filter_map':
            u = e.tab[a[0]]
            if not (u[0] == 'call' and opn(u[1]) in ('chars', 'char_indices')): return None
            r = self.breaks(a[1])
            return None if r is None else [('breaks', u[2], False, r, None)]
        return None

    def closure(self, c):
        t = self.e.tab[c]
        if t[0] != 'agg' or not isinstance(t[1], int): return None
        p = self.e.ty(t[1])
        return next((f for f in self.d.fns.values() if 'blocks' in f and f['argc'] == 2 and f['locals'][1] in (t[1],) or 'blocks' in f and f['argc'] == 2 and self.e.ty(f['locals'][1]).get('k') == 'ref' and self.e.ty(f['locals'][1])['e'] == t[1]), None)

    def offset(self, c):
        f = self.closure(c)
        if f is None: return None
        e = Reading(self.d)
        e.prover_init()
        s = mkstate()
        s.mon = {}
        x = e.sym('x')
        s.store[('G', 'x')] = x
        e.start(s, f['id'], [e.sym('closure'), e.ref(('G', 'x')) if e.ty(f['locals'][2]).get('k') == 'ref' else x], f['path'])
        outs = {e.lin(e.norm(y, y.user['ret'])) and str(e.plus(e.lin(e.norm(y, y.user['ret'])), ({x: 1}, 0), -1)): e.plus(e.lin(e.norm(y, y.user['ret'])), ({x: 1}, 0), -1) for y in e.explore([s]) if y.exit[0] == 'return'}
        if len(outs) != 1: return None
        m, k = next(iter(outs.values()))
        return k if not m else None

    def breaks(self, c):
        """the closure yields the position (plus the result) of each line break and of nothing else"""
        f = self.closure(c)
        if f is None: return None
        e = Reading(self.d)
        e.prover_init()
        s = mkstate()
        s.mon = {}
        n, ch = e.sym('n'), e.sym('ch')
        t = f['locals'][2]
        if self.e.ty(t).get('k') != 'tuple': return None
        e.start(s, f['id'], [e.sym('closure'), e.agg(t, 0, (n, ch))], f['path'])
        offs = set()
        for y in e.explore([s]):
            if y.exit[0] != 'return': continue
            r = e.tab[e.norm(y, y.user['ret'])]
            if r[0] != 'agg': return None
            isnl = y.eq.get(ch) == 10 or any(v == 1 and e.tab[q][0] == 'op' and e.tab[q][1] == 'Eq' and set(e.tab[q][2:4]) == {ch, e.c(10)} for q, v in y.eq.items())
            notnl = 10 in y.ne.get(ch, ()) or any(v == 0 and e.tab[q][0] == 'op' and e.tab[q][1] == 'Eq' and set(e.tab[q][2:4]) == {ch, e.c(10)} for q, v in y.eq.items())
            if r[2] == 1:
                m, k = e.plus(e.lin(e.norm(y, r[3][0])), ({n: 1}, 0), -1)
                offs.add(k if not m and isnl else 'other')
            elif not notnl: offs.add('missing')
        return offs.pop() if len(offs) == 1 and isinstance(next(iter(offs)), int) else 'odd' if offs else None


def wrapping(ctx, feat, d, f, i, erasers):
    m = LineE(d)
    e = Wrapping(d)
    s = e.begin(m)
    e.erasers, e.converts = erasers, set()
    args = [e.ref(e.L) if j == i else e.sym('width') if d.types[f['locals'][j]].get('k') == 'int' else e.sym('arg%d' % j) for j in range(1, f['argc'] + 1)]
    e.start(s, f['id'], args, f['path'])
    key = '%s:wrap:%s' % (feat, pathtail(f['path']))
    n = 0
    for x in e.explore([s]):
        if x.exit[0] == 'return': n += 1
    for w in sorted(e.wrong): ctx.bad(key + ':' + re.sub(r'[^a-z]+', '-', w[:60].lower()), '%s: %s' % (f['path'], w))
    ctx.ob(not e.wrong, key, 'only what is between two pieces is replaced, from the last to the first', 'see above')
    pl = Places(e, d)
    judged = 0
    for a, b in e.wraps:
        r = both(e, pl, a, b)
        if r is None: continue
        judged += 1
        ctx.ob(r == '', key + ':lines', 'each line of the text is wrapped by itself, from the last to the first', '%s: %s' % (f['path'], r))
    ctx.counts['%s: wrapped parts recognised as the lines of the text' % feat] = judged
    if not judged: e.unknown.add('how the text is cut into lines')
    for u in sorted(e.unknown): ctx.assumptions.append('%s: %s was not recognised, and not judged' % (feat, u))
    ctx.floor(feat + ': calls of the wrapping library', len(e.wraps), 1)
    ctx.floor(feat + ': ranges noted', e.pushes, 1)
    ctx.floor(feat + ': ranges replaced', e.erases, 1)
    ctx.engine_stats('%s %s' % (feat, f['path']), e)
    for c in sorted(e.converts): converting(ctx, feat, d, d.fns[c])
    return e.visited_fns | e.converts


def both(e, pl, a, b):
    """is what is wrapped a line of the text? '' yes, None not recognised"""
    def side(v):
        t = e.tab[v]
        while t[0] in ('fld', 'deref', 'call') and not (t[0] == 'call' and opn(t[1]) == 'next'):
            if t[0] == 'fld' and t[2] is None and t[3] in (0, 1):
                u = e.tab[t[1]]
                if u[0] == 'fld' and u[2] == 1:
                    c = e.tab[u[1]]
                    if c[0] == 'call' and opn(c[1]) == 'next':
                        z = origin(c[2])
                        if z is not None: return e.tab[z][2 + t[3]]
            if not isinstance(t[1], V) and not (len(t) > 2 and isinstance(t[2], V)): return None
            t = e.tab[t[1] if isinstance(t[1], V) else t[2]]
        return None

    def origin(v, k=8):
        t = e.tab[v]
        if not k: return None
        if t[0] == 'call' and opn(t[1]) == 'zip': return v
        if t[0] == 'mut' and opn(t[1]) == 'next': return origin(t[3], k - 1)
        if t[0] == 'call' and opn(t[1]) in ('into_iter', 'next'): return origin(t[2], k - 1)
        if t[0] == 'phi':
            for _, _, _, y in e.phis.get(v, ()):
                r = origin(y, k - 1)
                if r is not None: return r
        return None
    x, y = side(a), side(b)
    if x is None or y is None: return None
    x, y = pl.seq(x), pl.seq(y)
    if x is None or y is None: return None
    br = lambda k, back: ('breaks', e.tx, back, k, None)
    ln = ('one', e.mk(('call', 'len', e.tx)))
    if any(z[0] == 'breaks' and z[3] == 'odd' for z in x + y): return 'something else than line breaks is taken for the end of a line'
    ones = lambda q: [('one', e.pp(z[1])) if z[0] == 'one' else z for z in q]
    good = [br(1, True), ('one', e.c(0))], [ln, br(0, True)]
    if ones(x) == ones(good[0]) and ones(y) == ones(good[1]): return ''
    fwd = [('one', e.c(0)), br(1, False)], [br(0, False), ln]
    if ones(x) == ones(fwd[0]) and ones(y) == ones(fwd[1]): return 'lines are wrapped from the first to the last, although wrapping one moves the ones after it'
    return 'what is wrapped together does not reach from just after a line break to the next one'


class Address(Reading):
    """the end of a text in memory is an address: adding its length cannot fail"""
    def model(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m in ('checked_add', 'checked_sub') and len(args) == 2:
            from models import mkopt
            return mkopt(self, self.binop(s, 'Add' if m == 'checked_add' else 'Sub', args[0], args[1]), self.cur_dest_ty)
        if m in ('unwrap', 'expect') and args and self.tab[self.norm(s, args[0])][0] == 'agg':
            t = self.tab[self.norm(s, args[0])]
            if t[2] == 1: return t[3][0]
        return super().model(s, g, args, argtys, dest, target, line)


def converting(ctx, feat, d, f):
    """where a piece is in the text: distances of addresses"""
    e = Address(d)
    e.prover_init()
    s = mkstate()
    s.mon = {}
    o, i = e.sym('outer'), e.sym('inner')
    e.start(s, f['id'], [o, i], f['path'])
    n = 0
    key = feat + ':wrap:place'
    for x in e.explore([s]):
        if x.exit[0] != 'return': continue
        n += 1
        lo, hi = (e.norm(x, e.proj(x, x.user['ret'], (None, k))) for k in (0, 1))
        ld, hd = e.lin(lo), e.lin(e.norm(x, hi))
        w = e.plus(hd, ld, -1)
        L = e.lenv(x, i)
        if not w[0] and w[1] == 0: okay = x.eq.get(e.norm(x, e.lenv(x, i))) == 0 or any(k == 1 and 'is_empty' in str(e.tab[t][:2]) or k == 1 and e.tab[t][0] == 'op' and e.tab[t][1] == 'Eq' for t, k in x.eq.items())
        else: okay = w[1] == 0 and list(w[0].values()) == [1] and e.tab[next(iter(w[0]))][0] == 'call' and opn(e.tab[next(iter(w[0]))][1]) == 'len' and i in e.subs(next(iter(w[0]))) and sorted(ld[0].values()) == [-1, 1] and ld[1] == 0 and all((i if k == 1 else o) in e.subs(t) for t, k in ld[0].items())
        ctx.ob(okay, key, 'a piece is found by the distance of its address from that of the text', '%s does not give the place of a piece in the text: from %s to %s' % (f['path'], e.pp(lo)[:60], e.pp(hi)[:60]))
    ctx.floor(feat + ': ends of %s' % pathtail(f['path']), n, 2)


def replaces(e, f):
    """does the body replace part of a line's text?"""
    for st, t in f['blocks']:
        if t[0] == 'call' and 'replace_range' in str(t[1]): return True
    return False

def wraps(e, f):
    """does the function replace part of a line's text, or have it replaced?"""
    return f['id'] in e.wrapping_fns


def rewriters(d):
    """(functions that replace part of the text, functions that call one)"""
    e = LineE(d)
    inner, outer = set(), set()
    mine = [f for f in d.fns.values() if f['local'] and 'blocks' in f and takes_line(e, f) is not None and '{closure' not in f['path']]
    for f in mine:
        if replaces(e, f): inner.add(f['id'])
    for f in mine:
        if f['id'] not in inner and any(t[0] == 'call' and callee(d, t) in inner for _, t in f['blocks']): outer.add(f['id'])
    return inner, outer


def callee(d, t):
    x = t[1][1].get('fn') if t[1][0] == 'k' and isinstance(t[1][1], dict) else None
    return x if isinstance(x, int) else None


def check(ctx):
    for feat in ('default', 'all'):
        d = ctx.dump(feat)
        inner, outer = rewriters(d)
        LineE.wrapping_fns = inner | outer
        seen = set()
        e = LineE(d)
        for i in sorted(inner): seen |= erasing(ctx, feat, d, d.fns[i], takes_line(e, d.fns[i]))
        for i in sorted(outer): seen |= wrapping(ctx, feat, d, d.fns[i], takes_line(e, d.fns[i]), inner)
        ctx.floor(feat + ': functions that rewrite text', len(inner), 1)
        ctx.floor(feat + ': functions that wrap', len(outer), 1)
        reading(ctx, feat, d)
        LineE.wrapping_fns = inner | outer | seen
        building(ctx, feat, d)
