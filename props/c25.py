"""Positions of the cursor, decided from the type-checked program.
(a) What get_width of each terminal back end returns is at least 1 on every path.
(b) A function that moves the cursor and is given the place where it is (a row and a column, by mutable reference) is
    interpreted with ghost variables for the real row and column of the cursor: the movements it asks for must have a
    distance of at least 1 that does not lead over a margin, and when it returns the ghosts must be what its caller is told,
    and the place it was asked to go to (columns count up to the margin: a cursor after the last column is shown in it).
    Which parameter is what is found by trying the assignments; one has to be right on all paths.
(c) The functions that keep the remembered output are interpreted from every state it can be in, with the terminal's operations
    (and the function of (b), by its contract) moving the ghosts: they may only be asked to move from where the cursor
    really is, what is remembered at the end must be where the cursor really is, and when nothing is remembered the cursor
    must be where the output began. Equalities of positions are proved by fixed rules on linear terms, with coinduction over
    what loops carry.
(d) In every function that draws, by itself and from any arguments (or inlined in its callers), no subtraction of rows or columns
    may go below zero, and nothing may be divided by a width that may be zero.
(e) Each back end's movement operations, interpreted with each of a few amounts, ask for that much in that direction.
Not decided here: that the place counted while unchanged text is skipped is the place where that text is shown (C27)."""
from c26 import *
from backend import backends, Back

MOVES = {'move_cursor_up': ('row', -1), 'move_cursor_down': ('row', 1), 'move_cursor_left': ('col', -1), 'move_cursor_right': ('col', 1)}


TOLD = 'a column shown like'


def term_op(g): return opn(g['path']) if 'Term::' in g['path'] and g['kind'] == 'virtual' else None


class Move(Cap):
    budget = 8
    keep_panics = True
    GHOSTS = ('row', 'col')
    contracts = {}
    inl = frozenset()

    def __init__(self, d):
        super().__init__(d)
        self.nmoves = 0
        self.failed = set()
        self.occurs = {}
        self.sides = {}
        self.deads = {}
        self.ops = set()

    def base(self, s):
        s.mon = {'at': None}
        self.W = self.sym('width')
        s.ne = dict(s.ne)
        s.ne[self.W] = frozenset({0})
        s.store[('G', 'W')] = self.W
        for n in ('row', 'col'): s.store[('G', n)] = self.c0

    def position(self, where, s):
        o = where[0]
        if o[0] == 'G': return o[1] in self.GHOSTS
        if o[0] != 'L' or o[1] != s.stack[0][1]: return False
        return self.d.tyname(self.d.fns[s.stack[0][0]]['locals'][o[2]]) in ('u32', 'std::option::Option<u32>', '(u32, u32)', 'std::option::Option<(u32, u32)>')

    def join(self, va, vb, tag, where, a, b):
        # positions are joined whenever paths are, so that they belong to the same path when they are taken apart
        if va == vb and self.position(where, a):
            ph = self.mk(('phi', tag, where))
            t = self.tab[va]
            if t[0] == 'agg': return self.agg(t[1], t[2], [self.join(x, x, tag, where + (i,), a, b) for i, x in enumerate(t[3])])
            if va != ph:
                l = self.phis.setdefault(ph, [])
                l += [(self.nevent, 0, a, va), (self.nevent, 1, b, vb)]
                self.renamed.add(ph)
                return ph
        return super().join(va, vb, tag, where, a, b)

    def gc(self, s):
        was = list(s.eq.items())
        super().gc(s)
        now = {x for n in self.GHOSTS for x in self.subs(self.g(s, n))}
        for t, k in was:
            u = self.tab[t]
            if t not in s.eq and u[0] == 'op' and u[1] == 'Lt' and k == 1 and u[3] in now and self.tab[u[2]][0] == 'phi': s.eq[t] = k

    def fits(self, s, v): return True      # fewer than 2^32 rows and columns

    def ge0(self, *a): return Prover.ge0(self, *a)

    def ge(self, s, m, depth=2): return self.ge0(s, m)

    def contradiction(self, s): return Prover.contradiction(self, s)

    def should_inline(self, s, g):
        if 'blocks' not in g: return False
        if g['local']: return g['id'] in self.inl
        return True

    # ---- where the cursor is
    def shown(self, s, v):
        """columns are shown up to the last one: [(state, column)]"""
        out = []
        for k in (1, 0):
            x = s.copy()
            try: self.assume(x, self.binop(x, 'Lt', v, self.W), k)
            except Infeasible: continue
            out.append((x, v if k else self.sub(x, self.W, self.c1)))
        return out

    def stripped(self, v):
        while self.tab[v][0] == 'call' and self.tab[v][1] == TOLD: v = self.tab[v][2]
        return v

    def pairs(self, a, b):
        """what the two values are where the paths that join come from: [(state, value, value)]"""
        ph = {y for v in (a, b) for x in self.lin(v)[0] for y in self.subs(x) if self.tab[y][0] == 'phi' and y in self.phis}
        there = ph | {y for v in (a, b) for y in self.subs(v) if self.tab[y][0] == 'fresh' or self.tab[y][:2] == ('call', TOLD)}
        out, evs = [], {}
        for x in ph:
            for ev, side, st, val in self.phis[x]: evs.setdefault((ev, side), (st, {}))[1][x] = val
        # the last time any of them was joined, the others were there already
        for k, (st, m) in sorted(evs.items(), key=lambda kv: kv[0]):
            if not all(y in m or self.both(k[0], y) or self.subst(st, y, m) != y and self.subst(st, y, m) in self.within(st) for y in there): continue
            if self.undef in m.values(): return None
            m = {y: v for y, v in m.items() if v != y}
            if m: out.append((st,) + tuple(self.subst(st, v, m) for v in (a, b)))
        return out or None

    def widen(self, a, b, tag, entry=None):
        self.sides[self.nevent + 1] = (a, b)
        self.renamed = set()
        m = super().widen(a, b, tag, entry)
        # what was known of another position of that name is not known of this one
        for fs in (m.eq, m.ne):
            for t in [t for t in fs if self.subs(t) & self.renamed]: del fs[t]
        return m

    def both(self, ev, y):
        a, b = self.sides[ev]
        return y in self.within(a) and y in self.within(b)

    def within(self, s):
        r = self.occurs.get(id(s))
        if r is None:
            w = set()
            for v in s.store.values(): w |= self.subs(v)
            r = self.occurs[id(s)] = (w, s)
        return r[0]

    def agree(self, s, a, b, kind, seen):
        """are the two values the same (columns: as they are shown; 'ge': is the first not the smaller one)?
        A pair that comes back while it is being looked at is taken to agree"""
        for x, y in ((a, b), (self.stripped(a), self.stripped(b))) if kind == 'col' else ((a, b),):
            if self.leaf(s, x, y, kind) or self.leaf(s, self.norm(s, x), self.norm(s, y), kind): return True
        key = (a, b, kind)
        if key in seen: return True
        if key in self.failed: return False
        if kind == 'ge':
            m = self.plus(self.lin(a), self.lin(b), -1)
            if any(self.nonneg(self.plus(m, self.plus(self.lin(x), self.lin(y), -1), -1)) for x, y, k in seen): return True
        ps = self.pairs(a, b)
        if ps is None: return False
        seen.add(key)
        for st, x, y in ps:
            if not self.agree(st, x, y, kind, seen) and not (kind != 'ge' and self.dead(st)):
                self.failed.add(key)
                return False
        return True

    def leaf(self, s, a, b, kind):
        if self.same(a, b): return True
        m = self.plus(self.lin(a), self.lin(b), -1)
        if kind == 'ge': return self.from_facts(m, self.facts(s, m[0]), 2)
        if not m[0]: return m[1] == 0 or kind == 'col' and self.past(s, a) and self.past(s, b)
        fs = self.facts(s, m[0])
        return self.from_facts(m, fs, 2) and self.from_facts(({k: -n for k, n in m[0].items()}, -m[1]), fs, 2) or kind == 'col' and self.past(s, a) and self.past(s, b)

    def past(self, s, v):
        m = self.plus(self.lin(v), self.plus(self.lin(self.W), ({}, -1), 1), -1)
        return self.from_facts(m, self.facts(s, m[0]), 2)

    def dead(self, s):
        """a path on which something smaller has to be the greater"""
        r = self.deads.get(id(s))
        if r is None: r = self.deads[id(s)] = (self.is_dead(s), s)
        return r[0]

    def is_dead(self, s):
        for t, k in s.eq.items():
            u = self.tab[t]
            if k in (0, 1) and u[0] == 'op' and u[1] in ('Lt', 'Le') and len(u) == 4:
                a, b = (u[2], u[3]) if k else (u[3], u[2])
                if u[1] == 'Lt' and k and self.agree(s, a, b, 'ge', set()): return True
                if (u[1] == 'Lt') != bool(k) and self.agree(s, a, self.add(s, b, self.c1), 'ge', set()): return True
        return False

    def eqp(self, s, a, b): return self.agree(s, a, b, 'row', set())

    def same_column(self, s, a, b): return self.agree(s, a, b, 'col', set())

    def moved(self, s, m, n):
        self.nmoves += 1
        g, k = MOVES[m]
        self.demand(s, 'asks for a movement that may have a distance of zero', 'le', self.c1, n)
        out = []
        for x, p in (self.shown(s, self.g(s, 'col')) if g == 'col' else [(s, self.g(s, 'row'))]):
            if k < 0: self.demand(x, 'asks for a movement that leads over a margin, or in the wrong direction', 'le', n, p)
            elif g == 'col': self.demand(x, 'asks for a movement that leads over a margin, or in the wrong direction', 'lt', self.add(x, p, n), self.W)
            self.setg(x, g, self.add(x, p, n) if k > 0 else self.sub(x, p, n))
            out.append(x)
        return out

    def width_of(self, ch): return self.mk(('call', 'columns', ch))

    def model(self, s, g, args, argtys, dest, target, line):
        m = term_op(g)
        if m:
            self.ops.add(m)
            t = self.ty(self.cur_dest_ty)
            unit = self.agg(self.cur_dest_ty, 0, (self.unit,)) if t.get('def') == 'std::result::Result' else None
            if m == 'get_width': return self.W
            if unit is None: return self.fresh(s, m)
            if m in MOVES: return [(x, unit) for x in self.moved(s, m, self.norm(s, args[1]))]
            if m == 'newline':
                self.setg(s, 'row', self.add(s, self.g(s, 'row'), self.c1))
                self.setg(s, 'col', self.c0)
            elif m == 'carriage_return': self.setg(s, 'col', self.c0)
            elif m == 'print_char': self.setg(s, 'col', self.add(s, self.g(s, 'col'), self.width_of(self.norm(s, args[1]))))
            elif m == 'print_spaces': self.setg(s, 'col', self.add(s, self.g(s, 'col'), self.norm(s, args[1])))
            elif m in ('print', 'cls', 'clear', 'suspend', 'unsuspend'):
                self.setg(s, 'col', self.fresh(s, 'somewhere'))
                if m != 'print': self.setg(s, 'row', self.fresh(s, 'somewhere'))
            return unit
        return super(Cap, self).model(s, g, args, argtys, dest, target, line)

    def castv(self, s, kind, a, tid, from_tid):
        if kind == 'IntToInt' and self.d.tyname(tid) in ('u32', 'usize', 'u64'): return a
        return super().castv(s, kind, a, tid, from_tid)

    def hook_call(self, s, g, args, argtys, dest, target, line):
        m = opn(g['path'])
        if m in ('min', 'max', 'saturating_sub') and len(args) == 2 and not g['local'] and self.d.tyname(self.cur_dest_ty) in ('u32', 'usize', 'u16', 'u64'):
            a, b = self.norm(s, args[0]), self.norm(s, args[1])
            out = []
            for k in (1, 0):
                x = s.copy()
                try: self.assume(x, self.binop(x, 'Lt', a, b), k)
                except Infeasible: continue
                out.append((x, {'min': (b, a), 'max': (a, b), 'saturating_sub': (self.sub(x, a, b), self.c0)}[m][k]))
            return (self.ret_many(out, dest, target),)
        if 'UnicodeWidthChar' in g['path'] and m == 'width':
            return (self.ret(s, dest, target, self.agg(self.cur_dest_ty, 1, (self.width_of(self.norm(s, args[0])),))),)
        if m in ('borrow_mut', 'borrow') and 'RefCell' in g['path']: return (self.ret(s, dest, target, self.sym('the terminal')),)
        c = self.contracts.get(g['id'])
        if c: return (self.ret_many(self.apply(s, c, args), dest, target),)
        if 'blocks' in g and g['local'] and g['id'] not in self.inl:
            return (self.ret(s, dest, target, self.fresh(s, opn(g['path']))),)
        if g['kind'] == 'virtual' or g['path'].endswith('::eq') or g['path'].endswith('::ne') or m in ('fmt', 'drop', 'deref', 'deref_mut', 'last', 'len', 'clone', 'contains'):
            if term_op(g): return None
            if m in ('deref', 'deref_mut'): return (self.ret(s, dest, target, self.sym('behind')),)
            if re.search(r'::(u32|usize|u16|Ordering)\b', g['name']) and m in ('eq', 'ne'): return None
            if m == 'len': return (self.ret(s, dest, target, self.fresh(s, 'length')),)
            return (self.ret(s, dest, target, self.fresh(s, m)),)
        return None

    def ok(self): return self.agg(self.cur_dest_ty, 0, (self.unit,)) if self.ty(self.cur_dest_ty).get('def') == 'std::result::Result' else self.unit

    # ---- a function that moves the cursor, by its contract
    def apply(self, s, c, args):
        a = lambda i: self.norm(s, args[i - 1])
        loc = lambda i: self.deref(s, a(i))
        rl, cl = loc(c['row']), loc(c['col'])
        r, k = self.norm(s, self.read(s, rl)), self.norm(s, self.read(s, cl))
        self.demand(s, 'is told of another row than the one the cursor is in', 'eqp', self.g(s, 'row'), r)
        self.demand(s, 'is told of another column than the one the cursor is in', 'same_column', self.g(s, 'col'), k)
        if c.get('width'): self.demand(s, 'is told of another width', 'eqp', self.W, a(c['width']))
        tr, tc = a(c['to row']), a(c['to col'])
        self.write(s, rl, tr)
        # the column it tells of may be another one if both are beyond the last one
        self.setg(s, 'row', tr)
        self.setg(s, 'col', tc)
        self.write(s, cl, self.mk(('call', TOLD, tc)))
        self.nmoves += 1
        return [(s, self.ok())]


# ---------------------------------------------------------------- what is analysed
def movers(d):
    """functions that ask for a movement of the cursor"""
    vs = {f['id']: opn(f['path']) for f in d.fns.values() if term_op(f) in MOVES}
    cg = CallGraph(d)
    return cg, {f['id']: f for f in d.fns.values() if f['local'] and 'blocks' in f and f['id'] < 1000000 and cg.succ[f['id']] & set(vs)}


def is_u32(d, t, ref=False):
    t = d.types[t]
    if ref: return t['k'] == 'ref' and t.get('mut', True) and d.types[t['e']]['k'] == 'int' and d.tyname(t['e']) == 'u32'
    return t['k'] == 'int'


BELOW = re.compile("'Sub'|Division|Remainder")


def columns(d, f, a):
    """is this assertion about a subtraction or division of rows or columns?"""
    if not BELOW.search(str(a)): return False
    return any(d.tyname(f['locals'][o[1][0]]) in ('u32', 'u16') for o in a if isinstance(o, (list, tuple)) and o[0] in ('m', 'c') and isinstance(o[1], (list, tuple)) and len(o[1]) == 1) or "'Sub'" not in str(a)


def subtractions(d, f):
    """the subtractions of rows and columns in this function that are checked for going below zero, and the divisions"""
    out = []
    for b in f.get('blocks', ()):
        t = b[1] if isinstance(b, (list, tuple)) else b['t']
        if t[0] == 'assert' and columns(d, f, t[3]): out.append(str(t[3]))
    return out


class Moves(Back):
    """a back end, with every movement counted"""
    def op(self, s, *o):
        if o[0] == 'move': self.put(s, 'out', s.mon['out'] + (o,))
        else: super().op(s, *o)


AMOUNTS = (1, 2, 3, 5)


def back_ends(ctx, d, feat):
    n = 0
    bs = backends(d)
    for ty, ops in sorted(bs.items()):
        name = '%s:%s' % (feat, slug(pathtail(ty)))
        if 'get_width' in ops:
            e = Moves(d, ty, ops)
            for x in e.run_op([e.begin()], ops['get_width']):
                if x.exit[0] != 'return': continue
                n += 1
                v = e.norm(x, x.user['ret'])
                k = e.isc(v)
                pos = k is not None and k >= 1 or k is None and (0 in x.ne.get(v, ()) or any(t[0] == 'op' and t[1] == 'Lt' and (t[3] == v and q == 1 or t[2] == v and q == 0 and (e.isc(t[3]) or 0) >= 1) for t, q in ((e.tab[y], q) for y, q in x.eq.items())))
                ctx.ob(pos, name + ':get-width:zero', 'the width is at least 1', '%s::get_width can return a width of 0' % ty)
        for m, (g, k) in sorted(MOVES.items()):
            if m not in ops: continue
            want = m.split('_')[-1]
            for amt in AMOUNTS:
                e = Moves(d, ty, ops)
                for x in e.run_op([e.begin()], ops[m], [e.c(amt)]):
                    if x.exit[0] != 'return' or not e.result_ok(x): continue
                    n += 1
                    got = [o for o in x.mon['out'] if o[0] != 'dirty']
                    dist = 0
                    for o in got:
                        a = o[2] if o[0] == 'move' and o[1] == want else None
                        a = a if isinstance(a, int) and not isinstance(a, V) else e.isc(e.norm(x, a)) if a is not None else None
                        dist = None if a is None or dist is None else dist + a
                    ctx.ob(dist == amt, '%s:%s:moves' % (name, slug(m)), 'moves by the amount, in the direction', '%s::%s(%d) asks the terminal for %s' % (ty, m, amt, [o[:2] for o in got][:6]))
    ctx.floor('%s: back ends' % feat, len(bs), 2)
    ctx.counts['%s: ways the operations of the back ends end' % feat] = n


def no_underflow(ctx, d, feat, cg, to_term, told):
    callers = {}
    for i, ss in cg.succ.items():
        for x in ss: callers.setdefault(x, set()).add(i)
    todo = [(f, frozenset()) for f in d.fns.values() if f['local'] and 'blocks' in f and f['id'] < 1000000 and f['id'] in to_term and f['id'] not in told and subtractions(d, f)]
    n = 0
    while todo:
        f, inl = todo.pop(0)
        e, out = below_zero(d, f, inl)
        n += len(subtractions(d, f))
        key = '%s:%s:below-zero' % (feat, slug(pathtail(f['path'])))
        up = [d.fns[i] for i in callers.get(f['id'], ()) if i in d.fns and d.fns[i]['local']]
        if out and len(inl) < 2 and up: todo += [(g, inl | {f['id']}) for g in up]
        else: ctx.ob(not out, key, 'no subtraction or division of rows or columns fails', 'a subtraction or division of rows or columns can fail in %s' % ', '.join(sorted(out))[:200])
    ctx.floor('%s: subtractions of columns' % feat, n, 2)


class Alone(Move):
    """a function by itself, from any arguments"""
    def term_unit(self): return None

    def position(self, where, s): return Cap.position(self, where, s)


def below_zero(d, f, inl):
    e = setup(Alone(d), '', None)
    e.inl, e.budget = inl, 60
    s = mkstate()
    e.base(s)
    s.store[('G', 'self')] = e.sym('self')
    args = []
    for i in range(1, f['argc'] + 1):
        t = d.types[f['locals'][i]]
        if t.get('k') == 'ref':
            s.store[('G', 'p%d' % i)] = e.sym('p%d' % i)
            args.append(e.ref(('G', 'p%d' % i)))
        else: args.append(e.sym('arg%d' % i))
    e.start(s, f['id'], args, f['path'])
    out = {}
    for x in e.explore([s]):
        if x.exit[0] == 'panic' and x.exit[1][0] == 'assert' and re.search("'Sub'|Division|Remainder", str(x.exit[1][3][3])) and not e.dead(x):
            g = d.fns[x.stack[-1][0]] if x.stack else f
            if columns(d, g, x.exit[1][3][3]): out[e.where(x)] = x
    return e, out


def contract(ctx, d, f, inl):
    """which parameters are the row and column the cursor is in, those where it has to go, and the width"""
    refs = [i for i in range(1, f['argc'] + 1) if is_u32(d, f['locals'][i], True)]
    vals = [i for i in range(1, f['argc'] + 1) if is_u32(d, f['locals'][i])]
    best = None
    for r in refs:
        for c in refs:
            if r == c: continue
            for w in vals + [None]:
                e = setup(Move(d), '', None)
                e.inl, e.budget = inl, 300
                s = mkstate()
                e.base(s)
                args = []
                for i in range(1, f['argc'] + 1):
                    if i in refs:
                        s.store[('G', 'p%d' % i)] = e.sym('p%d' % i)
                        args.append(e.ref(('G', 'p%d' % i)))
                    else: args.append(e.W if i == w else e.sym('arg%d' % i))
                e.setg(s, 'row', e.sym('p%d' % r))
                e.setg(s, 'col', e.sym('p%d' % c))
                e.start(s, f['id'], args, f['path'])
                exits = e.explore([s])
                why = {k: v for k, v in e.wrong().items()}
                bad = [k for k in sorted(why)]
                if any(x.exit[0] == 'panic' and x.exit[1][0] == 'assert' and 'Add' not in str(x.exit[1][3][3]) and not e.dead(x) for x in exits): bad.append('can fail on a subtraction')
                rets = [x for x in exits if x.exit[0] == 'return' and not e.dead(x)]
                if any(not e.eqp(x, e.g(x, 'row'), x.store[('G', 'p%d' % r)]) for x in rets): bad.append('does not tell its caller the row the cursor is in afterwards')
                if any(not e.same_column(x, e.g(x, 'col'), x.store[('G', 'p%d' % c)]) for x in rets): bad.append('does not tell its caller the column the cursor is in afterwards')
                tr = [i for i in vals if i != w and all(e.eqp(x, e.g(x, 'row'), e.sym('arg%d' % i)) for x in rets)]
                tc = [i for i in vals if i != w and i not in tr and all(e.same_column(x, e.g(x, 'col'), e.sym('arg%d' % i)) for x in rets)]
                if not tr: bad.append('does not move to a row it is given')
                if not tc: bad.append('does not move to a column it is given')
                k = (len(bad), r, c, w or 0)
                if rets and e.nmoves and (best is None or k < best[0]):
                    best = (k, bad, {'row': r, 'col': c, 'width': w, 'to row': tr and tr[0], 'to col': tc and tc[0]}, e, len(rets), len(exits))
    return best


def remembered(d, e):
    """the part of the state that remembers an output: (field, type of what is remembered, its integer fields)"""
    for i, t in enumerate(e.ftypes):
        u = d.types[t]
        if u['k'] == 'adt' and u['def'] == 'std::option::Option':
            a = d.types[u['args'][0]]
            if a['k'] == 'adt' and a.get('local') and a.get('kind') == 'Struct':
                ints = [j for j, (_, x) in enumerate(a['v'][0]['f']) if d.tyname(x) == 'u32']
                if len(ints) == 2: return i, t, u['args'][0], ints
    return None


def constants(d, e, f):
    """parameters that are the same constant in every call: {number: value}"""
    out = {}
    for g in d.fns.values():
        for b in g.get('blocks', ()):
            t = b[1] if isinstance(b, (list, tuple)) else b['t']
            if t[0] != 'call': continue
            if t[1][0] == 'k' and isinstance(t[1][1], dict) and t[1][1].get('fn') == f['id']:
                for i, o in enumerate(t[2], 1):
                    v = o[1].get('b') if o[0] == 'k' and isinstance(o[1], dict) else None
                    out.setdefault(i, set()).add(v)
            elif any(o[0] == 'k' and isinstance(o[1], dict) and o[1].get('fn') == f['id'] for o in t[2]): return {}
    return {i: e.c(int(next(iter(v)))) for i, v in out.items() if len(v) == 1 and None not in v}


def keeper(d, f, inl, contracts, mem, hyp, full):
    """interprets a function that keeps the remembered output"""
    fi_, opt, ty, ints = mem
    e = setup(Move(d), '', None)
    e.inl, e.contracts = inl, contracts
    consts = constants(d, e, f)
    sts = []
    for some in (0, 1):
        s = mkstate()
        e.base(s)
        s.mon = dict(s.mon, from_=some)
        fs = [e.sym('field %d' % i) for i in range(len(e.ftypes))]
        if some:
            parts = [e.sym('remembered %d' % j) for j in range(len(d.types[ty]['v'][0]['f']))]
            fs[fi_] = e.agg(opt, 1, (e.agg(ty, 0, parts),))
            e.setg(s, 'row', parts[ints[hyp]])
            e.setg(s, 'col', parts[ints[1 - hyp]])
        else: fs[fi_] = e.agg(opt, 0, ())
        s.store[('G', 'self')] = e.agg(e.state_ty, 0, fs)
        args = [e.ref(('G', 'self')) if d.types[f['locals'][i]].get('k') == 'ref' and d.types[f['locals'][i]]['e'] == e.state_ty else consts[i] if i in consts else e.sym('arg%d' % i) for i in range(1, f['argc'] + 1)]
        e.start(s, f['id'], args, f['path'])
        sts.append(s)
    exits = e.explore(sts)
    n = 0
    for x in exits:
        if x.exit[0] != 'return': continue
        n += 1
        v = e.norm(x, e.read(x, (('G', 'self'), (('f', fi_),)))) if False else e.norm(x, e.proj(x, x.store[('G', 'self')], (None, fi_)))
        k = e.isc(e.norm(x, e.discr(x, v)))
        if k == 1:
            p = e.proj(x, v, (1, 0))
            e.demand(x, 'remembers another row than the one the cursor is in', 'eqp', e.g(x, 'row'), e.norm(x, e.proj(x, p, (None, ints[hyp]))))
            e.demand(x, 'remembers another column than the one the cursor is in', 'same_column', e.g(x, 'col'), e.norm(x, e.proj(x, p, (None, ints[1 - hyp]))))
        elif k == 0:
            if x.mon['from_']: e.demand(x, 'forgets an output without moving to the row where it began', 'eqp', e.g(x, 'row'), e.c0)
            e.demand(x, 'leaves the cursor inside a row', 'same_column', e.g(x, 'col'), e.c0)
        else: e.fault(x, 'leaves a remembered output that cannot be followed')
    return e, exits, n


def check(ctx):
    ctx.assumptions += ['fewer than 2^32 rows and columns are drawn; characters wider than one column are not cut at the margin',
                        'the terminal does not wrap by itself, and its width stays the same during one update',
                        'an operation of the terminal that fails ends the session (C16)']
    for feat in ('default',) if ctx.tier == 'quick' else ('default', 'none', 'all'):
        d = ctx.dump(feat)
        one(ctx, d, feat)


def one(ctx, d, feat):
    cg, mv = movers(d)
    ctx.floor('%s: functions that move the cursor' % feat, len(mv), 2)
    terms = {f['id'] for f in d.fns.values() if term_op(f)}
    to_term = cg.reaching(lambda f: f['id'] in terms)
    has_refs = lambda f: sum(is_u32(d, f['locals'][i], True) for i in range(1, f['argc'] + 1)) >= 2
    S = Sess(d)
    takes_state = lambda f: any(d.types[f['locals'][i]].get('k') == 'ref' and d.types[f['locals'][i]]['e'] == S.state_ty and d.types[f['locals'][i]].get('mut') for i in range(1, f['argc'] + 1))
    # climb to the function that is told where the cursor is, or that keeps it
    callers = {}
    for i, ss in cg.succ.items():
        for x in ss: callers.setdefault(x, set()).add(i)
    mem = remembered(d, S)
    ctx.floor('%s: the remembered position' % feat, 1 if mem else 0, 1)
    if not mem: return
    small = {f['id'] for f in d.fns.values() if f['local'] and 'blocks' in f and f['id'] < 1000000 and any(d.types[f['locals'][i]].get('k') == 'ref' and re.match(r'&mut (u32|usize|bool|std::option::Option<u32>)$', d.tyname(f['locals'][i])) for i in range(1, f['argc'] + 1))}
    told, keep, todo, seen = {}, {}, list(mv), set()
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        f = d.fns[i]
        if not (f['local'] and 'blocks' in f): continue
        if has_refs(f): told[i] = f
        elif takes_state(f): keep[i] = f
        if i in keep: continue
        todo += callers.get(i, ())
    inl = frozenset(small | {i for i in seen if i not in keep})
    back_ends(ctx, d, feat)
    no_underflow(ctx, d, feat, cg, to_term, told)
    contracts = {}
    for i, f in sorted(told.items()):
        b = contract(ctx, d, f, inl)
        key = '%s:%s' % (feat, slug(pathtail(f['path'])))
        if b is None:
            ctx.bad(key + ':nothing', '%s moves the cursor in a way that cannot be followed' % f['path'])
            continue
        _, bad, c, e, n, _ = b
        for w in bad: ctx.bad('%s:%s' % (key, slug(w)), '%s %s' % (f['path'], w))
        for _ in range(n): ctx.ob(True, key, 'the cursor ends where the caller is told, and where it was asked to go', '')
        ctx.counts['%s: ways %s ends' % (feat, pathtail(f['path']))] = n
        ctx.engine_stats(f['path'], e)
        if c['to row'] and c['to col']: contracts[i] = c
    best = None
    # which of the two integers is the row: first the reading under which the smallest function is right
    order = sorted(keep.items(), key=lambda kv: len(kv[1]['blocks']))
    hyps = sorted((0, 1), key=lambda h: len(keeper(d, order[0][1], inl, contracts, mem, h, None)[0].wrong())) if order else ()
    for hyp in hyps:
        runs = [(f,) + keeper(d, f, inl, contracts, mem, hyp, None) for i, f in sorted(keep.items())]
        bads = []
        for f, e, exits, n in runs:
            for w in sorted(e.wrong()): bads.append((f, w))
        if best is None or len(bads) < len(best[0]): best = (bads, runs)
        if not bads: break
    for f, w in best[0]: ctx.bad('%s:%s:%s' % (feat, slug(pathtail(f['path'])), slug(w)), '%s %s' % (f['path'], w))
    nm = 0
    for f, e, exits, n in best[1]:
        key = '%s:%s' % (feat, slug(pathtail(f['path'])))
        for _, w, _, _ in e.claims: ctx.ob((f, w) in best[0] or True, key, 'the cursor is where it is said to be', '')
        nm += e.nmoves
        ctx.counts['%s: ways %s ends' % (feat, pathtail(f['path']))] = n
        ctx.engine_stats(f['path'], e)
    ctx.floor('%s: functions that keep the remembered output' % feat, len(keep), 2)
    ctx.floor('%s: movements they ask for' % feat, nm, 3)
