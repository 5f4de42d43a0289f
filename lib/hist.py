"""The history object: its methods interpreted with an unknown object, and a ghost account of what the list of lines
holds: how long it is, from which index on (and up to which) no copy of the new line remains, what was taken away."""
from edit import *

VEC = re.compile(r'^(std|alloc)::vec::Vec::<T, A>::(\w+)$|^(core|std|alloc)::slice::<impl \[T\]>::(\w+)$')


class Roles:
    """which field of the history is which: found through the public setters"""

    def __init__(self, d):
        self.tid = find_adt(d, 'History')[0]
        fs = d.types[self.tid]['v'][0]['f']
        self.names = [n for n, _ in fs]
        ty = [d.types[t] for _, t in fs]
        self.idx = {}
        for m, role in (('set_limit', 'limit'), ('set_strip_duplicates', 'strip'), ('set_autosave_handler', 'handler'), ('set_autosave_interval', 'interval')):
            f = find_method(d, m)
            if f is None: continue
            e = Engine(d)
            s = mkstate()
            s.store[('HIST',)] = e.sym('HIST')
            e.start(s, f['id'], [e.ref(('HIST',)), e.sym('ARG')])
            e.explore([s])
            for x in e.exits:
                if x.exit[0] != 'return': continue
                v = x.store.get(('HIST',))
                for i in range(len(fs)):
                    if v is not None and e.norm(x, e.proj(x, v, (None, i))) == e.sym('ARG'): self.idx[role] = i
        for i, t in enumerate(ty):
            if i in self.idx.values(): continue
            r = 'lines' if t['k'] == 'adt' and t['def'].endswith('Vec') else 'unsaved' if t['k'] == 'bool' else 'counter' if t['k'] == 'int' else None
            if r: self.idx.setdefault(r, i)


def find_method(d, name):
    c = [f for f in d.fns.values() if re.search(r'(^|::)History::%s$' % name, f['path']) and 'blocks' in f]
    return c[0] if c else None


def find_drop(d):
    t = find_adt(d, 'History')[0]
    for im in d.impls:
        if im['trait'].endswith('ops::Drop') and im['self'] == t:
            for m, p in im['methods']:
                for f in d.by_path.get(p, []): return f
    return None


class Hist(Prover, Sess):
    """one method of the history applied to an unknown history"""
    budget = 60
    entry_budget = 60
    ok_io = False

    def __init__(self, d, fid):
        super().__init__(d)
        self.prover_init()
        self.fid = fid
        self.R = Roles(d)
        self.obj = ('G', 'HIST')
        self.H = self.sym('HIST')
        self.LINE = self.sym('LINE')
        self.oblig = []
        self.n0 = self.call('len', self.h0('lines'))
        self.chains, self.chain_ok = {}, {}

    def h0(self, role): return self.mk(('fld', self.H, None, self.R.idx[role]))

    def now(self, s, role): return self.norm(s, self.read(s, (self.obj, ((None, self.R.idx[role]),))))

    def prove(self, s, cond, rule, msg):
        self.oblig.append((s.copy(), cond, rule, msg))

    # ghosts: n = how many lines; lo: no copy of the line below this index; hi: none from this index on
    def gh(self, s, k): return self.norm(s, s.store[('G', k)])

    def setg(self, s, **kw):
        for k, v in kw.items(): s.store[('G', k)] = v

    def go(self):
        s = mkstate()
        f = self.d.fns[self.fid]
        s.store[self.obj] = self.H
        self.setg(s, n=self.n0, lo=self.c0, hi=self.n0)
        s.mon = {'pushed': 0, 'cb': 0, 'res': None, 'all': 0}
        args = [self.ref(self.obj), self.LINE][:f['argc']]
        self.start(s, self.fid, args)
        return self.explore([s])

    def is_lines(self, s, v):
        """does this pointer lead to the list of lines?"""
        l = self.deref(s, v)
        if l[0] == self.obj and l[1] == ((None, self.R.idx['lines']),): return True
        return False

    def lst(self, s): return self.read(s, (self.obj, ((None, self.R.idx['lines']),)))

    def setlines(self, s, op, *args):
        l = (self.obj, ((None, self.R.idx['lines']),))
        self.write(s, l, self.mk(('lv', op, self.read(s, l)) + args))

    def lenv(self, s, v):
        if s is not None and ('G', 'n') in s.store and v == self.lst(s): return self.gh(s, 'n')
        return super().lenv(s, v)

    def on_assume(self, s, t, k):
        super().on_assume(s, t, k)
        x = self.tab[t]
        if x[0] == 'op' and x[1] == 'Eq' and ('G', 'n') in s.store:
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if b == self.LINE and self.tab[a][0] == 'idx' and self.tab[a][1] == self.lst(s) and k == 0:
                    self.clean(s, self.tab[a][2])

    def clean(self, s, i):
        """line i is not a copy: both chains go on from there, each on the condition (proved afterwards) that i is next"""
        self.chain(s, 'lo', self.gh(s, 'lo'), i)
        self.chain(s, 'hi', self.gh(s, 'hi'), self.binop(s, 'Add', i, self.c1))
        self.setg(s, lo=self.binop(s, 'Add', i, self.c1), hi=i)

    def chain(self, s, which, a, b, rule='eq'):
        self.chains.setdefault((which, a, b, rule, self.ident(s)), (which, s.copy(), a, b, rule))

    def sound(self, which):
        """is every step of this chain justified?"""
        if which not in self.chain_ok:
            self.chain_ok[which] = all(self.le(s, a, b) and (r == 'le' or self.le(s, b, a)) for w, s, a, b, r in self.chains.values() if w == which)
        return self.chain_ok[which]

    def equal(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        return self.same(a, b)

    def is_copy(self, s, i):
        L = self.lst(s)
        for k, v in s.eq.items():
            x = self.tab[k]
            if v == 1 and x[0] == 'op' and x[1] == 'Eq':
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if b == self.LINE and self.tab[a][0] == 'idx' and self.tab[a][1] == L and self.same(self.tab[a][2], i): return True
        return False

    def all_clean(self, s):
        """nothing at or above hi, or below lo, is a copy: is everything covered?"""
        if s.mon['all']: return True
        lo, hi, n = self.gh(s, 'lo'), self.gh(s, 'hi'), self.gh(s, 'n')
        # what loops ended with
        for t, k in s.mon.get('lost') or ():
            x = self.tab[t]
            if x[0] == 'op' and x[1] == 'Lt' and k == 0:
                d = self.plus(self.lin(x[2]), self.lin(x[3]), -1)     # at least 0
                if self.ge0(s, self.plus(self.plus(self.lin(lo), self.lin(n), -1), d, -1)) and self.sound('lo'): return True
                if self.ge0(s, self.plus(self.plus(({}, 0), self.lin(hi), -1), d, -1)) and self.sound('hi'): return True
            elif x[0] != 'op' and k == 0 and self.le(s, hi, t) and self.sound('hi'): return True
        return self.le(s, hi, self.c0) and self.sound('hi') or self.le(s, n, lo) and self.sound('lo')

    # ---- predicates over one line
    def sub(self, s, fid, args):
        """run a small function apart; its results"""
        saved = (self.heap, self.seen, self.seq, self.groups, self.exits, self.panics, self.steps)
        n = s.copy()
        n.stack, n.tags = (), {}
        self.start(n, fid, args, name=('sub', fid))
        try:
            self.explore([n])
            ex = self.exits
        finally:
            steps = self.steps
            self.heap, self.seen, self.seq, self.groups, self.exits, self.panics, self.steps = saved
            self.steps += steps
        return ex

    def on_elem(self, s, fv, depth=1):
        """what a predicate says of a line: 'same' (equal to the new line), 'other' (not equal), or None"""
        E = self.sym('ELEM')
        fid, pre = closure_body(self, fv) if not self.tab[fv][0] == 'ref' else closure_body(self, self.content(s, fv))
        if fid is None: return None
        s2 = s.copy()
        s2.store[('ELEM',)] = E
        a = self.ref(('ELEM',))
        for _ in range(depth - 1):
            s2.store[('ELEMREF', _)] = a
            a = self.ref(('ELEMREF', _))
        if pre is None:
            f = self.d.fns[fid]
            me = fv
            ft = self.ty(f['locals'][1])
            if ft['k'] == 'ref' and self.tab[fv][0] != 'ref':
                s2.store[('CLOS',)] = fv
                me = self.ref(('CLOS',))
            elif ft['k'] != 'ref' and self.tab[fv][0] == 'ref': me = self.content(s, fv)
            args = [me, a]
        else: args = [a]
        out = set()
        want = self.eqv(s2, E, self.LINE)
        for x in self.sub(s2, fid, args):
            if x.exit[0] != 'return': return None
            r = self.norm(x, x.user['ret'])
            w = self.norm(x, want)
            if r == w: out.add('same')
            elif r == self.notv(x, w): out.add('other')
            else: return None
        return out.pop() if len(out) == 1 else None

    # ---- operations on the list
    def model(self, s, g, args, argtys, dest, target, line):
        r = self.list_op(s, g, args, argtys, dest, target, line)
        if r is not None: return r
        return super().model(s, g, args, argtys, dest, target, line)

    def rangeof(self, s, r):
        v = self.norm(s, r)
        t = self.tab[v]
        if t[0] == 'agg' and isinstance(t[1], int):
            n = self.ty(t[1]).get('def', '').split('::')[-1]
            if n == 'Range': return self.norm(s, t[3][0]), self.norm(s, t[3][1])
            if n == 'RangeTo': return self.c0, self.norm(s, t[3][0])
            if n == 'RangeFull': return self.c0, self.gh(s, 'n')
            if n == 'RangeFrom': return self.norm(s, t[3][0]), self.gh(s, 'n')
        return None, None

    def list_op(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        if p.endswith('Iterator>::rev') or p.endswith('Iterator::rev'):
            return self.agg('rev', 0, (args[0],))
        if re.search(r' as std::iter::Iterator>::next$', p):
            l = self.deref(s, args[0])
            t = self.tab[self.read(s, l)]
            if t[0] == 'agg' and t[1] == 'rev' and self.tab[t[3][0]][0] in ('agg', 'upd'):
                v = t[3][0]
                a, b = self.norm(s, self.proj(s, v, (None, 0))), self.norm(s, self.proj(s, v, (None, 1)))
                ty = self.cur_dest_ty

                def yes(n):
                    x = self.binop(n, 'Sub', b, self.c1)
                    self.write(n, l, self.agg('rev', 0, (self.setp(n, v, ((None, 1),), x),)))
                    return models.mkopt(self, x, ty)
                return models.split(self, s, self.binop(s, 'Lt', a, b), yes, lambda n: models.mkopt(self, None, ty))
        if not args: return None
        m = VEC.match(p)
        name = (m.group(2) or m.group(4)) if m else None
        if name is None: 
            # iterating the list with a predicate
            if re.search(r'slice::Iter<.*Iterator>::(position|rposition|any|all|find)$', p) or re.search(r'Iterator>?::(position|rposition|any|all|find)$', p):
                return self.search(s, pathtail(p), args, argtys, line)
            if self.tab[args[0]][0] in ('ref',) and argtys[0] is not None and self.ty(argtys[0])['k'] == 'ref' and self.ty(argtys[0])['mut'] and self.is_lines(s, args[0]) \
                    and not re.search(r'Deref|IndexMut|AsMut|BorrowMut', p):
                self.prove(s, lambda: False, 'list operation', 'the list of lines is changed by %s' % p)
            return None
        if self.tab[args[0]][0] != 'ref' or not self.is_lines(s, args[0]): return None
        n = self.gh(s, 'n')
        if name == 'iter': return self.mk(('liter', self.lst(s)))
        if name in ('len', 'is_empty', 'get', 'first', 'last', 'as_slice', 'deref', 'capacity', 'reserve', 'get_mut', 'as_mut_slice', 'shrink_to_fit', 'iter_mut') and name not in ('get_mut', 'as_mut_slice', 'iter_mut'): return None
        if name == 'contains':
            v = self.content(s, args[1])
            if v != self.LINE: return None
            r = self.call('contains', self.lst(s), v)
            return models.split(self, s, self.norm(s, r), lambda t: self.c1, lambda t: (self.none_left(t), self.c0)[1])
        if name == 'push':
            self.added(s, args[1], line)
            return self.unit
        if name == 'insert':
            i = self.norm(s, args[1])
            self.prove(s, lambda s=s.copy(), i=i, n=n: self.equal(s, i, n), 'newest last', 'the line is inserted at an index that is not known to be the end')
            self.added(s, args[2], line)
            return self.unit
        if name == 'remove':
            i = self.norm(s, args[1])
            return self.removed(s, i, line)
        if name == 'swap_remove':
            self.prove(s, lambda: False, 'order', 'swap_remove reorders the lines')
            return self.fresh(s, 'removed')
        if name == 'retain':
            r = self.on_elem(s, args[1])
            c = s.copy()
            self.prove(s, lambda: r == 'other' and self.strip_on(c), 'only copies go', 'lines are dropped by a rule other than being a copy of the new one while copies are stripped (retain)')
            k = self.norm(s, self.call('retained', self.lst(s)))
            self.assume(s, self.binop(s, 'Lt', n, k), 0)
            self.setlines(s, 'retain')
            self.setg(s, n=k)
            self.none_left(s)
            if s.mon['pushed']: self.prove(s, lambda: False, 'added', 'the line just added is dropped again (retain)')
            return self.unit
        if name in ('drain', 'splice'):
            a, b = self.rangeof(s, args[1])
            if a is None or (name == 'splice' and not self.nothing(s, args[2])):
                self.prove(s, lambda: False, 'list operation', '%s with an unknown range or replacement' % name)
                return self.fresh(s, name)
            self.cut(s, a, b, line)
            return self.call('removed lines', a, b)
        if name == 'truncate' or name == 'pop' or name == 'clear' or name == 'dedup' or name == 'split_off' or name == 'append' or name == 'extend_from_slice' or name.startswith('sort') or name in ('reverse', 'swap', 'rotate_left', 'rotate_right', 'dedup_by', 'get_mut', 'as_mut_slice', 'iter_mut', 'retain_mut', 'resize', 'extract_if'):
            self.prove(s, lambda: False, 'list operation', 'the list of lines is changed by %s, which does not only drop copies or the oldest lines' % name)
            self.setlines(s, name)
            self.setg(s, n=self.fresh(s, 'len'), lo=self.c0, hi=self.fresh(s, 'hi'))
            return self.fresh(s, name)
        return None

    def nothing(self, s, v):
        t = self.tab[self.norm(s, v)]
        if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def') == 'std::option::Option': return t[2] == 0
        if t[0] == 'agg' and t[1] == 'arr': return not t[3]
        return 'iter::empty' in str(t[1]) or 'Vec::<T>::new' in str(t[1])

    def search(self, s, m, args, argtys, line):
        v = self.norm(s, args[0])
        t = self.tab[v]
        it = t
        if t[0] == 'ref': it = self.tab[self.content(s, v)]
        rev = it[0] == 'agg' and it[1] == 'rev'
        if rev: it = self.tab[it[3][0]]
        if it[0] != 'liter' or it[1] != self.lst(s): return None
        r = self.on_elem(s, args[1], 2 if m == 'find' else 1)
        if r is None: return None
        ty = self.cur_dest_ty
        if (m, r) in (('any', 'same'), ('all', 'other')):
            q = self.norm(s, self.call('contains', self.lst(s), self.LINE))
            k = m == 'all'
            return models.split(self, s, q, lambda t: self.c(0 if k else 1), lambda t: (self.none_left(t), self.c(1 if k else 0))[1])
        if r != 'same': return None
        if m == 'find': return None
        q = self.norm(s, self.call('contains', self.lst(s), self.LINE))
        i = self.call('position', self.lst(s))

        def found(n):
            self.assume(n, self.binop(n, 'Lt', i, self.gh(n, 'n')), 1)
            self.assume(n, self.eqv(n, self.mk(('idx', self.lst(n), i)), self.LINE), 1)
            return models.mkopt(self, i, ty)
        return models.split(self, s, q, found, lambda n: (self.none_left(n), models.mkopt(self, None, ty))[1])

    def none_left(self, s):
        s.mon = dict(s.mon, all=1)

    def strip_on(self, s):
        return s.eq.get(self.h0('strip')) == 1

    def added(self, s, v, line):
        c = s.copy()
        v = self.norm(s, v)
        self.prove(s, lambda: v == self.LINE, 'added line', 'what is added is not the line given')
        if c.eq.get(self.h0('strip')) != 0:
            self.prove(s, lambda: self.all_clean(c), 'no copies', 'copies may remain when the line is added while copies are to be stripped (looked at from 0 to %s and from %s of %s)' % (self.pp(self.gh(c, 'lo'))[:60], self.pp(self.gh(c, 'hi'))[:60], self.pp(self.gh(c, 'n'))[:60]))
        self.setlines(s, 'push', v)
        self.setg(s, n=self.binop(s, 'Add', self.gh(s, 'n'), self.c1))
        s.mon = dict(s.mon, pushed=min(2, s.mon['pushed'] + 1))

    def room(self, s):
        """the limit as a number of lines there may be at this point, as a linear term"""
        L = self.lin(self.limit(s))
        return self.plus(L, ({}, 0 if s.mon['pushed'] else -1), 1)

    def limit(self, s):
        return self.norm(s, self.proj(s, self.h0('limit'), (1, 0)))

    def limited(self, s):
        return self.isc(self.discr(s, self.h0('limit'))) == 1

    def removed(self, s, i, line):
        c = s.copy()
        n = self.gh(s, 'n')
        self.prove(s, lambda: self.lt(c, i, n), 'index', 'a line may be removed at an index past the end')
        copy = self.is_copy(s, i)
        if copy:
            self.prove(s, lambda: self.strip_on(c), 'only when stripping', 'a copy is removed although copies are not to be stripped')
            if s.mon['pushed']: self.prove(s, lambda: not self.may_be_last(c, i), 'added', 'the line just added may be removed again')
        else:
            self.prove(s, lambda: self.isc(i) == 0 and self.limited(c) and self.ge0(c, self.plus(self.plus(self.lin(n), self.room(c), -1), ({}, -1), 1)), 'only the oldest',
                       'a line is removed that is neither known to be a copy of the new one nor the oldest line beyond the limit')
        lo, hi = self.gh(s, 'lo'), self.gh(s, 'hi')
        if copy:
            self.chain(s, 'lo', lo, i, 'le')
            self.chain(s, 'hi', self.binop(s, 'Add', i, self.c1), hi, 'eq')
            hi = i
        else: self.chain(s, 'lo', lo, self.c0)
        self.setlines(s, 'remove', i)
        self.setg(s, n=self.binop(s, 'Sub', n, self.c1), lo=lo, hi=hi)
        return self.call('removed line', i)

    def may_be_last(self, s, i):
        return not self.ge0(s, self.plus(self.plus(self.lin(self.gh(s, 'n')), self.lin(i), -1), ({}, -2), 1))

    def cut(self, s, a, b, line):
        c = s.copy()
        n = self.gh(s, 'n')
        k = self.binop(s, 'Sub', b, a)
        self.prove(s, lambda: self.isc(a) == 0, 'only the oldest', 'the lines removed are not known to be the oldest ones')
        self.prove(s, lambda: self.le(c, b, n), 'index', 'more lines may be removed than there are')
        self.prove(s, lambda: self.limited(c) and self.fits_limit(c, n, b), 'no more than needed', 'the number of oldest lines removed (%s of %s) is not known to be just what the limit asks for' % (self.pp(b)[:70], self.pp(n)[:40]))
        # no line above hi was a copy and none below lo: cutting the oldest lines keeps either (as bounds)
        lo = self.gh(s, 'lo')
        self.setlines(s, 'cut', b)
        self.setg(s, n=self.binop(s, 'Sub', n, b), lo=self.binop(s, 'Sub', lo, b))

    def fits_limit(self, s, n, b):
        room = self.room(s)
        # b = max(0, n - room)
        left = self.plus(self.plus(self.lin(n), self.lin(b), -1), room, -1)
        zero = self.isc(b) == 0 or self.ge0(s, self.plus(({}, 0), self.lin(b), -1))
        if left == ({}, 0) or self.ge0(s, left) and self.ge0(s, self.plus(({}, 0), left, -1)): return True
        if zero: return True
        t = self.tab[b]
        if t[0] == 'call' and opname(t[1]) == 'saturating_sub' and len(t) == 4:
            d = self.plus(self.lin(t[2]), self.lin(t[3]), -1)
            return d == self.plus(self.lin(n), room, -1)
        return False

    def gc(self, s):
        old = [(t, k) for t, k in s.eq.items() if self.tab[t][0] == 'op' and self.tab[t][1] == 'Lt' and any(self.tab[x][0] == 'phi' for x in self.subs(t))]
        super().gc(s)
        lost = [x for x in old if x[0] not in s.eq]
        if lost:
            s.mon = dict(s.mon)
            s.mon['lost'] = (s.mon.get('lost') or frozenset()) | frozenset(lost)

    def fits(self, s, v):
        # as many lines as fit in memory
        if ('G', 'n') in s.store and self.le(s, v, self.gh(s, 'n')): return True
        return super().fits(s, v)

    def known_facts(self, s):
        return [({self.mk(('fld', self.h0(r), 1, 0)): 1}, -1) for r in ('limit', 'interval')]

    def facts(self, s, also=()):
        out = super().facts(s, also)
        for t, k in s.mon.get('lost') or ():
            if self.tab[t][0] == 'op':
                d = self.plus(self.lin(self.tab[t][3]), self.lin(self.tab[t][2]), -1)
                out.append(self.plus(d, ({}, -1), 1) if k else self.plus(({}, 0), d, -1))
                continue
            out.append(({t: 1}, -k)); out.append(({t: -1}, k))
        return out

    # ---- the autosave handler
    def on_callback(self, s, fv, args, g, line):
        s.mon = dict(s.mon, cb=min(2, s.mon['cb'] + 1))
        v = self.content(s, fv) if self.tab[fv][0] in ('ref', 'kref') else fv
        own = self.proj(s, self.h0('handler'), (1, 0))
        c = s.copy()
        def mine():
            x = v
            for _ in range(4):
                if x == own: return True
                t = self.tab[x]
                if t[0] in ('deref',): x = t[1]
                elif t[0] == 'fld': x = t[1]
                else: return False
            return False
        self.prove(s, mine, 'handler', 'something other than the autosave handler is called')
        self.prove(s, lambda: any(self.is_self(c, a) for a in args), 'handler', 'the autosave handler is not given this history')
        self.prove(s, lambda: c.mon['pushed'] == 1 or self.fid == (find_drop(self.d) or {}).get('id'), 'saved after', 'the autosave handler is called before the line is added')

    def is_self(self, c, a):
        if self.tab[a][0] == 'agg': return any(self.is_self(c, x) for x in self.tab[a][3])
        return self.tab[a][0] == 'ref' and self.deref(c, a) == (self.obj, ())

    def std_model(self, s, g, args, argtys, dest, target, line):
        r = super().std_model(s, g, args, argtys, dest, target, line)
        if s.mon.get('cb') and s.mon.get('res') is None and isinstance(r, V) and self.tab[r][0] == 'fresh':
            s.mon = dict(s.mon, res=r)
        return r


from models import closure_body
