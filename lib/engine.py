"""Interprocedural, path-partitioned abstract interpretation of MIR (static: nothing is run, no solver).

Abstract values are hash-consed terms (value numbering).  A state is a partition element
(call string, block, property-automaton state, finite facts about terms) in the style of
property simulation (ESP): states are joined when they agree on the automaton state and the
partition at a location has grown past a budget, and are widened at loop heads.
"""
import heapq, re, sys
from mirp import Dump

sys.setrecursionlimit(10000)


class Terms:
    def __init__(self):
        self.tab = []
        self.ids = {}
        self.leafc = {}
        self.subc = {}

    def mk(self, t):
        i = self.ids.get(t)
        if i is None:
            i = len(self.tab)
            self.ids[t] = i
            self.tab.append(t)
        return i


class V(int):
    """A term id (distinct from plain integers inside term tuples)."""
    __slots__ = ()

    def __repr__(self):
        return 'v%d' % int(self)


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class FnInfo:
    """CFG facts of one body: reverse postorder, loop heads, joins, liveness."""

    def __init__(self, f):
        self.f = f
        bl = f['blocks']
        n = len(bl)
        self.succ = [self.succs(b[1]) for b in bl]
        seen = [0] * n
        order = []
        self.back = set()
        # iterative DFS; visit loop exits first so that loop bodies come earlier in RPO
        stack = [(0, iter(self.succ[0]))]
        seen[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if seen[s] == 0:
                    seen[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif seen[s] == 1:
                    self.back.add((b, s))
            else:
                seen[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.reach = order
        self.heads = {h for _, h in self.back}
        preds = {}
        for b in order:
            for s in self.succ[b]:
                preds.setdefault(s, set()).add(b)
        self.preds = preds
        self.joins = {b for b in order if len(preds.get(b, ())) > 1}
        self.liveness()

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        return []

    def liveness(self):
        f = self.f
        bl = f['blocks']
        self.addr = set()
        n = len(bl)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        def place_uses(p, out):
            out.add(p[0])
            for e in p[1:]:
                if e != '*' and e[0] == 'i':
                    out.add(e[1])

        def op_uses(o, out):
            if o[0] in ('c', 'm'): place_uses(o[1], out)

        for b in range(n):
            u, d = use[b], de[b]

            def useset(s):
                for x in s:
                    if x not in d: u.add(x)
            sts, t = bl[b]
            for st in sts:
                if st[0] == '=':
                    out = set()
                    rv = st[2]
                    k = rv[0]
                    if k in ('use', 'rep'): op_uses(rv[1], out)
                    elif k in ('bin', 'cbin'):
                        op_uses(rv[2], out); op_uses(rv[3], out)
                    elif k in ('un', 'cast'): op_uses(rv[2], out)
                    elif k in ('ref', 'addr'):
                        place_uses(rv[2], out)
                        if '*' not in rv[2][1:]: self.addr.add(rv[2][0])
                    elif k in ('discr', 'len'): place_uses(rv[1], out)
                    elif k == 'agg':
                        for o in rv[2]: op_uses(o, out)
                    useset(out)
                    p = st[1]
                    if len(p) == 1: d.add(p[0])
                    else:
                        out = set(); place_uses(p, out); useset(out)
                elif st[0] == 'sd':
                    out = set(); place_uses(st[1], out); useset(out)
                elif st[0] == 'dead':
                    d.add(st[1])
            k = t[0]
            out = set()
            if k == 'switch': op_uses(t[1], out)
            elif k == 'call':
                op_uses(t[1], out)
                for o in t[2]: op_uses(o, out)
                useset(out); out = set()
                if len(t[3]) == 1: d.add(t[3][0])
                else: place_uses(t[3], out)
            elif k == 'drop': place_uses(t[1], out)
            elif k == 'assert':
                op_uses(t[1], out)
            elif k == 'ret': out.add(0)
            useset(out)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.reach):
                o = set()
                for s in self.succ[b]: o |= live[s]
                ni = use[b] | (o - de[b])
                if ni != live[b]:
                    live[b] = ni
                    changed = True
        self.live = live


class State:
    __slots__ = ('stack', 'store', 'eq', 'ne', 'mon', 'loans', 'nf', 'trace', 'tags', 'exit', 'user')

    def copy(self):
        s = State()
        s.stack = self.stack
        s.store = dict(self.store)
        s.eq = dict(self.eq)
        s.ne = dict(self.ne)
        s.mon = dict(self.mon)
        s.loans = self.loans
        s.nf = self.nf
        s.trace = self.trace
        s.tags = self.tags
        s.exit = None
        s.user = self.user
        return s


def mkstate():
    s = State()
    s.stack = ()
    s.store = {}
    s.eq = {}
    s.ne = {}
    s.mon = {}
    s.loans = frozenset()
    s.nf = 0
    s.trace = None
    s.tags = {}
    s.exit = None
    s.user = {}
    return s


NEG = {'Ne': 'Eq', 'Ge': 'Lt', 'Le': 'Gt'}


class Engine:
    budget = 40          # distinct states kept per (location, automaton state) before joining
    split_heads = False  # an iteration that ends in another automaton state starts from what it is, not from the loop's entry
    entry_budget = 16    # distinct entry states per loop and context before joining
    max_steps = 400000   # blocks
    max_depth = 40

    def __init__(self, dump):
        self.d = dump
        self.T = Terms()
        self.tab = self.T.tab
        self.finfo = {}
        self.fids = {}
        self.fidrev = []
        self.steps = 0
        self.exits = []
        self.unit = self.agg(None, 0, ())
        self.c0 = self.c(0)
        self.c1 = self.c(1)
        self.undef = self.mk(('undef',))
        self.name_cache = {}
        self.dom = {}
        self.visited_fns = set()
        self.opaque_calls = {}
        self.stats = dict(blocks=0, merges=0, widenings=0, states=0)
        self.drop_impls = {}
        for im in dump.impls:
            if im['trait'].endswith('ops::Drop'):
                t = dump.types[im['self']]
                for m, p in im['methods']:
                    for f in dump.by_path.get(p, []):
                        self.drop_impls[t.get('def')] = f['id']
        self.has_drop_cache = {}

    # ---------------------------------------------------------------- terms
    def mk(self, t):
        return V(self.T.mk(t))

    def c(self, n):
        return self.mk(('c', int(n)))

    def sym(self, name):
        return self.mk(('sym', name))

    def agg(self, tid, vi, fields):
        return self.mk(('agg', tid, vi, tuple(fields)))

    def ref(self, obj, path=()):
        if isinstance(obj, tuple) and obj[0] == '*' and not path:
            return obj[1]
        return self.mk(('ref', obj, tuple(path)))

    def isc(self, v):
        t = self.tab[v]
        return t[1] if t[0] == 'c' else None

    def call(self, f, *args):
        return self.mk(('call', f) + tuple(args))

    def children(self, v):
        out = []

        def go(x):
            if isinstance(x, V): out.append(x)
            elif isinstance(x, tuple):
                for y in x: go(y)
        go(self.tab[v])
        return out

    def leaves(self, v):
        """fresh / phi leaves of a term"""
        r = self.T.leafc.get(v)
        if r is None:
            t = self.tab[v]
            if t[0] in ('fresh', 'phi'):
                r = frozenset((v,))
            else:
                r = frozenset().union(*[self.leaves(x) for x in self.children(v)]) if self.children(v) else frozenset()
            self.T.leafc[v] = r
        return r

    def subs(self, v):
        r = self.T.subc.get(v)
        if r is None:
            ch = self.children(v)
            r = frozenset((v,)).union(*[self.subs(x) for x in ch]) if ch else frozenset((v,))
            self.T.subc[v] = r
        return r

    def pp(self, v, depth=6):
        if not isinstance(v, V): return str(v)
        t = self.tab[v]
        if depth == 0: return '…'
        p = lambda x: self.pp(x, depth - 1)
        k = t[0]
        if k == 'c': return str(t[1])
        if k == 's': return repr(t[1])
        if k == 'sym': return t[1]
        if k == 'agg':
            n = ''
            if isinstance(t[1], int):
                ty = self.d.types[t[1]]
                if ty.get('k') == 'adt':
                    n = ty['def'].split('::')[-1]
                    if ty['kind'] == 'Enum' and ty['v']: n += '::' + ty['v'][t[2]]['name'].split('::')[-1]
                else: n = ty['k']
            elif t[1]: n = str(t[1])
            return '%s{%s}' % (n, ', '.join(p(x) for x in t[3]))
        if k == 'ref': return '&%s%s' % (self.ppobj(t[1], depth), ''.join('.' + str(e[1]) for e in t[2]))
        if k == 'fld': return '%s.%s%s' % (p(t[1]), '' if t[2] in (None, 0) else 'v%s.' % t[2], t[3])
        if k == 'call': return '%s(%s)' % (self.short(t[1]), ', '.join(p(x) for x in t[2:]))
        if k == 'fresh': return '%s#%s' % (self.short(t[2]), t[1])
        if k == 'op': return '%s(%s)' % (t[1], ', '.join(p(x) for x in t[2:]))
        if k == 'upd': return '%s{%s}' % (p(t[1]), ', '.join('%s=%s' % (e[1] if isinstance(e, tuple) else e, p(x)) for e, x in t[2]))
        return '%s(%s)' % (k, ', '.join(p(x) if isinstance(x, V) else str(x)[:30] for x in t[1:]))

    def short(self, n):
        n = str(n)
        n = re.sub(r'<[^<>]*>', '', n)
        n = re.sub(r'<[^<>]*>', '', n)
        return n.split('::')[-1] if '::' in n else n

    def ppobj(self, o, depth=4):
        if o[0] == 'L':
            fid, l = o[1], o[2]
            return '_%s@%s' % (l, fid)
        if o[0] == '*': return '(*%s)' % self.pp(o[1], depth - 1)
        return str(o[1:])

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.d.types[i]

    def place_ty(self, f, p):
        t = f['locals'][p[0]]
        for e in p[1:]:
            if e == '*':
                ty = self.ty(t)
                if 'e' in ty: t = ty['e']
                elif ty['k'] == 'adt' and ty.get('args'):
                    t = ty['args'][0]
                else: return None
            elif e[0] == 'f': t = e[2]
            elif e[0] in ('i', 'ci'): t = self.ty(t).get('e')
            elif e[0] == 'oc': t = e[1]
            if t is None or not isinstance(t, int): return None
        return t

    def op_ty(self, f, o):
        if o[0] in ('c', 'm'): return self.place_ty(f, o[1])
        if o[0] == 'k': return o[2]
        return None

    def is_transparent(self, tid):
        if tid is None: return False
        t = self.ty(tid)
        return t['k'] == 'adt' and t['def'] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::pin::Pin',
                                                'core::ptr::unique::Unique', 'std::future::ResumeTy', 'std::mem::ManuallyDrop')

    def has_drop(self, tid, depth=0):
        """does dropping a value of this type run a Drop impl of this crate, or release a guard?"""
        if tid is None: return False
        r = self.has_drop_cache.get(tid)
        if r is not None: return r
        self.has_drop_cache[tid] = False
        t = self.ty(tid)
        r = False
        k = t['k']
        if k == 'adt':
            if t['def'] in self.drop_impls: r = True
            else:
                for v in t['v']:
                    for _, ft in v['f']:
                        if self.has_drop(ft): r = True
        elif k == 'tuple': r = any(self.has_drop(x) for x in t['f'])
        elif k == 'closure': r = any(self.has_drop(x) for x in (t.get('up') or []))
        elif k == 'array': r = self.has_drop(t['e'])
        self.has_drop_cache[tid] = r
        return r

    # ---------------------------------------------------------------- store
    def obj_default(self, obj):
        if obj[0] == '*':
            t = self.tab[obj[1]]
            if t[0] == 'kref': return t[1]
            if t[0] == 's': return obj[1]
            return self.mk(('deref', obj[1]))
        if obj[0] == 'S': return self.mk(('sym', 'static:' + str(obj[1])))
        return self.undef

    def getobj(self, s, obj):
        v = s.store.get(obj)
        return self.obj_default(obj) if v is None else v

    def proj(self, s, v, e):
        t = self.tab[v]
        k = t[0]
        if k == 'agg':
            var, i = e
            if var == 'i':
                ci = self.isc(i) if isinstance(i, V) else i
                if ci is not None and 0 <= ci < len(t[3]) and t[1] == 'arr': return t[3][ci]
                if t[1] == 'rep': return t[3][0]
                return self.mk(('idx', v, i))
            if t[1] == 'rep': return t[3][0]
            if var not in (None, t[2]) and t[2] != 0: return self.undef
            if i < len(t[3]): return t[3][i]
            return self.undef
        if k == 'upd':
            for ee, x in t[2]:
                if ee == e: return x
            if e[0] == 'i':
                # unknown index into an updated array
                if any(isinstance(ee, tuple) and ee[0] == 'i' for ee, _ in t[2]):
                    return self.mk(('idx', v, e[1]))
            return self.proj(s, t[1], e)
        if k == 'undef': return v
        if e[0] == 'i': return self.mk(('idx', v, e[1]))
        return self.mk(('fld', v, e[0], e[1]))

    def setp(self, s, v, path, val):
        if not path: return val
        e = path[0]
        t = self.tab[v]
        sub = self.setp(s, self.proj(s, v, e), path[1:], val)
        if t[0] == 'agg' and e[0] != 'i' and t[1] != 'rep' and e[1] < len(t[3]):
            fs = list(t[3])
            fs[e[1]] = sub
            return self.agg(t[1], t[2], fs)
        if t[0] == 'agg' and e[0] == 'i' and t[1] == 'arr':
            ci = self.isc(e[1]) if isinstance(e[1], V) else e[1]
            if ci is not None and 0 <= ci < len(t[3]):
                fs = list(t[3])
                fs[ci] = sub
                return self.agg(t[1], t[2], fs)
        if t[0] == 'upd':
            base, items = t[1], dict(t[2])
        else:
            base, items = v, {}
        if e[0] == 'i':
            # a store through an unknown index may alias other indices
            for k in list(items):
                if k[0] == 'i' and k != e: del items[k]
        items[e] = sub
        if t[0] != 'undef' and self.proj(s, base, e) == sub: items.pop(e)
        if not items: return base
        return self.mk(('upd', base, tuple(sorted(items.items(), key=str))))

    def read(self, s, loc):
        v = self.getobj(s, loc[0])
        for e in loc[1]: v = self.proj(s, v, e)
        return self.norm(s, v)

    def write(self, s, loc, val):
        obj, path = loc
        if self.watch_write is not None: self.watch_write(s, loc, val)
        if path: val = self.setp(s, self.getobj(s, obj), path, val)
        s.store[obj] = val

    watch_write = None

    def norm(self, s, v):
        c = s.eq.get(v)
        return v if c is None else self.c(c)

    def deref(self, s, p):
        """location a pointer value points to"""
        t = self.tab[p]
        if t[0] == 'ref': return (t[1], t[2])
        if t[0] == 'guard': return self.deref(s, t[2])
        return (('*', p), ())

    def content(self, s, p):
        return self.read(s, self.deref(s, p))

    def loc(self, s, fr, f, p):
        """resolve a MIR place to (object, path)"""
        obj, path = ('L', fr[1], p[0]), ()
        ty = f['locals'][p[0]]
        var = None
        for e in p[1:]:
            if e == '*':
                v = self.read(s, (obj, path))
                obj, path = self.deref(s, v)
                t = self.ty(ty) if ty is not None else {}
                ty = t.get('e') if 'e' in t else (t['args'][0] if t.get('k') == 'adt' and t.get('args') and isinstance(t['args'][0], int) else None)
                var = None
            elif e[0] == 'f':
                if self.is_transparent(ty): pass
                else: path = path + ((var, e[1]),)
                ty = e[2]
                var = None
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'i':
                iv = self.read(s, (('L', fr[1], e[1]), ()))
                path = path + (('i', iv),)
                ty = self.ty(ty).get('e') if ty is not None else None
            elif e[0] == 'ci':
                path = path + (('i', self.c(e[1]) if not e[3] else self.mk(('fromend', e[1]))),)
                ty = self.ty(ty).get('e') if ty is not None else None
            elif e[0] == 'ss':
                path = path + (('ss', (e[1], e[2], e[3])),)
            elif e[0] == 'oc': ty = e[1]
        return (obj, path)

    # ---------------------------------------------------------------- facts
    def assume(self, s, t, k):
        """assume term t has constant value k (mutates s); raises Infeasible"""
        c = self.isc(t)
        if c is not None:
            if c != k: raise Infeasible
            return
        if t in s.eq:
            if s.eq[t] != k: raise Infeasible
            return
        if k in s.ne.get(t, ()): raise Infeasible
        s.eq[t] = k
        s.ne.pop(t, None)
        tt = self.tab[t]
        if tt[0] == 'op':
            if tt[1] == 'Not':
                self.assume(s, tt[2], 1 - k)
            elif tt[1] == 'Eq':
                a, b = self.norm(s, tt[2]), self.norm(s, tt[3])
                ca, cb = self.isc(a), self.isc(b)
                if k == 1:
                    if cb is not None: self.assume(s, a, cb)
                    elif ca is not None: self.assume(s, b, ca)
                else:
                    if cb is not None: self.assume_ne(s, a, cb)
                    elif ca is not None: self.assume_ne(s, b, ca)
            elif tt[1] == 'Lt' and k == 1:
                self.set_lt(s, tt[3], tt[2])
                if self.isc(tt[2]) == 0: self.assume_ne(s, tt[3], 0)
            elif tt[1] == 'Lt' and k == 0:
                # a >= b; b const 1 means a != 0; a const 0 means b == 0
                if self.isc(tt[3]) == 1: self.assume_ne(s, tt[2], 0)
                if self.isc(tt[2]) == 0: self.assume(s, tt[3], 0)
        elif tt[0] == 'cast':
            if tt[1] == 'bool': self.assume(s, tt[2], k)
        self.on_assume(s, t, k)

    def set_lt(self, s, big, small):
        # small < big implies not (big < small) and not equal
        o = self.mk(('op', 'Lt', big, small))
        if o not in s.eq: s.eq[o] = 0
        elif s.eq[o] == 1: raise Infeasible
        a, b = sorted((small, big))
        o = self.mk(('op', 'Eq', a, b))
        if s.eq.get(o) == 1: raise Infeasible
        s.eq[o] = 0

    def on_assume(self, s, t, k):
        pass

    def assume_ne(self, s, t, k):
        c = self.isc(t)
        if c is not None:
            if c == k: raise Infeasible
            return
        if t in s.eq:
            if s.eq[t] == k: raise Infeasible
            return
        s.ne[t] = s.ne.get(t, frozenset()) | {k}
        tt = self.tab[t]
        dom = self.dom.get(t)
        if dom is not None:
            left = dom - s.ne[t]
            if not left: raise Infeasible
            if len(left) == 1:
                s.ne.pop(t)
                self.assume(s, t, next(iter(left)))
                return
        if tt[0] == 'op' and tt[1] in ('Eq', 'Lt', 'Not', 'Ovf') and k in (0, 1):
            s.ne.pop(t)
            self.assume(s, t, 1 - k)

    def is_bool_op(self, t):
        return t[0] == 'op' and t[1] in ('Eq', 'Lt', 'Not', 'Ovf')

    # ---------------------------------------------------------------- rvalues
    def const(self, k, tid):
        if 'i' in k: return self.c(int(k['i']))
        if 'b' in k: return self.c(1 if k['b'] else 0)
        if 'c' in k: return self.c(k['c'])
        if 'str' in k: return self.mk(('s', k['str']))
        if 'fn' in k:
            fn = k['fn']
            if isinstance(fn, dict): fn = ('unres', fn['unres'], tuple(x if isinstance(x, int) else None for x in fn['args']), fn.get('krate'))
            return self.mk(('fn', fn, tuple(x if isinstance(x, int) else None for x in k.get('ga', ()))))
        if 'zst' in k:
            t = self.ty(tid) if isinstance(tid, int) else None
            if t is None: return self.unit
            if t['k'] == 'fndef':
                fn = t['fn']
                if isinstance(fn, dict): fn = ('unres', fn['unres'], (), fn.get('krate'))
                return self.mk(('fn', fn, ()))
            if t['k'] == 'tuple': return self.unit
            return self.agg(tid, 0, ())
        if 'agg' in k:
            t = self.ty(tid) if isinstance(tid, int) else {}
            fts = t.get('f', [None] * len(k['agg']))
            return self.agg(None, 0, [self.const(x, ft) for x, ft in zip(k['agg'], fts)])
        if 'arr' in k:
            t = self.ty(tid) if isinstance(tid, int) else {}
            return self.agg('arr', 0, [self.const(x, t.get('e')) for x in k['arr']])
        if 'adt' in k:
            t = self.ty(tid) if isinstance(tid, int) else {}
            fts = [x[1] for x in t['v'][k['adt']]['f']] if t.get('v') else [None] * len(k['f'])
            if isinstance(tid, int) and self.is_transparent(tid) and len(k['f']) == 1: return self.const(k['f'][0], fts[0])
            return self.agg(tid, k['adt'], [self.const(x, ft) for x, ft in zip(k['f'], fts)])
        if 'ref' in k:
            t = self.ty(tid) if isinstance(tid, int) else {}
            return self.mk(('kref', self.const(k['ref'], k.get('t', t.get('e')))))
        if 'static' in k: return self.ref(('S', k['static']))
        if 'addr' in k: return self.c(int(k['addr']))
        m = re.match(r'uneval "core::num::<impl ([iu])(8|16|32|64|128|size)>::(MAX|MIN)"', str(k.get('opaque', '')))
        if m:
            n = 64 if m.group(2) == 'size' else int(m.group(2))
            return self.c({'uMAX': (1 << n) - 1, 'uMIN': 0, 'iMAX': (1 << n - 1) - 1, 'iMIN': -(1 << n - 1)}[m.group(1) + m.group(3)])
        return self.mk(('opq', str(sorted(k.items()))))

    def operand(self, s, fr, f, o):
        if o[0] == 'k': return self.const(o[1], o[2])
        if o[0] == 'rc': return self.c0
        l = self.loc(s, fr, f, o[1])
        return self.read(s, l)

    def wrapc(self, n, tid):
        t = self.ty(tid) if isinstance(tid, int) else None
        if t and t['k'] == 'int':
            b = t['bits']
            m = n & ((1 << b) - 1)
            if t['signed'] and m >> (b - 1): m -= 1 << b
            return m
        return n

    def binop(self, s, op, a, b, tid=None):
        a, b = self.norm(s, a), self.norm(s, b)
        op = op.replace('Unchecked', '')
        ca, cb = self.isc(a), self.isc(b)
        if op == 'Ne': return self.notv(s, self.binop(s, 'Eq', a, b))
        if op == 'Ge': return self.notv(s, self.binop(s, 'Lt', a, b))
        if op == 'Le': return self.notv(s, self.binop(s, 'Lt', b, a))
        if op == 'Gt': return self.binop(s, 'Lt', b, a)
        if ca is not None and cb is not None:
            r = None
            if op == 'Add': r = ca + cb
            elif op == 'Sub': r = ca - cb
            elif op == 'Mul': r = ca * cb
            elif op == 'Div': r = ca // cb if cb else None
            elif op == 'Rem': r = ca % cb if cb else None
            elif op == 'BitAnd': r = ca & cb
            elif op == 'BitOr': r = ca | cb
            elif op == 'BitXor': r = ca ^ cb
            elif op == 'Shl': r = ca << (cb & 127)
            elif op == 'Shr': r = ca >> (cb & 127)
            elif op == 'Eq': return self.c(ca == cb)
            elif op == 'Lt': return self.c(ca < cb)
            if r is not None: return self.c(self.wrapc(r, tid))
        if op in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr') and cb == 0: return a
        if op in ('Add', 'BitOr') and ca == 0: return b
        if op == 'BitAnd' and (ca == 0 or cb == 0): return self.c0
        if op == 'Mul' and cb == 1: return a
        if op == 'Eq': return self.eqv(s, a, b)
        if op == 'Lt':
            if a == b: return self.c0
            if cb == 0 and self.unsigned_ok: return self.c0
            t = self.mk(('op', 'Lt', a, b))
            if ca == 0 and 0 in s.ne.get(b, ()): return self.c1
            return self.norm(s, t)
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and (ca is not None and cb is None): a, b = b, a
        if op == 'Sub' and a == b: return self.c0
        if op == 'BitAnd' and a == b: return a
        if op == 'BitOr' and a == b: return a
        return self.norm(s, self.mk(('op', op, a, b)))

    unsigned_ok = True

    def eqv(self, s, a, b):
        """structural equality of two values"""
        a, b = self.norm(s, a), self.norm(s, b)
        if a == b: return self.c1
        ta, tb = self.tab[a], self.tab[b]
        if ta[0] == 'c' and tb[0] == 'c': return self.c(ta[1] == tb[1])
        if ta[0] == 's' and tb[0] == 's': return self.c(ta[1] == tb[1])
        if ta[0] == 's' and not ta[1]: return self.eqv(s, self.lenv(s, b), self.c0)
        if tb[0] == 's' and not tb[1]: return self.eqv(s, self.lenv(s, a), self.c0)
        if ta[0] == 'kref' or tb[0] == 'kref' or (ta[0] == 'ref' and tb[0] == 'ref'):
            if ta[0] in ('kref', 'ref') and tb[0] in ('kref', 'ref'):
                return self.eqv(s, self.content(s, a), self.content(s, b))
        if ta[0] == 'agg' and tb[0] == 'agg':
            if ta[2] != tb[2] or len(ta[3]) != len(tb[3]): return self.c0
            r = self.c1
            for x, y in zip(ta[3], tb[3]):
                e = self.eqv(s, x, y)
                if self.isc(e) == 0: return self.c0
                r = self.andv(s, r, e)
            return r
        # enum against an enum constant: variants that differ decide it
        for x, y, tx in ((a, b, tb), (b, a, ta)):
            if tx[0] == 'agg' and isinstance(tx[1], int) and self.ty(tx[1]).get('kind') == 'Enum':
                dx = s.eq.get(self.mk(('discr', x)))
                dy = self.discr_of(tx)
                if dx is not None and dx != dy: return self.c0
                if dy in s.ne.get(self.mk(('discr', x)), ()): return self.c0
                if not tx[3]:
                    return self.norm(s, self.mk(('op', 'Eq', self.mk(('discr', x)), self.c(dy))))
        if ta[0] == 'c' or (tb[0] != 'c' and b < a): a, b = b, a
        cb = self.isc(b)
        if cb is not None:
            if cb in s.ne.get(a, ()): return self.c0
            # b is a boolean constant: x == true is x
            if self.is_bool_op(self.tab[a]) and cb in (0, 1):
                return a if cb == 1 else self.notv(s, a)
        return self.norm(s, self.mk(('op', 'Eq', a, b)))

    def andv(self, s, a, b):
        if self.isc(a) == 1: return b
        if self.isc(b) == 1: return a
        if self.isc(a) == 0 or self.isc(b) == 0: return self.c0
        return self.norm(s, self.mk(('op', 'BitAnd', a, b)))

    def notv(self, s, a):
        c = self.isc(a)
        if c is not None: return self.c(1 - c)
        t = self.tab[a]
        if t[0] == 'op' and t[1] == 'Not': return t[2]
        return self.norm(s, self.mk(('op', 'Not', a)))

    def discr_of(self, t):
        tid = t[1]
        if isinstance(tid, int):
            ty = self.ty(tid)
            if ty['k'] == 'adt' and ty['v']: return ty['v'][t[2]]['d'] if t[2] < len(ty['v']) else t[2]
        return t[2]

    def discr(self, s, v):
        t = self.tab[v]
        if t[0] == 'agg': return self.c(self.discr_of(t))
        if t[0] == 'upd':
            for e, x in t[2]:
                if e == 'd': return x
            return self.discr(s, t[1])
        return self.norm(s, self.mk(('discr', v)))

    def rvalue(self, s, fr, f, r, dest_ty):
        k = r[0]
        if k == 'use': return self.operand(s, fr, f, r[1])
        if k in ('ref', 'addr'):
            l = self.loc(s, fr, f, r[2])
            return self.ref(l[0], l[1])
        if k in ('bin',):
            a, b = self.operand(s, fr, f, r[2]), self.operand(s, fr, f, r[3])
            return self.binop(s, r[1], a, b, self.op_ty(f, r[2]))
        if k == 'cbin':
            a, b = self.operand(s, fr, f, r[2]), self.operand(s, fr, f, r[3])
            tid = self.op_ty(f, r[2])
            v = self.binop(s, r[1], a, b, tid)
            a, b = self.norm(s, a), self.norm(s, b)
            ca, cb = self.isc(a), self.isc(b)
            if ca is not None and cb is not None:
                raw = {'Add': ca + cb, 'Sub': ca - cb, 'Mul': ca * cb}.get(r[1])
                ov = self.c(0 if raw is None else (raw != self.wrapc(raw, tid)))
            else:
                ov = self.ovf(s, r[1], a, b, tid)
            return self.agg(None, 0, (v, ov))
        if k == 'un':
            a = self.operand(s, fr, f, r[2])
            if r[1] == 'Not':
                t = self.op_ty(f, r[2])
                if t is not None and self.ty(t)['k'] == 'bool': return self.notv(s, a)
                ca = self.isc(a)
                if ca is not None: return self.c(self.wrapc(~ca, t))
                return self.norm(s, self.mk(('op', 'BNot', a)))
            if r[1] == 'Neg':
                ca = self.isc(a)
                if ca is not None: return self.c(self.wrapc(-ca, self.op_ty(f, r[2])))
                return self.mk(('op', 'Neg', a))
            if r[1] == 'PtrMetadata':
                return self.lenv(s, self.content(s, a))
            return self.mk(('op', r[1], a))
        if k == 'cast':
            a = self.operand(s, fr, f, r[2])
            return self.castv(s, r[1], a, r[3], self.op_ty(f, r[2]))
        if k == 'discr':
            v = self.discr(s, self.read(s, self.loc(s, fr, f, r[1])))
            if v not in self.dom and self.tab[v][0] == 'discr':
                ty = self.place_ty(f, r[1])
                ty = self.ty(ty) if ty is not None else None
                if ty and ty.get('kind') == 'Enum' and len(ty['v']) > 0: self.dom[v] = frozenset(x['d'] for x in ty['v'])
            return v
        if k == 'len':
            return self.lenv(s, self.read(s, self.loc(s, fr, f, r[1])))
        if k == 'agg':
            vals = [self.operand(s, fr, f, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tuple': return self.agg(None, 0, vals)
            if kk[0] == 'array': return self.agg('arr', 0, vals)
            if kk[0] == 'adt':
                tid = kk[1]
                if self.is_transparent(tid) and len(vals) >= 1: return vals[0]
                return self.agg(tid, kk[2], vals)
            if kk[0] in ('closure', 'coroutine'):
                return self.agg(kk[1], 0, vals)
            if kk[0] == 'rawptr': return vals[0]
            return self.mk(('agg?',) + tuple(vals))
        if k == 'rep':
            v = self.operand(s, fr, f, r[1])
            return self.agg('rep', 0, (v, self.c(r[2] if r[2] is not None else -1)))
        if k == 'tls': return self.ref(('S', r[1]))
        return self.mk(('rv?', str(r)[:60]))

    def ovf(self, s, op, a, b, tid):
        t = self.ty(tid) if isinstance(tid, int) else None
        if t and t['k'] == 'int' and not t['signed'] and op == 'Sub':
            # unsigned: overflow iff a < b
            return self.binop(s, 'Lt', a, b)
        return self.norm(s, self.mk(('op', 'Ovf', self.mk(('op', op, a, b)))))

    def lenv(self, s, v):
        t = self.tab[v]
        if t[0] == 's': return self.c(len(t[1].encode('utf-8', 'surrogatepass')))
        if t[0] == 'agg' and t[1] == 'arr': return self.c(len(t[3]))
        if t[0] == 'agg' and t[1] == 'rep': return t[3][1]
        if t[0] == 'upd': return self.lenv(s, t[1])
        return self.norm(s, self.call('len', v))

    def castv(self, s, kind, a, tid, from_tid):
        c = self.isc(a)
        if kind == 'IntToInt':
            ft = self.ty(from_tid) if isinstance(from_tid, int) else None
            if c is not None: return self.c(self.wrapc(c, tid))
            if ft and ft['k'] == 'bool': return self.norm(s, self.mk(('cast', 'bool', a)))
            tt = self.ty(tid)
            fb = {'char': 32, 'bool': 1}.get(ft['k'], ft.get('bits')) if ft else None
            fs = bool(ft and ft.get('signed'))
            if fb and tt.get('k') in ('int', 'char') and not fs and (tt.get('bits', 32) >= fb):
                return a        # widening an unsigned value keeps it
            return self.norm(s, self.mk(('cast', self.d.tyname(tid), a)))
        if kind.startswith('PC:ReifyFnPointer') or kind.startswith('PC:ClosureFnPointer'): return a
        if kind.startswith('PC:') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype', 'FnPtrToPtr'):
            tt = self.ty(tid)
            if kind == 'Transmute' and tt['k'] in ('int', 'char', 'bool', 'float', 'adt') and not self.is_transparent(tid):
                ft = self.ty(from_tid) if isinstance(from_tid, int) else {}
                if tt['k'] == 'char' or (ft.get('k') == 'int' and tt['k'] == 'int'): return a
                return self.norm(s, self.mk(('cast', 'T:' + self.d.tyname(tid), a)))
            return a
        return self.norm(s, self.mk(('cast', kind + self.d.tyname(tid), a)))

    def fresh(self, s, what):
        s.nf += 1
        return self.mk(('fresh', s.nf, what))

    # ---------------------------------------------------------------- exploration
    def fi(self, fid):
        r = self.finfo.get(fid)
        if r is None:
            r = self.finfo[fid] = FnInfo(self.d.fns[fid])
        return r

    def intern_fid(self, key):
        r = self.fids.get(key)
        if r is None:
            r = len(self.fids) + 1
            self.fids[key] = r
            self.fidrev.append(key)
        return r

    def key(self, s):
        """priority: process deeper and earlier blocks first"""
        out = []
        for fr in s.stack:
            out.append(self.fi(fr[0]).rpo.get(fr[4], 0))
        return tuple(out)

    def start(self, s, fnid, args, name='root'):
        f = self.d.fns[fnid]
        fid = self.intern_fid((name, fnid))
        for i, a in enumerate(args): s.store[('L', fid, i + 1)] = a
        s.stack = s.stack + ((fnid, fid, None, None, 0),)
        self.visited_fns.add(fnid)
        return s

    def explore(self, inits):
        self.heap = []
        self.seen = {}
        self.seq = 0
        self.groups = {}
        self.exits = []
        self.panics = {}
        self.steps = 0
        for s in inits: self.push(s)
        while self.heap:
            _, _, s = heapq.heappop(self.heap)
            if s.exit == 'merged': continue
            self.run(s)
        return self.exits

    def push(self, s):
        self.seq += 1
        heapq.heappush(self.heap, (self.key(s), self.seq, s))

    def finish(self, s, kind, info=None):
        s.exit = (kind, info)
        self.on_exit(s)
        if kind == 'panic' and not self.keep_panics:
            fr = s.stack[-1]
            k = (fr[1], fr[4], info[0], self.monkey(s))
            if k in self.panics: return
            self.panics[k] = s
        self.exits.append(s)

    keep_panics = False

    def on_exit(self, s):
        pass

    # --- garbage collection and identity
    def gc(self, s):
        store = s.store
        live_locals = set()
        addr = {}
        n = len(s.stack)
        for idx, fr in enumerate(s.stack):
            fi = self.fi(fr[0])
            b = fr[4]
            if idx == n - 1:
                for l in fi.live[b]: live_locals.add((fr[1], l))
            else:
                # this frame continues after the call it is in
                for b2 in fi.succ[b]:
                    for l in fi.live[b2]: live_locals.add((fr[1], l))
            addr[fr[1]] = fi.addr
        work = []
        keep = set()
        for o in store:
            if o[0] == 'L':
                fid, l = o[1], o[2]
                if (fid, l) in live_locals: keep.add(o); work.append(store[o])
            elif o[0] in ('S', 'G'): keep.add(o); work.append(store[o])
        for v in s.mon.values():
            self.mon_values(v, work)
        for v in s.user.values():
            self.mon_values(v, work)
        for fr in s.stack:
            if fr[2] is not None:
                if fr[2][0][0] == '*': work.append(fr[2][0][1])
        live = set()
        pend = [o for o in store if o not in keep]
        seenv = set()
        progress = True
        while True:
            while work:
                v = work.pop()
                if v in seenv: continue
                seenv.add(v)
                sub = self.subs(v)
                for x in sub:
                    if x in live: continue
                    live.add(x)
                    t = self.tab[x]
                    if t[0] == 'ref' and t[1] not in keep and t[1] in store:
                        keep.add(t[1]); work.append(store[t[1]])
            added = False
            rest = []
            for o in pend:
                if o in keep: continue
                if o[0] == '*' and (o[1] in live or (not self.leaves(o[1]) and not any(self.tab[x][0] == 'ref' and self.tab[x][1][0] == 'L' for x in self.subs(o[1])))):
                    keep.add(o); work.append(store[o]); added = True
                elif o[0] == '*' and self.leaves(o[1]) and self.leaves(o[1]) <= live:
                    keep.add(o); work.append(store[o]); added = True
                else: rest.append(o)
            pend = rest
            if not added and not work: break
        s.store = {o: v for o, v in store.items() if o in keep}
        ll = set()
        for x in live:
            if self.tab[x][0] in ('fresh', 'phi'): ll.add(x)
        s.eq = {t: k for t, k in s.eq.items() if self.leaves(t) <= ll}
        s.ne = {t: k for t, k in s.ne.items() if self.leaves(t) <= ll}

    def mon_values(self, v, out):
        if isinstance(v, V): out.append(v)
        elif isinstance(v, (tuple, frozenset)):
            for x in v: self.mon_values(x, out)

    def ident(self, s):
        return (frozenset(s.store.items()), frozenset(s.eq.items()), frozenset(s.ne.items()), s.loans,
                tuple(sorted(s.user.items(), key=str)))

    def monkey(self, s):
        return tuple(sorted(s.mon.items(), key=lambda x: x[0]))

    def locid(self, s):
        return tuple((fr[1], fr[4]) for fr in s.stack)

    def goto(self, s, bb, via_return=False):
        """transfer to block bb of the top frame; returns True if execution may continue directly"""
        fr = s.stack[-1]
        fi = self.fi(fr[0])
        old = fr[4]
        s.stack = s.stack[:-1] + ((fr[0], fr[1], fr[2], fr[3], bb),)
        if bb in fi.heads:
            return self.arrive_head(s, fi, old, bb)
        if bb in fi.joins or via_return:
            return self.arrive_join(s)
        return True

    phi_per_entry = False   # name what a loop carries after the entry to the loop, not after the loop

    def arrive_join(self, s):
        self.gc(s)
        l = (self.locid(s), self.monkey(s), tuple(sorted(s.tags.items())))
        ent = self.seen.setdefault(l, {'ids': set(), 'states': [], 'merged': None})
        i = self.ident(s)
        if i in ent['ids']: return False
        ent['ids'].add(i)
        if len(ent['ids']) > self.budget:
            base = ent['merged'] or ent['states'][-1]
            m = self.widen(base, s, ('J',) + l[0][-1:])
            self.stats['merges'] += 1
            mi = self.ident(m)
            if ent['merged'] is not None and mi == self.ident(ent['merged']): return False
            if ent.get('pending') is not None and ent['pending'].exit is None:
                ent['pending'].exit = 'merged'
            ent['merged'] = m
            m2 = m.copy()
            ent['pending'] = m2
            self.push(m2)
            return False
        ent['states'].append(s.copy())
        self.push(s)
        return False

    def peel(self, s, hk):
        """analyse what follows this arrival at a loop head apart from earlier iterations (bounded by the rule's automaton)"""
        return False

    def arrive_head(self, s, fi, old, bb):
        fr = s.stack[-1]
        hk = (fr[1], bb)
        back = (old, bb) in fi.back and hk in s.tags
        if back and self.peel(s, hk): back = False
        self.gc(s)
        if not back:
            # a new entry to the loop
            t = dict(s.tags)
            t.pop(hk, None)
            s.tags = t
            e = (self.locid(s), self.monkey(s), self.ident(s), tuple(sorted(t.items())))
            g = self.groups.get(e)
            if g is not None: return False
            # bound the number of distinct entries: join them
            cnt = self.groups.setdefault(('n',) + (self.locid(s), self.monkey(s), tuple(sorted(t.items()))), [])
            if len(cnt) >= self.entry_budget:
                id_ = self.groups.setdefault(('e', (self.locid(s), self.monkey(s), tuple(sorted(t.items())))), len(self.groups))
                base = cnt[-1]
                m = self.widen(base, s, ('E',) + hk + ((id_,) if self.phi_per_entry else ()))
                if self.ident(m) == self.ident(base):
                    return False
                cnt.append(m.copy())
                s2 = m
                e = (self.locid(s2), self.monkey(s2), self.ident(s2), tuple(sorted(t.items())))
                if e in self.groups: return False
                s = s2
            else:
                cnt.append(s.copy())
            gid = len(self.groups)
            self.groups[e] = gid
            t = dict(s.tags)
            t[hk] = gid
            s.tags = t
            self.groups[('g', gid)] = {'entry': s.copy(), 'acc': {self.monkey(s): None}}
            self.push(s)
            return False
        gid = s.tags[hk]
        g = self.groups[('g', gid)]
        # forget tags of inner loops
        mk_ = self.monkey(s)
        base = g['acc'].get(mk_)
        if base is None: base = s if self.split_heads and mk_ != self.monkey(g['entry']) else g['entry']
        m = self.widen(base, s, ('W',) + hk + ((gid,) if self.phi_per_entry else ()), entry=g['entry'])
        self.stats['widenings'] += 1
        acc = g['acc'].get(mk_)
        if acc is None and mk_ == self.monkey(g['entry']) and self.ident(m) == self.ident(g['entry']): return False
        if acc is not None and self.ident(m) == self.ident(acc): return False
        g['acc'][mk_] = m.copy()
        self.push(m)
        return False

    def widen(self, a, b, tag, entry=None):
        """least state above a and b; differing places become phi terms of this head"""
        m = b.copy()
        m.tags = dict(a.tags)
        m.stack = b.stack
        phis = set()
        own = lambda v: self.tab[v][0] == 'phi' and self.tab[v][1] == tag
        store = {}
        for o in set(a.store) | set(b.store):
            ina, inb = o in a.store, o in b.store
            if o[0] == 'L' and not (ina and inb):
                continue
            if o[0] != 'L' and not inb and not ina: continue
            va, vb = self.getobj(a, o), self.getobj(b, o)
            if o[0] == '*' and not ina and any(self.tab[x][0] == 'phi' and self.tab[x][1] == tag for x in self.leaves(o[1])):
                continue    # object of an earlier iteration
            if o[0] == 'H' and not (ina and inb):
                store[o] = vb if inb else va
                continue
            v = self.join(va, vb, tag, (o,), a, b)
            if o[0] != '*' or v != self.obj_default(o): store[o] = v
        m.store = store
        # facts: keep those that hold in both, and do not mention this head's own phis from b
        # unless the accumulated state already knew them
        def holds(st, t, k):
            if st.eq.get(t) == k: return True
            return False
        eq = {}
        for t, k in a.eq.items():
            if b.eq.get(t) == k: eq[t] = k
        ne = {}
        for t, k in a.ne.items():
            kb = b.ne.get(t)
            if kb is None and t in b.eq and b.eq[t] not in k: kb = k
            if kb:
                x = k & kb
                if x: ne[t] = x
        for t, k in b.ne.items():
            if t in a.eq and a.eq[t] not in k: ne[t] = ne.get(t, frozenset()) | k
        # what was known about a joined place is kept only where it also holds for the value that comes in
        lj = self.last_join
        if lj:
            for facts, isne in ((eq, False), (ne, True)):
                for t in [t for t in facts if any(x in lj for x in self.leaves(t))]:
                    k = facts[t]
                    del facts[t]
                    if any(x in lj and lj[x][0] != x for x in self.leaves(t)): continue
                    t2 = self.subst(b, t, {x: lj[x][1] for x in self.leaves(t) if x in lj})
                    c = self.isc(t2)
                    if not isne:
                        if c == k if c is not None else b.eq.get(t2) == k: facts[t] = k
                    else:
                        if c is None: c = b.eq.get(t2)
                        kb = k if c is not None and c not in k else (k & b.ne.get(t2, frozenset()) if c is None else None)
                        if kb: facts[t] = kb
        # facts about joined values
        for ph, (va, vb) in self.last_join.items():
            fa, fb = self.facts_of(a, va), self.facts_of(b, vb)
            for key in fa:
                if key in fb:
                    x, y = fa[key], fb[key]
                    t = ph if key == '' else self.mk((key, ph))
                    if x[0] == '=' and y[0] == '=' and x[1] == y[1]: eq[t] = x[1]
                    else:
                        nx = x[1] if x[0] == '!' else None
                        ny = y[1] if y[0] == '!' else None
                        if x[0] == '=' and y[0] == '!':
                            if x[1] not in y[1]: ne[t] = y[1]
                        elif y[0] == '=' and x[0] == '!':
                            if y[1] not in x[1]: ne[t] = x[1]
                        elif nx and ny and nx & ny: ne[t] = nx & ny
        self.last_join = {}
        m.eq, m.ne = eq, ne
        m.nf = max(a.nf, 0) if entry is None else max(entry.nf, a.nf)
        if entry is None: m.nf = max(a.nf, b.nf)
        m.loans = a.loans | b.loans
        m.user = {k: v for k, v in b.user.items() if a.user.get(k) == v}
        m.exit = None
        return m

    last_join = {}

    def subst(self, s, v, m):
        if v in m: return m[v]
        if not any(x in m for x in self.leaves(v)): return v
        t = self.tab[v]
        if t[0] == 'discr': return self.discr(s, self.subst(s, t[1], m))
        if t[0] == 'fld': return self.norm(s, self.proj(s, self.subst(s, t[1], m), (t[2], t[3])))

        def go(x):
            if isinstance(x, V): return self.subst(s, x, m)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        return self.norm(s, self.mk(tuple(go(x) for x in t)))

    def facts_of(self, s, v):
        out = {}
        c = self.isc(v)
        if c is not None: out[''] = ('=', c)
        elif v in s.eq: out[''] = ('=', s.eq[v])
        elif v in s.ne: out[''] = ('!', s.ne[v])
        d = self.discr(s, v)
        c = self.isc(d)
        if c is not None: out['discr'] = ('=', c)
        elif d in s.ne: out['discr'] = ('!', s.ne[d])
        return out

    def join(self, va, vb, tag, where, a, b):
        if va == vb and not any(self.tab[x][0] == 'phi' and self.tab[x][1] == tag and x != self.mk(('phi', tag, where)) for x in self.leaves(vb)):
            return va
        ta, tb = self.tab[va], self.tab[vb]
        if ta[0] == 'agg' and tb[0] == 'agg' and ta[1] == tb[1] and ta[2] == tb[2] and len(ta[3]) == len(tb[3]):
            return self.agg(ta[1], ta[2], [self.join(x, y, tag, where + (i,), a, b) for i, (x, y) in enumerate(zip(ta[3], tb[3]))])
        ba, ia = (ta[1], dict(ta[2])) if ta[0] == 'upd' else (va, {})
        bb, ib = (tb[1], dict(tb[2])) if tb[0] == 'upd' else (vb, {})
        if ba == bb and (ia or ib) and not any(isinstance(e, tuple) and e[0] == 'i' for e in list(ia) + list(ib)):
            items = {}
            for e in set(ia) | set(ib):
                if e == 'd':
                    x, y = ia.get(e), ib.get(e)
                    if x is None or y is None: break
                else:
                    x = ia[e] if e in ia else self.proj(a, ba, e)
                    y = ib[e] if e in ib else self.proj(b, bb, e)
                items[e] = self.join(x, y, tag, where + (e,), a, b)
            else:
                items = {e: x for e, x in items.items() if e == 'd' or self.proj(a, ba, e) != x}
                if not items: return ba
                return self.mk(('upd', ba, tuple(sorted(items.items(), key=str))))
        ph = self.mk(('phi', tag, where))
        if not self.last_join: self.last_join = {}
        self.last_join[ph] = (va, vb)
        return ph

    # ---------------------------------------------------------------- execution
    def run(self, s):
        while True:
            self.steps += 1
            self.stats['blocks'] += 1
            if self.steps > self.max_steps: raise Budget('too many steps')
            fr = s.stack[-1]
            f = self.d.fns[fr[0]]
            st, term = f['blocks'][fr[4]]
            try:
                for x in st: self.stmt(s, fr, f, x)
                nxt = self.term(s, fr, f, term)
            except Infeasible:
                return
            if not nxt: return

    def line(self, s, l=None):
        fr = s.stack[-1]
        return '%s:%s' % (self.d.fns[fr[0]].get('file'), l)

    def where(self, s):
        return ' > '.join(self.fn_label(fr[0]) for fr in s.stack)

    def fn_label(self, fnid):
        return self.d.fns[fnid]['path']

    def stmt(self, s, fr, f, x):
        if x[0] == '=':
            v = self.rvalue(s, fr, f, x[2], None)
            l = self.loc(s, fr, f, x[1])
            self.cur_line = x[3]
            self.write(s, l, v)
        elif x[0] == 'dead':
            o = ('L', fr[1], x[1])
            s.store.pop(o, None)
        elif x[0] == 'sd':
            l = self.loc(s, fr, f, x[1])
            v = self.read(s, l)
            t = self.tab[v]
            if t[0] == 'upd': base, items = t[1], dict(t[2])
            else: base, items = v, {}
            items['d'] = self.c(x[2])
            self.write(s, l, self.mk(('upd', base, tuple(sorted(items.items(), key=str)))))

    cur_line = None
    cur_dest_ty = None

    def place_content_ty(self, tid):
        if tid is None: return None
        t = self.ty(tid)
        return t.get('e') if t['k'] in ('ref', 'ptr') else tid

    def acquire(self, s, key, kind, conflict, line, g):
        """a lock or dynamic borrow is taken; conflict: loans already held that exclude it"""
        pass

    def term(self, s, fr, f, t):
        k = t[0]
        if k == 'goto': return self.goto(s, t[1])
        if k == 'switch': return self.do_switch(s, fr, f, t)
        if k == 'call': return self.do_call(s, fr, f, t)
        if k == 'drop': return self.do_drop(s, fr, f, t)
        if k == 'assert':
            cv = self.operand(s, fr, f, t[1])
            want = 1 if t[2] else 0
            c = self.isc(self.norm(s, cv))
            self.cur_line = t[6]
            if c is None:
                bad = s.copy()
                try:
                    self.assume(bad, cv, 1 - want)
                    self.do_panic(bad, ('assert', t[3][0], self.line(s, t[6]), t, fr))
                except Infeasible: pass
                self.assume(s, cv, want)
            elif c != want:
                self.do_panic(s, ('assert', t[3][0], self.line(s, t[6]), t, fr))
                return False
            return self.goto(s, t[4])
        if k == 'ret': return self.do_return(s, fr, f)
        if k == 'unreach': return False
        if k in ('resume', 'abort', 'asm'): return False
        return False

    def do_panic(self, s, info):
        self.finish(s, 'panic', info)

    def do_switch(self, s, fr, f, t):
        v = self.norm(s, self.operand(s, fr, f, t[1]))
        tid = self.op_ty(f, t[1])
        bits = None
        if tid is not None:
            ty = self.ty(tid)
            bits = ty.get('bits', 32 if ty['k'] == 'char' else 1 if ty['k'] == 'bool' else 64)
        c = self.isc(v)
        targets = [(int(a), b) for a, b in t[2]]
        if c is not None:
            cm = c & ((1 << (bits or 128)) - 1)
            for a, b in targets:
                if a == cm: return self.goto(s, b)
            return self.goto(s, t[3])
        blocks = f['blocks']
        if bits == 1 and len(targets) == 1 and t[3] is not None:
            # a boolean: not the listed value means the other one
            targets.append((1 - targets[0][0], t[3]))
            t = (t[0], t[1], t[2], None)

        def dead(b):
            return blocks[b][1][0] == 'unreach' and not blocks[b][0]
        self.split(s, v, [(self.sign(a, tid), b) for a, b in targets if not dead(b)], None if t[3] is None or dead(t[3]) else t[3], [self.sign(a, tid) for a, _ in targets])
        return False

    def sign(self, a, tid):
        ty = self.ty(tid) if isinstance(tid, int) else None
        if ty and ty['k'] == 'int' and ty.get('signed'):
            b = ty['bits']
            if a >> (b - 1): return a - (1 << b)
        return a

    def split(self, s, v, targets, other, allv):
        for a, b in targets:
            n = s.copy()
            try: self.assume(n, v, a)
            except Infeasible: continue
            if self.goto(n, b): self.push(n)
        if other is not None:
            n = s.copy()
            try:
                for a in allv: self.assume_ne(n, v, a)
            except Infeasible: return
            if self.goto(n, other): self.push(n)

    def do_return(self, s, fr, f):
        v = self.read(s, (('L', fr[1], 0), ()))
        if not s.stack[:-1]:
            s.user = dict(s.user)
            s.user['ret'] = v
            self.finish(s, 'return')
            return False
        self.on_leave(s, fr)
        if not self.fi(fr[0]).addr is None:
            fid = fr[1]
            for o in [o for o in s.store if o[0] == 'L' and o[1] == fid]: del s.store[o]
        if s.tags:
            s.tags = {k: x for k, x in s.tags.items() if k[0] != fr[1]}
        s.stack = s.stack[:-1]
        if fr[2] is not None: self.write(s, fr[2], v)
        if fr[3] is None: return False
        return self.goto(s, fr[3], via_return=True)

    def on_leave(self, s, fr):
        pass

    # --- drops
    def do_drop(self, s, fr, f, t):
        l = self.loc(s, fr, f, t[1])
        v = self.read(s, l)
        tid = t[4]
        self.cur_line = t[5]
        return self.drop_value(s, l, v, tid, t[2])

    def guards_in(self, v, out, depth=4):
        t = self.tab[v]
        if t[0] == 'guard': out.append(v)
        elif t[0] == 'agg' and depth:
            for x in t[3]: self.guards_in(x, out, depth - 1)
        elif t[0] == 'upd' and depth:
            for _, x in t[2]: self.guards_in(x, out, depth - 1)
            self.guards_in(t[1], out, depth - 1)

    def drop_value(self, s, l, v, tid, target):
        g = []
        self.guards_in(v, g)
        for x in g: self.release(s, x)
        self.on_drop(s, l, v, tid)
        if tid is not None and self.has_drop(tid):
            fn = self.find_drop(s, l, tid, v)
            if fn is not None:
                for (fnid, ref) in fn[1:]:
                    pass
                fnid, ref = fn[0]
                # further nested drops are rare: run them in sequence by chaining is not needed here
                return self.enter(s, fnid, [ref], None, target)
        return self.goto(s, target)

    def find_drop(self, s, l, tid, v):
        out = []

        def go(tid, path, v, depth):
            t = self.ty(tid)
            if t['k'] == 'adt':
                if t['def'] in self.drop_impls:
                    out.append((self.drop_impls[t['def']], self.ref(l[0], l[1] + path)))
                    return
                tv = self.tab[v]
                for vi, var in enumerate(t['v']):
                    if t['kind'] == 'Enum':
                        d = self.isc(self.discr(s, v))
                        if d is None or d != var['d']: continue
                    for i, (_, ft) in enumerate(var['f']):
                        if self.has_drop(ft) and depth: go(ft, path + (((vi if t['kind'] == 'Enum' else None), i),), self.proj(s, v, (vi, i)), depth - 1)
            elif t['k'] in ('tuple',):
                for i, ft in enumerate(t['f']):
                    if self.has_drop(ft) and depth: go(ft, path + ((None, i),), self.proj(s, v, (None, i)), depth - 1)
        go(tid, (), v, 4)
        return out or None

    def on_drop(self, s, l, v, tid):
        pass

    def release(self, s, g):
        t = self.tab[g]
        s.loans = frozenset(x for x in s.loans if x[2] != t[3])

    # --- calls
    def callee(self, s, fr, f, o):
        v = self.operand(s, fr, f, o)
        return v

    def do_call(self, s, fr, f, t):
        fv = self.operand(s, fr, f, t[1])
        args = [self.operand(s, fr, f, a) for a in t[2]]
        argtys = [self.op_ty(f, a) for a in t[2]]
        dest = self.loc(s, fr, f, t[3])
        self.cur_line = t[6]
        self.cur_dest_ty = self.place_ty(f, t[3])
        tt = self.tab[fv]
        if tt[0] != 'fn':
            return self.call_value(s, fv, args, argtys, dest, t[4], self.line(s, t[6]))
        return self.call_fn(s, tt[1], tt[2], args, argtys, dest, t[4], self.line(s, t[6]))

    def call_value(self, s, fv, args, argtys, dest, target, line):
        """call through a function pointer"""
        return self.extern(s, {'name': 'fnptr', 'path': 'fnptr', 'kind': 'ptr', 'krate': '?', 'local': False, 'id': -1, 'argc': len(args)}, [fv] + args, [None] + argtys, dest, target, line)

    def call_fn(self, s, fn, ga, args, argtys, dest, target, line):
        if not isinstance(fn, int):
            if isinstance(fn, tuple):
                return self.extern(s, {'name': fn[1], 'path': fn[1], 'kind': 'unres', 'krate': fn[3] if len(fn) > 3 else '?', 'ga': fn[2], 'local': False, 'id': -1, 'argc': len(args)}, args, argtys, dest, target, line)
            return self.extern(s, {'name': str(fn), 'path': str(fn), 'kind': 'unres', 'krate': '?', 'local': False, 'id': -1, 'argc': len(args)}, args, argtys, dest, target, line)
        g = self.d.fns[fn]
        r = self.hook_call(s, g, args, argtys, dest, target, line)
        if r is not None: return r[0]
        if 'blocks' in g and self.should_inline(s, g):
            if len(s.stack) < self.max_depth and not any(x[0] == fn for x in s.stack):
                if g['kind'] != 'shim' and '{closure' in g['path'] and g['argc'] != len(args) or \
                        ('{closure' in g['path'] and g['kind'] != 'shim' and len(args) == 2 and self.is_rust_call(g, argtys)):
                    tup = args[1]
                    args = [args[0]] + [self.proj(s, tup, (None, i)) for i in range(g['argc'] - 1)]
                return self.enter(s, fn, args, dest, target)
        return self.extern(s, g, args, argtys, dest, target, line)

    def is_rust_call(self, g, argtys):
        # closures are always called through the Fn traits, with their arguments tupled
        if len(argtys) != 2 or argtys[1] is None: return False
        t = self.ty(argtys[1])
        return t['k'] == 'tuple' and len(t['f']) == g['argc'] - 1 and not self.coroutine_fn(g)

    def coroutine_fn(self, g):
        return g['kind'] == 'coroutine'

    def should_inline(self, s, g):
        return True

    def hook_call(self, s, g, args, argtys, dest, target, line):
        return None

    def enter(self, s, fn, args, dest, target):
        fr = s.stack[-1]
        fid = self.intern_fid((fr[1], fr[4], fn))
        for o in [o for o in s.store if o[0] == 'L' and o[1] == fid]: del s.store[o]
        for i, a in enumerate(args): s.store[('L', fid, i + 1)] = a
        s.stack = s.stack + ((fn, fid, dest, target, 0),)
        self.visited_fns.add(fn)
        self.on_enter(s, fn, args)
        fi = self.fi(fn)
        if 0 in fi.heads:
            return self.arrive_head(s, fi, -1, 0)
        return True

    def on_enter(self, s, fn, args):
        pass

    def ret(self, s, dest, target, v):
        if target is None: return False
        if dest is not None: self.write(s, dest, v)
        return self.goto(s, target)

    def ret_many(self, outs, dest, target):
        for s, v in outs:
            if target is None: continue
            if dest is not None: self.write(s, dest, v)
            if self.goto(s, target): self.push(s)
        return False

    def extern(self, s, g, args, argtys, dest, target, line):
        """a call to code that is not analysed: model it"""
        name = g['name']
        self.event(s, 'call', g, args, argtys, line)
        if s.exit: 
            self.exits.append(s); return False
        r = self.model(s, g, args, argtys, dest, target, line)
        if r is None:
            r = self.std_model(s, g, args, argtys, dest, target, line)
        if isinstance(r, V):
            if target is None:
                self.do_panic(s, ('diverge', name, line, args))
                return False
            return self.ret(s, dest, target, r)
        if isinstance(r, list):
            return self.ret_many(r, dest, target)
        return r

    def event(self, s, kind, g, args, argtys, line):
        pass

    def model(self, s, g, args, argtys, dest, target, line):
        return None

    def snap(self, s, v, tid, depth=3):
        """value of an argument, looking through references"""
        t = self.tab[v]
        if t[0] == 'ref':
            if depth == 0: return v
            return self.snapv(s, self.content(s, v), depth - 1)
        if t[0] == 'guard': return self.snapv(s, self.content(s, v), depth - 1)
        if t[0] == 'kref': return t[1]
        if tid is not None and self.ty(tid)['k'] in ('ref', 'ptr'):
            return self.content(s, v)
        return self.snapv(s, v, depth)

    def snapv(self, s, v, depth):
        t = self.tab[v]
        if t[0] == 'agg' and depth:
            fs = tuple(self.snap(s, x, None, depth - 1) for x in t[3])
            if fs != t[3]: return self.agg(t[1], t[2], fs)
        elif t[0] == 'ref' and depth:
            return self.snap(s, v, None, depth - 1)
        return v

    def havoc_muts(self, s, g, args, argtys, snaps, fresh):
        for i, (a, ty) in enumerate(zip(args, argtys)):
            if ty is None: continue
            t = self.ty(ty)
            if t['k'] in ('ref', 'ptr') and t['mut']:
                if fresh: nv = self.fresh(s, 'mut:' + g['name'])
                else: nv = self.mk(('mut', g['name'], i) + tuple(snaps))
                l = self.deref(s, a)
                self.write(s, l, nv)

    def std_model(self, s, g, args, argtys, dest, target, line):
        import models
        return models.std(self, s, g, args, argtys, dest, target, line)
