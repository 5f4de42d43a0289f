"""Positions inside strings: a term-level proof system for 'this index lies inside this text and on a character
boundary', with coinduction over the values that loops carry (no solver: fixed rules on linear terms)."""
from disp import *
import disp

INDEX = re.compile(r'Index(Mut)?<I> for str>::index(_mut)?$|^<(std::string|alloc::string)::String as std::ops::Index(Mut)?<I>>::index(_mut)?$')
STRING = re.compile(r'^(std|alloc)::string::String::(\w+)$|^(core|std)::str::<impl str>::(\w+)$')


def opname(n):
    """last segment of a path, without trailing generic arguments"""
    n = str(n)
    if n.endswith('>'):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            if n[i] == '>' and n[i - 1:i] != '-': d += 1
            if n[i] == '<':
                d -= 1
                if d == 0:
                    if n[:i].endswith('::'): n = n[:i - 2]
                    break
    return pathtail(n)


class Prover:
    """mixin of Engine"""

    def prover_init(self):
        self.phis = {}
        self.nevent = 0
        self.obl = []
        self.c0 = self.c(0)
        self.given = []      # (text, position): positions known to be boundaries to begin with

    def join(self, va, vb, tag, where, a, b):
        r = super().join(va, vb, tag, where, a, b)
        if self.tab[r][0] == 'phi' and r not in (va, vb) or (self.tab[r][0] == 'phi' and self.tab[r][1] == tag):
            l = self.phis.setdefault(r, [])
            if va != r: l.append((self.nevent, 0, a, va))
            if vb != r: l.append((self.nevent, 1, b, vb))
        return r

    def widen(self, a, b, tag, entry=None):
        self.nevent += 1
        return super().widen(a, b, tag, entry)

    def gc(self, s):
        old = [(t, k) for t, k in s.eq.items() if self.tab[t][0] == 'phi' and isinstance(k, int)] if self.watching(s) else ()
        super().gc(s)
        lost = [x for x in old if x[0] not in s.eq]
        if lost:
            s.mon = dict(s.mon)
            s.mon['lost'] = (s.mon.get('lost') or frozenset()) | frozenset(lost)

    # ---- linear terms
    def lin(self, v, d=8):
        """({term: coefficient}, constant)"""
        t = self.tab[v]
        if t[0] == 'c': return {}, t[1]
        if d and t[0] == 'op' and t[1] in ('Add', 'Sub') and len(t) == 4:
            a, b = self.lin(t[2], d - 1), self.lin(t[3], d - 1)
            k = 1 if t[1] == 'Add' else -1
            m = dict(a[0])
            for x, n in b[0].items():
                m[x] = m.get(x, 0) + k * n
                if not m[x]: del m[x]
            return m, a[1] + k * b[1]
        if d and t[0] == 'call' and pathtail(str(t[1])) == 'len' and len(t) == 3:
            u = self.tab[t[2]]
            if u[0] == 's': return {}, len(u[1].encode())
            if u[0] == 'mut':
                m = self.oper(u)
                base = u[3]
                L = self.lin(self.lenterm(base), d - 1)
                if m == 'insert_str' and len(u) == 6: return self.plus(L, self.lin(self.lenterm(u[5]), d - 1), 1)
                if m == 'insert' and len(u) == 6 and self.isc(u[5]) is not None:
                    return self.plus(L, ({}, len(chr(self.isc(u[5])).encode('utf8', 'replace'))), 1)
                if m == 'replace_range' and len(u) == 6:
                    a, b = self.bounds(u[4], base)
                    if a is not None: return self.plus(self.plus(self.plus(L, self.lin(b, d - 1), -1), self.lin(a, d - 1), 1), self.lin(self.lenterm(u[5]), d - 1), 1)
        return {v: 1}, 0

    def plus(self, a, b, k):
        m = dict(a[0])
        for x, n in b[0].items():
            m[x] = m.get(x, 0) + k * n
            if not m[x]: del m[x]
        return m, a[1] + k * b[1]

    def oper(self, u):
        return opname(u[1])

    def lenterm(self, v):
        t = self.tab[v]
        if t[0] == 's': return self.c(len(t[1].encode()))
        return self.lenv(None, v) if False else self.mk(('call', 'len', v))

    def bounds(self, r, text):
        """start and end terms of a range value"""
        t = self.tab[r]
        if t[0] == 'agg' and isinstance(t[1], int):
            n = self.ty(t[1]).get('def', '').split('::')[-1]
            if n == 'Range': return t[3][0], t[3][1]
            if n == 'RangeFrom': return t[3][0], self.lenterm(text)
            if n == 'RangeTo': return self.c(0), t[3][0]
            if n == 'RangeFull': return self.c(0), self.lenterm(text)
        return None, None

    def known_facts(self, s):
        return []

    def facts(self, s, also=()):
        """linear terms known to be at least 0"""
        out = self.known_facts(s)
        for k, v in s.eq.items():
            t = self.tab[k]
            if t[0] == 'op' and t[1] in ('Lt', 'Le', 'Gt', 'Ge') and len(t) == 4:
                a, b = self.lin(t[2]), self.lin(t[3])
                o = t[1]
                if o in ('Gt', 'Ge'): a, b = b, a; o = 'Lt' if o == 'Gt' else 'Le'
                if v == 1: out.append(self.plus(self.plus(b, a, -1), ({}, -1 if o == 'Lt' else 0), 1))
                else: out.append(self.plus(self.plus(a, b, -1), ({}, 0 if o == 'Lt' else -1), 1))
            elif t[0] == 'op' and t[1] == 'Eq' and v == 1 and len(t) == 4:
                a, b = self.lin(t[2]), self.lin(t[3])
                out.append(self.plus(a, b, -1)); out.append(self.plus(b, a, -1))
            elif t[0] == 'call' and pathtail(str(t[1])) == 'is_char_boundary' and v == 1:
                out.append(self.plus(self.lin(self.lenterm(t[2])), self.lin(t[3]), -1))
            elif t[0] in ('sym', 'fld', 'call', 'fresh', 'phi') and isinstance(v, int) and v >= 0:
                out.append(({k: 1}, -v)); out.append(({k: -1}, v))
        for x in {x for k in list(s.eq) + list(also) for x in self.subs(k)}:
            t = self.tab[x]
            if t[0] == 'call' and pathtail(str(t[1])) == 'min' and len(t) == 4:
                for y in t[2:]: out.append(self.plus(self.lin(y), ({x: 1}, 0), -1))
            if t[0] == 'call' and len(t) == 4 and opname(t[1]) == 'saturating_sub':
                p, q = self.lin(t[2]), self.lin(t[3])
                out.append(self.plus(({x: 1}, 0), self.plus(p, q, -1), -1))
                one = any(self.nonneg(self.plus(p, (f[0], f[1] + 1), -1)) or self.nonneg(self.plus(p, ({}, 1), -1)) for f in [({}, 0)]) and \
                    any(self.nonneg(self.plus(self.plus(q, ({}, 1), -1), f, -1)) for f in out + [({}, 0)])
                out.append(self.plus(self.plus(p, ({x: 1}, 0), -1), ({}, 1 if one else 0), -1))
            n = self.counted(x)
            if n is not None: out += [self.plus(({x: 1}, 0), self.lin(n[0]), -1), self.plus(self.plus(self.lin(n[1]), ({x: 1}, 0), -1), ({}, -1), 1)]
            if t[0] == 'call' and opname(t[1]) == 'saturating_add' and len(t) == 4 and not self.fitting and self.both_fit(s, t[2], t[3]):
                m = self.plus(self.plus(self.lin(t[2]), self.lin(t[3]), 1), ({x: 1}, 0), -1)
                out += [m, ({k: -c for k, c in m[0].items()}, -m[1])]
            n = self.enumerated(x)
            if n is not None: out.append(self.plus(self.plus(self.lin(self.lenterm(n)), ({x: 1}, 0), -1), ({}, -1), 1))
        for text, pos in self.given:
            out.append(self.plus(self.lin(self.lenterm(text)), self.lin(pos), -1))
        for k, vs in s.ne.items():
            if 0 in vs and (self.tab[k][0] in ('sym', 'fld', 'phi', 'op') or self.tab[k][0] == 'call' and opname(self.tab[k][1]) == 'len'): out.append(({k: 1}, -1))
        return out

    def enumerated(self, x):
        """the list whose enumeration (or search) yields this index"""
        t = self.tab[x]
        if t[0] == 'fld' and t[2] == 1 and t[3] == 0:
            # position, rposition
            u = self.tab[t[1]]
            if u[0] == 'call' and opname(u[1]) in ('position', 'rposition') and len(u) > 2:
                r = self.source(u[2], set())
                if r and r[0] == 'list' and not r[2]: return r[1]
            return None
        if t[0] != 'fld' or t[2] is not None or t[3] != 0: return None
        t = self.tab[t[1]]
        if t[0] != 'fld' or t[2] != 1: return None
        t = self.tab[t[1]]
        if t[0] != 'call' or pathtail(str(t[1])) != 'next': return None
        r = self.source(t[2], set())
        return r[1] if r and r[0] == 'list' and r[2] else None

    fitting = False

    def both_fit(self, s, a, b):
        self.fitting = True
        try: return self.fits(s, a) and self.fits(s, b)
        finally: self.fitting = False

    def source(self, v, seen):
        """where an iterator began: ('list', list, enumerated?) or ('range', from, to)"""
        if v in seen: return 'again'
        seen.add(v)
        t = self.tab[v]
        if t[0] == 'phi':
            ins = [self.source(y, seen) for _, _, _, y in self.phis.get(v, ())]
            ins = {i for i in ins if i != 'again'}
            return ins.pop() if len(ins) == 1 else None
        if t[0] == 'agg' and isinstance(t[1], int) and self.ty(t[1]).get('def') == 'std::ops::Range': return 'range', t[3][0], t[3][1]
        if t[0] in ('call', 'mut') and len(t) >= 3:
            m = opname(t[1])
            a = t[2] if t[0] == 'call' else t[3]
            if m == 'iter': return ('list', a, False) if t[0] == 'call' else None
            if m in ('next', 'next_back', 'rev', 'into_iter', 'by_ref', 'enumerate', 'copied', 'cloned'):
                r = self.source(a, seen)
                if isinstance(r, tuple) and r[0] == 'list' and m == 'enumerate': return 'list', r[1], True
                return r
        return None

    def counted(self, x):
        """the ends of the range an index was taken from"""
        t = self.tab[x]
        if t[0] != 'fld' or t[2] != 1 or t[3] != 0: return None
        t = self.tab[t[1]]
        if t[0] != 'call' or pathtail(str(t[1])) not in ('next', 'next_back'): return None
        r = self.source(t[2], set())
        return r[1:] if r and r[0] == 'range' else None

    def nonneg(self, m):
        return all(n > 0 for n in m[0].values()) and m[1] >= 0

    def ge0(self, s, m, fs=None, depth=2, seen=frozenset(), rec=4):
        """is this linear term known to be at least 0?"""
        if self.nonneg(m): return True
        if fs is None: fs = self.facts(s, m[0])
        if self.from_facts(m, fs, depth): return True
        # a difference of len(I) and something that is not a boundary of I
        for k, v in s.eq.items():
            t = self.tab[k]
            if v == 0 and t[0] == 'call' and pathtail(str(t[1])) == 'is_char_boundary':
                d = self.plus(self.lin(self.lenterm(t[2])), self.lin(t[3]), -1)
                r = self.plus(m, self.plus(d, ({}, -1), 1), -1)
                if self.nonneg(r) and rec and self.ge0(s, d, fs, depth, seen, rec - 1): return True
                # and is not 0
                r = self.plus(m, self.plus(self.lin(t[3]), ({}, -1), 1), -1)
                if self.nonneg(r): return True
        # values carried by loops
        for x in [x for x in m[0] if self.tab[x][0] == 'phi' and x in self.phis]:
            key = (tuple(sorted(m[0].items())), m[1])
            if any(self.nonneg(self.plus(m, (dict(q[0]), q[1]), -1)) for q in seen): return True
            if len(seen) > 24: return False
            sn = seen | {key}
            co = m[0][x]
            rest = dict(m[0])
            del rest[x]
            ok = True
            for ev, side, st, val in self.phis[x]:
                if val == self.undef: ok = False; break
                mm = (dict(rest), m[1])
                # other values joined in the same event are taken from the same side
                sub = (dict(), m[1])
                for y, n in m[0].items():
                    yv = self.at_event(y, ev, side)
                    l = self.lin(yv)
                    for _ in range(abs(n)): sub = self.plus(sub, l, 1 if n > 0 else -1)
                if not self.ge0(st, sub, None, depth, sn, rec):
                    ok = False
                    break
            if ok and self.phis[x]: return True
        return False

    def at_event(self, y, ev, side):
        for e2, sd, st, val in self.phis.get(y, ()):
            if e2 == ev and sd == side: return val
        return y

    def from_facts(self, m, fs, depth):
        if self.nonneg(m): return True
        if depth == 0: return False
        neg = {x for x, n in m[0].items() if n < 0}
        for f in fs:
            # a fact that helps removes a negative term (or raises the constant)
            if neg and not any(f[0].get(x, 0) < 0 for x in neg): continue
            if not neg and not f[0] : continue
            r = self.plus(m, f, -1)
            if self.from_facts(r, fs, depth - 1): return True
        return False

    def le(self, s, a, b, **kw):
        return self.ge0(s, self.plus(self.lin(b), self.lin(a), -1), **kw)

    def lt(self, s, a, b):
        return self.ge0(s, self.plus(self.plus(self.lin(b), self.lin(a), -1), ({}, -1), 1))

    def same(self, a, b):
        m = self.plus(self.lin(a), self.lin(b), -1)
        return not m[0] and m[1] == 0

    # ---- boundaries
    def boundary(self, s, text, pos, seen=frozenset()):
        """is pos known to be inside text, on a character boundary?"""
        pos = self.norm(s, pos)
        if self.isc(pos) == 0: return True
        L = self.lenterm(text)
        if self.same(pos, L): return True
        l0 = self.isc(self.norm(s, L))
        if l0 is not None and self.isc(pos) == l0: return True
        for k, v in s.eq.items():
            t = self.tab[k]
            if t[0] == 'call' and pathtail(str(t[1])) == 'is_char_boundary' and v == 1 and t[2] == text and self.same(t[3], pos): return True
            if t[0] == 'op' and t[1] == 'Eq' and v == 1 and len(t) == 4 and (self.same(t[2], pos) and self.same(t[3], L) or self.same(t[3], pos) and self.same(t[2], L)): return True
        for tx, p in self.given:
            if tx == text and self.same(p, pos): return True
        # not below the length, and not above it
        if self.le(s, L, pos) and self.le(s, pos, L): return True
        # 0 known by bounds
        if self.ge0(s, self.plus(({}, 0), self.lin(pos), -1)): return True
        u = self.tab[text]
        if u[0] == 'mut':
            m = self.oper(u)
            base = u[3]
            if m in ('insert', 'insert_str') and len(u) == 6:
                if self.same(pos, u[4]): return True
                if m == 'insert_str' and self.same(pos, self.mk(('op', 'Add', u[4], self.lenterm(u[5])))): return True
                if m == 'insert':
                    for n in ('len_utf8', 'char::len_utf8'): pass
                    k = self.isc(u[5])
                    if k is not None and self.plus(self.lin(pos), self.lin(u[4]), -1) == ({}, len(chr(k).encode('utf8', 'replace'))): return True
                    d = self.plus(self.lin(pos), self.lin(u[4]), -1)
                    if d[1] == 0 and len(d[0]) == 1 and 'len_utf8' in str(self.tab[list(d[0])[0]][:3]): return True
            if m == 'replace_range' and len(u) == 6:
                a, b = self.bounds(u[4], base)
                if a is not None:
                    if self.same(pos, a): return True
                    if self.same(pos, self.mk(('op', 'Add', a, self.lenterm(u[5])))): return True
            if m in ('truncate', 'split_off') and len(u) >= 5 and self.same(pos, u[4]): return True
        # joined values: the text and the position come from the same side
        if (text, pos) in seen: return True
        if len(seen) > 24: return False
        sn = seen | {(text, pos)}
        for x in (pos, text):
            if self.tab[x][0] == 'phi' and self.phis.get(x):
                if all(val != self.undef and self.boundary(st, self.at_event(text, ev, side), self.at_event(pos, ev, side), sn)
                       for ev, side, st, val in self.phis[x]): return True
        return False

    # ---- obligations of string operations
    def event(self, s, kind, g, args, argtys, line):
        super().event(s, kind, g, args, argtys, line)
        if not self.watching(s): return
        p = g['path']
        m = STRING.match(p)
        if INDEX.search(p):
            self.need_range(s, args[0], args[1], pathtail(p), line)
        elif m:
            n = m.group(2) or m.group(4)
            if n in ('insert', 'insert_str', 'split_off', 'split_at', 'split_at_mut', 'truncate', 'remove'):
                text = self.snap(s, args[0], argtys[0])
                self.need(s, n, line, [('boundary', text, self.norm(s, args[1]))] + ([('lt', self.norm(s, args[1]), self.lenterm(text))] if n == 'remove' else []))
            elif n in ('replace_range', 'drain'): self.need_range(s, args[0], args[1], n, line)

    def watching(self, s):
        return True

    def need_range(self, s, textref, r, n, line):
        text = self.snap(s, textref, None)
        a, b = self.bounds(self.norm(s, r), text)
        if a is None:
            self.need(s, n, line, [('range', text, r)])
            return
        self.need(s, n, line, [('boundary', text, self.norm(s, a)), ('boundary', text, self.norm(s, b)), ('le', self.norm(s, a), self.norm(s, b))])

    def need(self, s, what, line, conds):
        self.obl.append((s.copy(), self.where(s).split(' > ')[-1], what, line, conds))

    def overflow(self, x):
        """is the overflow at this exit impossible?"""
        pass

    def hold(self, s, c):
        if c[0] == 'boundary': return self.boundary(s, c[1], c[2])
        if c[0] == 'le': return self.le(s, c[1], c[2])
        if c[0] == 'lt': return self.lt(s, c[1], c[2])
        return False

    def contradiction(self, s):
        """facts that cannot all be true"""
        for t, k in s.mon.get('lost') or ():
            e = s.copy()
            e.eq, e.ne = {}, {}
            if self.ge0(e, self.plus(self.lin(t), ({}, -k - 1), 1)) or self.ge0(e, self.plus(({}, k - 1), self.lin(t), -1)): return True
        for k, v in s.eq.items():
            t = self.tab[k]
            if t[0] == 'op' and t[1] in ('Lt', 'Le') and len(t) == 4:
                # refute the fact from the others
                rest = s.copy()
                rest.eq = {a: b for a, b in s.eq.items() if a != k and not (self.tab[a][0] == 'op' and self.tab[a][1] in ('Lt', 'Le', 'Eq') and len(self.tab[a]) == 4 and set(self.tab[a][2:]) == set(t[2:]))}
                d = self.plus(self.lin(t[3]), self.lin(t[2]), -1)
                if v == 0:
                    m = self.plus(d, ({}, -1 if t[1] == 'Lt' else 0), 1)
                else:
                    m = self.plus(({}, 0 if t[1] == 'Lt' else -1), d, -1)
                if self.ge0(rest, m): return True
            if t[0] == 'call' and pathtail(str(t[1])) == 'is_char_boundary' and v == 0:
                if self.isc(t[3]) == 0 or self.same(t[3], self.lenterm(t[2])): return True
            # a value that was found to be a number it cannot be
            if t[0] in ('phi', 'op') and isinstance(v, int) and (t[0] == 'phi' or t[1] in ('Add', 'Sub')):
                rest = s.copy()
                rest.eq = {a: b for a, b in s.eq.items() if a != k}
                m = self.lin(k)
                if self.ge0(rest, self.plus(m, ({}, -v - 1), 1)) or self.ge0(rest, self.plus(({}, v - 1), m, -1)): return True
            # the length of something in memory plus the length of something else (or a small number) fits a usize
            if t[0] == 'op' and t[1] == 'Ovf' and v == 1:
                u = self.tab[t[2]]
                if u[0] == 'op' and u[1] == 'Add' and self.fits(s, u[2]) and self.fits(s, u[3]): return True
            if t[0] == 'call' and pathtail(str(t[1])) == 'saturating_add' and v == 0 and any((self.isc(x) or 0) > 0 for x in t[2:]): return True
            # text that is not empty has a first character
            if t[0] == 'discr' and v == 0:
                u = self.tab[t[1]]
                if u[0] == 'call' and pathtail(str(u[1])) == 'next' and self.tab[u[2]][0] == 'call' and pathtail(str(self.tab[u[2]][1])) == 'chars':
                    w = self.tab[self.tab[u[2]][2]]
                    if w[0] == 'call' and w[1] == 'slice':
                        a, b = self.bounds(w[3], w[2])
                        if a is not None and self.lt(s, a, b): return True
        return False

    def fits(self, s, v):
        v = self.norm(s, v)
        k = self.isc(v)
        if k is not None: return k < 1 << 40
        t = self.tab[v]
        if t[0] == 'call' and pathtail(str(t[1])) == 'len': return True
        if any(self.le(s, v, self.lenterm(x)) for x in self.texts(s)): return True
        m = self.lin(v)
        return abs(m[1]) < 1 << 40 and 0 < len(m[0]) <= 4 and all(0 < n <= 4 for n in m[0].values()) and {v: 1} != m[0] and all(self.fits(s, x) for x in m[0])

    def texts(self, s):
        out = {t for t, p in self.given}
        for k in s.eq:
            for x in self.tab[k][2:]:
                if isinstance(x, int) and x >= 0 and self.tab[x][0] == 'call' and pathtail(str(self.tab[x][1])) == 'len': out.add(self.tab[x][2])
        return out


# ---------------------------------------------------------------- texts as pieces
class Pieces:
    """mixin: a text as the list of what it is made of: ('part', text, from, to) | ('lit', string) | ('char', c) | ('all', text)"""

    def parts(self, s, v, depth=12):
        v = self.norm(s, v)
        t = self.tab[v]
        if t[0] == 's': return [('lit', t[1])] if t[1] else []
        if depth:
            if t[0] == 'mut':
                m, base = self.oper(t), t[3]
                r = None
                if m in ('insert', 'insert_str'):
                    r = self.cut(s, self.parts(s, base, depth - 1), t[4])
                    new = self.parts(s, t[5], depth - 1) if m == 'insert_str' else [('char', t[5])]
                    if r: return self.tidy(s, r[0] + new + r[1])
                if m in ('replace_range', 'drain'):
                    a, b = self.bounds(self.norm(s, t[4]), base)
                    if a is not None:
                        p = self.parts(s, base, depth - 1)
                        x, y = self.cut(s, p, a), self.cut(s, p, b)
                        if x and y: return self.tidy(s, x[0] + (self.parts(s, t[5], depth - 1) if m == 'replace_range' else []) + y[1])
                if m in ('truncate', 'split_off'):
                    r = self.cut(s, self.parts(s, base, depth - 1), t[4])
                    if r: return self.tidy(s, r[0])
                if m == 'push_str': return self.tidy(s, self.parts(s, base, depth - 1) + self.parts(s, t[4], depth - 1))
                if m == 'push': return self.tidy(s, self.parts(s, base, depth - 1) + [('char', t[4])])
            if t[0] == 'call':
                m = opname(t[1])
                if m == 'slice' and len(t) == 4:
                    a, b = self.bounds(self.norm(s, t[3]), t[2])
                    if a is not None:
                        p = self.parts(s, t[2], depth - 1)
                        x, y = self.cut(s, p, b), self.cut(s, p, a)
                        if x and y:
                            z = self.cut(s, x[0], a)
                            if z: return self.tidy(s, z[1])
                if m == 'split_off':
                    r = self.cut(s, self.parts(s, t[2], depth - 1), t[3])
                    if r: return self.tidy(s, r[1])
                if m == 'collect' and len(t) == 3 and self.tab[t[2]][0] == 'call' and opname(self.tab[t[2]][1]) == 'drain' and len(self.tab[t[2]]) == 4:
                    # what was drained, as a text again
                    u = self.tab[t[2]]
                    return self.parts(s, self.mk(('call', 'slice', u[2], u[3])), depth - 1)
        L = self.lenterm(v)
        if self.isc(self.norm(s, L)) == 0: return []
        return [('part', v, self.c(0), L)]

    def size(self, p):
        if p[0] == 'part': return self.plus(self.lin(p[3]), self.lin(p[2]), -1)
        if p[0] == 'lit': return {}, len(p[1].encode())
        k = self.isc(p[1])
        return ({}, len(chr(k).encode('utf8', 'replace'))) if k is not None else ({self.mk(('call', 'len_utf8', p[1])): 1}, 0)

    def cut(self, s, ps, pos):
        """(pieces before, pieces after) a position, or None when it is not known where it falls"""
        pos = self.norm(s, pos)
        at = ({}, 0)
        here = self.lin(pos)
        for i, p in enumerate(ps):
            if self.plus(here, at, -1) == ({}, 0): return ps[:i], ps[i:]
            end = self.plus(at, self.size(p), 1)
            if p[0] == 'part' and self.ge0(s, self.plus(here, at, -1)) and self.ge0(s, self.plus(end, here, -1)):
                # where in the part: only exact when what precedes is a plain position
                off = self.plus(here, at, -1)
                x = pos if at == ({}, 0) and self.isc(p[2]) == 0 else None
                if x is None:
                    if self.isc(p[2]) == 0: x = self.unlin(off)
                    elif at == ({}, 0): x = self.unlin(self.plus(self.lin(p[2]), off, 1))
                if x is None: return None
                return ps[:i] + [(p[0], p[1], p[2], x)], [(p[0], p[1], x, p[3])] + ps[i + 1:]
            at = end
        if self.plus(here, at, -1) == ({}, 0): return ps, []
        if self.ge0(s, self.plus(here, at, -1)) and self.ge0(s, self.plus(at, here, -1)): return ps, []
        return None

    def unlin(self, m):
        r = None
        for x, n in sorted(m[0].items()):
            if n != 1: return None
            r = x if r is None else self.mk(('op', 'Add', r, x))
        if r is None: return self.c(m[1]) if m[1] >= 0 else None
        if m[1] > 0: r = self.mk(('op', 'Add', r, self.c(m[1])))
        if m[1] < 0: r = self.mk(('op', 'Sub', r, self.c(-m[1])))
        return r

    def tidy(self, s, ps):
        out = []
        for p in ps:
            if p[0] == 'part' and self.ge0(s, self.plus(self.lin(p[2]), self.lin(p[3]), -1)): continue
            if p[0] == 'lit' and not p[1]: continue
            if out and p[0] == 'part' and out[-1][0] == 'part' and out[-1][1] == p[1] and self.same(out[-1][3], p[2]):
                out[-1] = ('part', p[1], out[-1][2], p[3])
            else: out.append(p)
        return out

    def same_text(self, s, a, b):
        a, b = self.tidy(s, a), self.tidy(s, b)
        if len(a) != len(b): return False
        for p, q in zip(a, b):
            if p[0] != q[0]:
                return False
            if p[0] == 'part':
                if p[1] != q[1] or not self.equal(s, p[2], q[2]) or not self.equal(s, p[3], q[3]): return False
            elif p[1] != q[1]: return False
        return True

    def equal(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        return self.same(a, b) or (self.le(s, a, b) and self.le(s, b, a))

    # ---- scans: pos is reached from base by steps of one that only pass positions where `over` holds
    def scan(self, s, pos, base, step, over, seen=frozenset()):
        if self.scan1(s, pos, base, step, over, seen): return True
        n = self.norm(s, pos)
        return n != pos and self.scan1(s, n, base, step, over, seen)

    def scan1(self, s, pos, base, step, over, seen):
        d = self.plus(self.lin(pos), self.lin(base), -1)
        if d == ({}, step): return True
        if pos in seen: return True
        t = self.tab[pos]
        if t[0] == 'phi' and self.phis.get(pos):
            return all(v != self.undef and self.scan(st, v, base, step, over, seen | {pos}) for ev, sd, st, v in self.phis[pos])
        # one step from a position that was skipped
        q = None
        l = self.lin(pos)
        if len(l[0]) == 1 and list(l[0].values()) == [1]: q = self.unlin((l[0], l[1] - step))
        if not l[0] and l[1] - step >= 0: q = self.c(l[1] - step)
        if q is None: return False
        for c in self.spellings(s, q):
            if over(s, c) and self.scan(s, c, base, step, over, seen): return True
        return False

    def spellings(self, s, q):
        """terms for the same position that occur in the facts"""
        out = [q]
        for k in s.eq:
            for x in self.subs(k):
                if self.tab[x][0] in ('op', 'phi', 'fld', 'c') and x not in out and self.same(x, q): out.append(x)
        return out

    def spell_end(self, s, L):
        """other terms known to equal L"""
        out = []
        for k, v in s.eq.items():
            for x in self.subs(k):
                if self.tab[x][0] in ('op', 'phi') and x not in out and self.equal(s, x, L): out.append(x)
        return out

    def skipped(self, text):
        """over: no character starts there, or one that is not a column wide"""
        def over(s, q):
            for k, v in s.eq.items():
                t = self.tab[k]
                if t[0] == 'call' and pathtail(str(t[1])) == 'is_char_boundary' and v == 0 and t[2] == text and self.same(t[3], q): return True
                if self.zero_width(k, v) and any(self.char_at(text, q, x) for x in self.subs(k)): return True
            return False
        return over

    def zero_width(self, k, v):
        t = self.tab[k]
        if t[0] == 'discr' and v == 0: return 'width' in str(self.tab[t[1]][1])
        if t[0] == 'op' and t[1] == 'Eq' and v == 1: return any('width' in str(self.tab[x][1]) for x in self.subs(k) if self.tab[x][0] == 'call') and any(self.isc(x) == 0 for x in t[2:])
        if t[0] == 'fld' and v == 0: return any('width' in str(self.tab[x][1]) for x in self.subs(k) if self.tab[x][0] == 'call')
        if t[0] == 'call' and v == 0 and 'width' in str(t[1]): return True
        return False

    def char_at(self, text, q, x):
        t = self.tab[x]
        if t[0] == 'call' and t[1] == 'slice' and t[2] == text:
            a, b = self.bounds(t[3], text)
            return a is not None and self.same(a, q)
        return False


class Edit(Pieces, Prover):
    """handling one request, with the cursor inside the text to begin with"""

    def __init__(self, d, *a, **kw):
        super().__init__(d, *a, **kw)
        self.prover_init()

    def on_start(self, s):
        super().on_start(s)
        self.I0, self.C0, self.K0 = self.norm(s, self.f0('input')), self.norm(s, self.f0('input_cursor')), self.norm(s, self.f0('clipboard'))
        self.given = [(self.I0, self.C0)]

    def watching(self, s):
        return 'scr' in s.mon

    def about(self, x, roles, last=3):
        """do the last things learnt on this path concern one of these fields?"""
        fs = {self.f0(r) for r in roles if self.has(r)}
        return any(fs & set(self.subs(k)) for k in list(x.eq)[-last:])

    def about_history(self, x):
        return self.about(x, ('history', 'cur_history_index', 'orphaned_new_input', 'history_original_line'))

    def completor_bug(self, x):
        """the panic that tells the author of a completor about a cursor outside the completed line"""
        if 'panic_fmt' not in str(x.exit[1]): return False
        k = list(x.eq)[-1:]
        return bool(k) and x.eq[k[0]] == 0 and 'is_char_boundary' in str(self.tab[k[0]][1]) and any(self.tab[y][0] == 'fresh' and 'complete' in str(self.tab[y][2]) for y in self.subs(k[0]))


class EditReq(Edit, Disp): pass


class EditKey(Edit, DispKey): pass


def edit_tasks(d):
    return [(n, EditKey if c is DispKey else EditReq, kw) for n, c, kw in tasks(d)]
