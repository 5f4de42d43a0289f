"""Typestate analysis over MIR with an abstract file system. Loading is interpreted first (which names it reads, in which
order, and what it makes of a missing file, an empty one and an error); the handler it installs is then interpreted from every
starting situation of those files, each file operation succeeding or failing: after every single operation a complete
copy must be under a name that loading uses, a handler that returns success must have put a complete new copy there, a failed create,
write, flush or rename must be returned, and a file that does not exist yet must not make saving fail. A copy is complete when every line of
the list and its line break were written in order without error and, through a buffer, flushed. Reading must leave
the list alone on an error. When the handler is called is decided on the interpreted methods: on adding a line exactly
when the count reaches the interval, and on drop exactly when lines are unsaved."""
from hist import *
from common import *

BUF = r'std::io::(buffered::|bufwriter::|LineWriter|)?\w*(BufWriter|LineWriter)'


class Files(Hist):
    """file operations on abstract files"""
    budget = 200
    entry_budget = 200

    def __init__(self, d, fid):
        super().__init__(d, fid)
        self.names = {}
        self.path = None
        self.broken = []

    def notfound(self):
        for t in self.d.types:
            if t and t.get('k') == 'adt' and t['def'] == 'std::io::ErrorKind' and t['v']:
                for v in t['v']:
                    if v['name'].endswith('NotFound'): return v['d']
        return 0

    # ---- names
    def name(self, v):
        """a short name: '' for the history file itself, a suffix for a sibling made from its name"""
        v0 = v
        t = self.tab[v]
        suf = ''
        if t[0] == 'mut' and opname(t[1]) in ('set_file_name',) and len(t) >= 5:
            base, f = self.name(t[3]), self.fname(t[4])
            if base is not None and f is not None: return f
        if t[0] == 'call' and opname(t[1]) in ('with_file_name',) and len(t) >= 4:
            f = self.fname(t[3])
            if f is not None: return f
        if v == self.path: return ''
        k = self.names.get(v)
        if k is None: k = self.names[v] = '?%d' % (len(self.names) + 1)
        return k

    def fname(self, v):
        """suffix appended to the history file's own name"""
        t = self.tab[v]
        if t[0] == 'mut' and opname(t[1]) == 'push' and len(t) >= 5:
            b = self.fname(t[3])
            x = self.tab[t[4]]
            return None if b is None or x[0] != 's' else b + x[1]
        if self.path is not None and any(self.tab[y][0] == 'call' and opname(self.tab[y][1]) == 'file_name' and self.tab[y][2] == self.path for y in self.subs(v)):
            if t[0] in ('deref', 'fld') : return ''
            if t[0] == 'call' and opname(t[1]) in ('to_owned', 'into', 'to_os_string', 'from'): return self.fname(t[2])
        return None

    def handle(self, s, v):
        """the file a writer leads to: (name, buffered)"""
        v = self.norm(s, v)
        for _ in range(6):
            t = self.tab[v]
            if t[0] in ('ref', 'kref'): v = self.content(s, v); continue
            if t[0] == 'bw':
                h = self.handle(s, t[1])
                return None if h is None else (h[0], True)
            if t[0] == 'file': return (t[1], False)
            return None
        return None

    def files(self, s): return dict(s.mon['fs'])

    def setfs(self, s, **kw): pass

    def put(self, s, name, what):
        fs = self.files(s)
        fs[name] = what
        s.mon = dict(s.mon, fs=tuple(sorted(fs.items())))
        self.after(s)

    def after(self, s): pass

    def fail(self, s, what):
        s.mon = dict(s.mon, err=s.mon.get('err') or what)

    def two(self, s, ok, err, okv=None):
        """an operation that may fail"""
        ty = self.cur_dest_ty
        out = []
        if ok is not None:
            a = s.copy()
            v = ok(a)
            out.append((a, self.agg(ty, 0, (self.unit if v is None else v,))))
        if err is not None:
            b = s.copy()
            was = b.mon['err']
            b.mon = dict(b.mon, err=None)
            err(b)
            what = 'ioerror' if b.mon['err'] else 'missing'
            b.mon = dict(b.mon, err=was or b.mon['err'])
            out.append((b, self.agg(ty, 1, (self.sym(what),))))
        return out

    def model(self, s, g, args, argtys, dest, target, line):
        if 'fs' in s.mon:
            r = self.file_op(s, g, args, argtys, dest, target, line)
            if r is not None: return r
        return super().model(s, g, args, argtys, dest, target, line)

    def file_op(self, s, g, args, argtys, dest, target, line):
        p = g['path']
        fs = self.files(s)
        if re.search(r'std::io::(error::)?Error::kind$', p):
            v = self.content(s, args[0])
            kt = self.cur_dest_ty
            if v == self.sym('missing'): return self.agg(kt, self.notfound(), ())
            k = self.norm(s, self.call('kind', v))
            self.assume_ne(s, self.discr(s, k), self.notfound())
            return k
        nm = lambda i: self.name(self.snap(s, args[i], argtys[i]))
        if re.search(r'std::fs::File::create$', p):
            n = nm(0)

            def ok(a):
                self.put(a, n, 'empty')
                a.mon = dict(a.mon, w=tuple(sorted({**dict(a.mon['w']), n: 'between'}.items())))
                return self.mk(('file', n))
            return self.two(s, ok, lambda b: self.fail(b, 'create'))
        if re.search(r'std::fs::rename$', p):
            a, b = nm(0), nm(1)

            def ok(x):
                f = self.files(x)
                f[b], f[a] = f.get(a, 'junk'), 'absent'
                x.mon = dict(x.mon, fs=tuple(sorted(f.items())))
                self.after(x)
            if fs.get(a) == 'absent': return self.two(s, None, lambda x: None)
            return self.two(s, ok, lambda x: self.fail(x, 'rename'))
        if re.search(r'std::fs::remove_file$', p):
            a = nm(0)
            return self.two(s, (lambda x: self.put(x, a, 'absent')) if fs.get(a) != 'absent' else None, lambda x: None)
        if re.search(r'std::fs::(copy|hard_link)$', p):
            a, b = nm(0), nm(1)

            def ok(x):
                if p.endswith('copy'): self.put(x, b, 'partial')
                self.put(x, b, self.files(x).get(a, 'junk'))
                return self.fresh(x, 'size') if p.endswith('copy') else None

            def bad(x):
                if p.endswith('copy') and fs.get(a) != 'absent': self.put(x, b, 'partial')
                if fs.get(a) != 'absent': self.fail(x, 'copy')
            return self.two(s, ok if fs.get(a) != 'absent' else None, bad)
        if re.search(r'std::fs::|OpenOptions', p) and not re.search(r'sync_(all|data)$|set_(len|permissions|modified|times)|metadata|exists', p):
            self.broken.append('a file operation that is not understood: %s' % p)
            return None
        if re.search(r'std::path::Path::(try_)?exists$', p):
            v = fs.get(self.name(self.snap(s, args[0], argtys[0])))
            return self.c(0 if v == 'absent' else 1) if v is not None and not p.endswith('try_exists') else None
        if re.search(r'::(BufWriter|LineWriter)(::)?<W>::(new|with_capacity)$', p):
            return self.mk(('bw', args[-1]))
        h = self.handle(s, args[0]) if args else None
        if re.search(r' as std::iter::Iterator>::next$', p):
            l = self.deref(s, args[0])
            t = self.tab[self.read(s, l)]
            if t[0] == 'liter':
                ty = self.cur_dest_ty
                a, b = s.copy(), s.copy()
                self.step(a, 'line')
                self.step(b, 'end')
                a.store[('G', 'elem')] = self.sym('ELEM')
                return [(a, self.agg(ty, 1, (self.ref(('G', 'elem')),))), (b, self.agg(ty, 0, ()))]
        if re.search(r'IntoIterator\b.*::into_iter$', p) and self.tab[args[0]][0] == 'ref' and self.is_lines(s, args[0]):
            return self.mk(('liter', self.lst(s)))
        if re.search(r'Iterator>?::(try_for_each|for_each)$', p): return self.each(s, args, argtys)
        if re.search(r'Iterator for std::ops::Range<A>>::next$', p):
            # counting through the lines by index
            l = self.deref(s, args[0])
            v = self.read(s, l)
            a, b = self.norm(s, self.proj(s, v, (None, 0))), self.norm(s, self.proj(s, v, (None, 1)))
            if b == self.gh(s, 'n') and self.isc(a) == 0:
                ty = self.cur_dest_ty
                x, y = s.copy(), s.copy()
                self.step(x, 'line')
                self.step(y, 'end')
                return [(x, self.agg(ty, 1, (self.sym('AT'),))), (y, self.agg(ty, 0, ()))]
        if re.search(r'std::ops::Index<.*::index$', p) and self.is_lines(s, args[0]) and args[1] == self.sym('AT'):
            s.store[('G', 'elem')] = self.sym('ELEM')
            return self.ref(('G', 'elem'))
        if h is None: return None
        m = opname(p)
        if m in ('write_all', 'write_fmt'):
            v = self.snap(s, args[1], argtys[1])
            what = self.kind(s, v)

            def ok(a): self.wrote(a, h, what)

            def bad(b):
                self.wrote(b, h, ['?'])
                self.fail(b, 'write')
            return self.two(s, ok, bad)
        if m == 'flush':
            def ok(a):
                if dict(a.mon['w']).get(h[0]) == 'all': self.put(a, h[0], 'new')
            return self.two(s, ok, lambda b: self.fail(b, 'flush'))
        if m in ('sync_all', 'sync_data'): return self.two(s, lambda a: None, lambda b: self.fail(b, 'sync'))
        if m == 'into_inner':
            def ok(a):
                if dict(a.mon['w']).get(h[0]) == 'all': self.put(a, h[0], 'new')
                return self.mk(('file', h[0]))
            return self.two(s, ok, lambda b: self.fail(b, 'flush'))
        if m in ('by_ref', 'get_mut', 'get_ref', 'deref', 'deref_mut', 'borrow_mut'): return args[0]
        if m in ('write', 'write_vectored'): self.broken.append('%s may write only part of what it is given' % m)
        return None

    def each(self, s, args, argtys):
        """a closure run on every line in order"""
        v = args[0] if self.tab[args[0]][0] == 'liter' else self.content(s, args[0]) if self.tab[args[0]][0] == 'ref' else args[0]
        if self.tab[v][0] != 'liter': return None
        ty, fv = self.cur_dest_ty, args[1]
        tries = self.ty(ty).get('def') == 'std::result::Result'
        fid, pre = closure_body(self, fv)
        if fid is None: return None
        f = self.d.fns[fid]
        todo, seen, out = [s], set(), []
        while todo:
            t = todo.pop()
            k = (t.mon['w'], t.mon['fs'], t.mon['err'])
            if k in seen: continue
            seen.add(k)
            a, b = t.copy(), t.copy()
            self.step(b, 'end')
            out.append((b, self.agg(ty, 0, (self.unit,)) if tries else self.unit))
            self.step(a, 'line')
            a.store[('G', 'elem')] = self.sym('ELEM')
            me = fv
            if pre is None and self.ty(f['locals'][1])['k'] == 'ref' and self.tab[fv][0] != 'ref':
                a.store[('G', 'clos')] = fv
                me = self.ref(('G', 'clos'))
            for y in self.sub(a, fid, ([me] if pre is None else []) + [self.ref(('G', 'elem'))]):
                if y.exit[0] != 'return':
                    self.broken.append('writing a line may end otherwise than by returning: %s' % (y.exit[:2],))
                    continue
                r = self.norm(y, y.user['ret'])
                n = y.copy()
                n.store = {**{k: o for k, o in s.store.items() if k not in n.store}, **n.store}
                n.stack, n.tags, n.exit, n.user = s.stack, s.tags, None, dict(s.user)
                if tries:
                    for want in (0, 1):
                        m = n.copy()
                        try: self.assume(m, self.discr(m, r), want)
                        except Infeasible: continue
                        if want: out.append((m, self.agg(ty, 1, (self.proj(m, r, (1, 0)),))))
                        else: todo.append(m)
                else: todo.append(n)
        return out

    def kind(self, s, v):
        """what is written, as a list of 'line' | 'nl' | '?'"""
        t = self.tab[v]
        if v == self.sym('ELEM'): return ['line']
        if t[0] == 's': return ['nl'] if t[1] == '\n' else ['?']
        if t[0] == 'agg' and t[1] == 'arr': return ['nl'] if [self.isc(x) for x in t[3]] == [10] else ['?']
        subs = self.subs(v)
        if self.sym('ELEM') in subs:
            txt = self.pp(v, 12)
            if re.search(r'fmtarg:new_display', txt) and txt.count('ELEM') == 1 and self.template(v) == '@\n': return ['line', 'nl']
            if txt.count('ELEM') == 1 and self.concat(s, v): return ['line', 'nl']
        return ['?']

    def template(self, v):
        """the text of a formatting call with @ for each argument"""
        for y in self.subs(v):
            t = self.tab[y]
            if t[0] == 'call' and 'Arguments' in str(t[1]):
                return self.pieces(t[2])
        return None

    def pieces(self, v):
        t = self.tab[v]
        if t[0] == 'kref': return self.pieces(t[1])
        if t[0] == 'agg' and t[1] == 'arr':
            xs = [self.isc(x) for x in t[3]]
            if None in xs: return None
            # a byte is a length of literal text to follow, or (from 0xC0 on) an argument; 0 ends it
            out, i = '', 0
            while i < len(xs):
                b = xs[i]
                if b == 0: break
                if b >= 0xC0: out += '@'; i += 1
                elif b < 0x80: out += bytes(xs[i + 1:i + 1 + b]).decode('utf8', 'replace'); i += 1 + b
                else: return None
            return out
        if t[0] == 's':
            xs = t[1].encode('utf8', 'surrogateescape') if not isinstance(t[1], bytes) else t[1]
            return None
        return None

    def concat(self, s, v):
        t = self.tab[v]
        if t[0] == 'call' and opname(t[1]) == 'add' and len(t) == 4: return t[2] == self.sym('ELEM') and self.tab[t[3]] == ('s', '\n')
        if t[0] == 'mut' and opname(t[1]) in ('push', 'push_str') and len(t) >= 5:
            return t[3] == self.sym('ELEM') and (self.tab[t[4]] == ('s', '\n') or self.isc(t[4]) == 10)
        return False

    def step(self, s, what):
        """the iteration over the lines goes on, or ends"""
        w = dict(s.mon['w'])
        for n in w:
            if what == 'line': w[n] = 'line' if w[n] == 'between' else 'bad'
            else: w[n] = 'all' if w[n] == 'between' else 'bad'
        s.mon = dict(s.mon, w=tuple(sorted(w.items())))
        if what == 'end':
            for n in w:
                if w[n] == 'all' and s.mon.get('direct') and self.files(s).get(n) in ('partial', 'empty'): self.put(s, n, 'new')

    def wrote(self, s, h, what):
        w = dict(s.mon['w'])
        for x in what:
            st = w.get(h[0], 'bad')
            w[h[0]] = {('line', 'line'): 'nl', ('nl', 'nl'): 'between'}.get((st, x), 'bad')
        s.mon = dict(s.mon, w=tuple(sorted(w.items())), direct=0 if h[1] else 1)
        self.put(s, h[0], 'partial')


class Loading(Files):
    """from_file: which files are read, with what outcome"""

    def go(self):
        s = mkstate()
        s.mon = {'reads': (), 'pushed': 0, 'cb': 0, 'res': None, 'all': 0}
        self.start(s, self.fid, [self.sym('PATH')])
        return self.explore([s])

    def hook_call(self, s, g, args, argtys, dest, target, line):
        if re.search(r'(^|::)History::read_history_from$', g['path']):
            v = self.snap(s, args[1], argtys[1])
            if self.path is None: self.path = v
            n = self.name(v)
            ty = self.cur_dest_ty
            out = []
            i = len(s.mon['reads'])
            for k in ('empty', 'some', 'error'):
                a = s.copy()
                a.mon = dict(a.mon, reads=a.mon['reads'] + ((n, k),))
                if k == 'error': r = self.agg(ty, 1, (self.sym('E%d' % i),))
                else:
                    r = self.agg(ty, 0, (self.c0 if k == 'empty' else self.sym('COUNT'),))
                    if k == 'some': self.assume_ne(a, self.sym('COUNT'), 0)
                out.append((a, r))
            return (self.ret_many(out, dest, target),)
        return super(Files, self).hook_call(s, g, args, argtys, dest, target, line)

    def missing(self, x, i):
        """is the i-th error that the file does not exist? True, False or None"""
        e = self.sym('E%d' % i)
        for k, v in x.eq.items():
            t = self.tab[k]
            if t[0] == 'op' and t[1] == 'Eq' and e in self.subs(k): return v == 1
            if t[0] == 'discr' and e in self.subs(k): return v == self.notfound()
        for k, vs in x.ne.items():
            if e in self.subs(k): return False
        return None


class Saving(Files):
    """the installed handler, on given files"""

    def after(self, s):
        if s.mon.get('lost'+'copy'): return
        if not self.safe(self.files(s), s.mon['have']):
            s.mon = dict(s.mon, lostcopy=self.last_op or 'an operation')

    last_op = None

    def file_op(self, s, g, *r):
        self.last_op = opname(g['path'])
        return super().file_op(s, g, *r)

    def safe(self, fs, have):
        main, back = fs.get(self.MAIN), fs.get(self.BACK, 'absent') if self.BACK is not None else 'absent'
        if main in ('old', 'new'): return True
        if main in ('absent', 'empty') and back in ('old', 'new'): return True
        return not have

    def run_from(self, x, clos, fs, have):
        s = x.copy()
        s.stack, s.tags = (), {}
        s.user = {}
        s.store[self.obj] = self.H
        self.setg(s, n=self.n0, lo=self.c0, hi=self.n0)
        s.mon = dict(fs=tuple(sorted(fs.items())), w=(), err=None, have=have, lostcopy=None, direct=0, pushed=1, cb=0, res=None, all=0)
        fid, pre = closure_body(self, self.content(s, clos) if self.tab[clos][0] == 'ref' else clos)
        me = clos
        a = [me, self.ref(self.obj)]
        self.start(s, fid, a, name=('save', str(fs)))
        self.exits = []
        self.explore([s])
        return self.exits


def check(ctx):
    for feat in ('default',) if ctx.tier == 'quick' else ('default', 'all', 'noglobal'):
        d = ctx.dump(feat)
        saving(ctx, feat, d)
        reading(ctx, feat, d)
        when(ctx, feat, d)


def saving(ctx, feat, d):
    f = [f for f in d.fns.values() if re.search(r'(^|::)History::from_file$', f['path']) and 'blocks' in f]
    if not f: return ctx.bad('anchor:from_file', 'History::from_file is missing')
    e = Loading(d, f[0]['id'])
    e.go()
    ctx.engine_stats(feat + ' loading', e)
    orders, clos = set(), {}
    bad = lambda key, msg: ctx.bad('%s:load:%s' % (feat, key), msg)
    for x in e.exits:
        if x.exit[0] == 'panic': bad('panic', 'loading may panic: %s' % (x.exit[1][:3],)); continue
        if x.exit[0] != 'return': bad('cut', 'analysis cut short: %s' % (x.exit,)); continue
        rd, r = x.mon['reads'], e.norm(x, x.user['ret'])
        okd = e.isc(e.norm(x, e.discr(x, r)))
        if not rd:
            if okd != 1: bad('nothing read', 'a history may be returned although nothing was read')
            continue
        orders.add(tuple(n for n, _ in rd))
        first = rd[0][1]
        miss = e.missing(x, 0) if first == 'error' else None
        want_more = first == 'empty' or first == 'error' and miss
        if first == 'some':
            if okd != 0 or len(rd) > 1: bad('good file', 'a file with lines in it is %s' % ('not what is loaded' if okd == 0 else 'refused'))
            else: ctx.ok(feat + ':load:good file')
        elif first == 'error' and not miss:
            if okd == 0: bad('error dropped', 'an error reading the history file is not reported')
            else: ctx.ok(feat + ':load:error')
        elif len(rd) < 2:
            # no other copy is looked at: only fine when saving never relies on one
            ctx.ok(feat + ':load:no second copy')
        else:
            second = rd[1][1]
            if second == 'error':
                m2 = e.missing(x, 1)
                if m2 and okd != 0: bad('missing backup', 'a missing backup makes loading fail')
                elif m2 is None and okd == 0: bad('backup error dropped', 'an error reading the backup is not reported')
                elif m2 is False and okd == 0: bad('backup error dropped', 'an error reading the backup is not reported')
                else: ctx.ok(feat + ':load:backup error')
            elif okd != 0: bad('backup refused', 'a backup that was read is not what is returned')
            else: ctx.ok(feat + ':load:backup')
        if okd == 0:
            hv = e.norm(x, e.proj(x, e.proj(x, r, (0, 0)), (None, e.R.idx['handler'])))
            if e.isc(e.discr(x, hv)) != 1: bad('no handler', 'a file-backed history is returned without a handler that saves it')
            else:
                c = e.norm(x, e.proj(x, hv, (1, 0)))
                cv = e.content(x, c) if e.tab[c][0] == 'ref' else c
                clos.setdefault(cv, (x, c))
    ctx.floor(feat + '.load outcomes', len(e.exits), 4)
    if not clos: return bad('handlers', 'no handler that saves is installed')
    main = {o[0] for o in orders}
    backs = {o[1] for o in orders if len(o) > 1}
    if len(main) != 1 or len(backs) > 1 or any(len(o) > 2 for o in orders): return bad('order', 'loading does not use one file and one backup: %s' % sorted(orders))
    MAIN, BACK = main.pop(), (backs.pop() if backs else None)
    n = 0
    for cv, (x, c) in clos.items():
        s = Saving(d, f[0]['id'])
        s.__dict__.update({k: v for k, v in e.__dict__.items() if k not in ('exits',)})
        s.MAIN, s.BACK = MAIN, BACK
        starts = [('both fresh', {MAIN: 'absent'}, 0), ('saved before', {MAIN: 'old'}, 1)]
        if BACK is not None:
            starts = [(t, {**fs, BACK: 'absent'}, h) for t, fs, h in starts] + [('old backup about', {MAIN: 'old', BACK: 'stale'}, 1), ('only the backup', {MAIN: 'absent', BACK: 'old'}, 1), ('cut short before', {MAIN: 'empty', BACK: 'old'}, 1)]
        done = 0
        for title, fs, have in starts:
            for y in s.run_from(x, c, fs, have):
                n += 1
                if y.exit[0] == 'panic':
                    if not s.contradiction(y): ctx.bad('%s:save:panic:%s' % (feat, y.exit[1][:2]), 'saving may panic: %s' % (y.exit[1][:3],))
                    continue
                if y.exit[0] != 'return': ctx.bad('%s:save:cut' % feat, 'analysis cut short: %s' % (y.exit,)); continue
                m = y.mon
                okd = s.isc(s.norm(y, s.discr(y, y.user['ret'])))
                ctx.ob(not m['lostcopy'], '%s:save:copy kept:%s' % (feat, m['lostcopy']), 'a complete copy is always there (%s)' % title, 'after %s no complete copy is under a name that loading uses (%s)' % (m['lostcopy'], title))
                if okd == 0:
                    done += 1
                    ctx.ob(not m['err'], '%s:save:dropped:%s' % (feat, m['err']), 'errors are returned', 'a failed %s is not reported' % m['err'])
                    if not m['err']: ctx.ob(dict(m['fs']).get(MAIN) == 'new', '%s:save:complete' % feat, 'success means a complete new copy is in place (%s)' % title, 'saving reports success although the file is %s (%s)' % (dict(m['fs']).get(MAIN), title))
                elif okd == 1: ctx.ob(bool(m['err']), '%s:save:needless' % feat, 'only a real error is reported (%s)' % title, 'saving fails although nothing but a file that does not exist yet is wrong (%s)' % title)
                else: ctx.bad('%s:save:result' % feat, 'what saving returns is not known on some path')
        for b in sorted(set(s.broken)): ctx.bad('%s:save:unknown:%s' % (feat, b), b)
        ctx.engine_stats(feat + ' saving', s)
        ctx.floor(feat + '.ways saving succeeds', done, 1)
    ctx.floor(feat + '.save outcomes', n, 10)


class Reading(Hist):
    """every operation on the file may fail"""

    def std_model(self, s, g, args, argtys, dest, target, line):
        ty = self.cur_dest_ty
        t = self.ty(ty) if ty is not None else {}
        opt = t.get('def') == 'std::option::Option' and t['v'][1]['f']
        rt = self.ty(t['v'][1]['f'][0][1]) if opt else t
        if rt.get('def') == 'std::result::Result' and self.ty(rt['v'][1]['f'][0][1]).get('def') == 'std::io::Error' and re.search(r'std::(fs|io)', g['path'] + g['name']):
            self.havoc_muts(s, g, args, argtys, (), True)
            rty = t['v'][1]['f'][0][1] if opt else ty
            a, b = s.copy(), s.copy()
            b.mon = dict(b.mon, readerr=1)
            va, vb = self.agg(rty, 0, (self.fresh(a, 'read'),)), self.agg(rty, 1, (self.sym('ioerror'),))
            out = [(a, va), (b, vb)]
            if opt: out = [(x, self.agg(ty, 1, (y,))) for x, y in out] + [(s, self.agg(ty, 0, ()))]
            return out
        return super().std_model(s, g, args, argtys, dest, target, line)


def reading(ctx, feat, d):
    """reading replaces the list only when all of it was read"""
    n = 0
    for f in d.fns.values():
        if not re.search(r'(^|::)History::read_history_from$', f['path']) or 'blocks' not in f: continue
        e = Reading(d, f['id'])
        e.LINE = e.sym('PATH')
        e.go()
        ctx.engine_stats(feat + ' reading', e)
        for x in e.exits:
            if x.exit[0] != 'return': continue
            okd = e.isc(e.norm(x, e.discr(x, x.user['ret'])))
            n += 1
            kept = e.lst(x) == e.norm(x, e.h0('lines'))
            if x.mon.get('readerr'): ctx.ob(okd == 1, '%s:read:error' % feat, 'an error while reading is returned', 'an error while reading the file is not returned')
            if okd == 1: ctx.ob(kept, '%s:read:partial' % feat, 'an error leaves the list alone', 'reading may fail with part of the list replaced')
            elif okd == 0: ctx.ob(not kept, '%s:read:nothing' % feat, 'success replaces the list', 'reading succeeds without replacing the list')
    ctx.floor(feat + '.read outcomes', n, 2)


def when(ctx, feat, d):
    """when the handler runs"""
    f = find_method(d, 'add_line')
    e = Hist(d, f['id'])
    e.go()
    for s, cond, rule, msg in e.oblig:
        if rule in ('handler', 'saved after'):
            if cond() or e.contradiction(s): ctx.ok('%s:%s' % (feat, rule), 'add_line')
            else: ctx.bad('%s:add_line:%s' % (feat, rule), msg)
    calls = 0
    for x in e.exits:
        if x.exit[0] != 'return' or e.contradiction(x): continue
        m = x.mon
        iv = e.isc(e.norm(x, e.discr(x, e.h0('interval'))))
        hd = e.isc(e.norm(x, e.discr(x, e.h0('handler'))))
        if m['cb'] > 1: ctx.bad(feat + ':when:twice', 'the handler may be called twice for one line')
        calls += m['cb']
        res = e.isc(e.norm(x, e.discr(x, m['res']))) if m['res'] is not None else None
        ret = e.isc(e.norm(x, e.discr(x, x.user['ret'])))
        unsaved = e.isc(e.now(x, 'unsaved'))
        if iv == 0: ctx.ob(m['cb'] == 0, feat + ':when:no interval', 'without an interval adding does not save', 'adding a line saves although no interval is set')
        elif iv is None:
            ctx.bad(feat + ':when:interval ignored', 'on some path of adding a line the interval is not looked at')
        else:
            N = e.norm(x, e.proj(x, e.h0('interval'), (1, 0)))
            one = e.mk(('op', 'Add', e.h0('counter'), e.c1))
            due, early = e.le(x, N, one), e.lt(x, one, N)
            ctx.ob(due or early, feat + ':when:compared', 'the count is compared with the interval', 'on some path the handler is called or not without the count having been compared with the interval')
            if due and hd == 1: ctx.ob(m['cb'] == 1, feat + ':when:due', 'the handler is called when it is due', 'the handler is not called although %s lines were added' % 'as many as the interval')
            if due and hd is None: ctx.bad(feat + ':when:handler', 'whether there is a handler is not looked at when saving is due')
            if early: ctx.ob(m['cb'] == 0, feat + ':when:early', 'the handler is not called early', 'the handler is called before the interval has passed')
            c = e.now(x, 'counter')
            if due and m['cb']: ctx.ob(e.isc(c) == 0, feat + ':when:restart', 'the count starts again', 'the count does not start again after saving')
            if early: ctx.ob(e.same(c, one), feat + ':when:count', 'the line is counted', 'an added line is not counted')
        if m['cb']:
            ctx.ob(ret == res and ret is not None, feat + ':when:reported', 'the result of saving is returned', 'the error of the handler is not returned')
            ctx.ob(unsaved in ((1,) if res == 1 else (0, 1)), feat + ':when:unsaved after', 'lines stay unsaved when saving fails', 'lines count as saved although saving failed')
        else: ctx.ob(unsaved == 1, feat + ':when:unsaved', 'an added line counts as unsaved', 'an added line does not count as unsaved')
    ctx.floor(feat + '.paths on which adding saves', calls, 1)
    g = find_drop(d)
    if g is None: return ctx.bad('anchor:drop', 'dropping a history does nothing')
    e = Hist(d, g['id'])
    e.go()
    ctx.engine_stats(feat + ' drop', e)
    calls = 0
    for x in e.exits:
        if x.exit[0] == 'panic': ctx.bad(feat + ':drop:panic', 'dropping a history may panic: %s' % (x.exit[1][:3],)); continue
        if x.exit[0] != 'return': continue
        un = e.isc(e.norm(x, e.h0('unsaved')))
        hd = e.isc(e.norm(x, e.discr(x, e.h0('handler'))))
        calls += x.mon['cb']
        if un == 1 and hd == 1: ctx.ob(x.mon['cb'] == 1, feat + ':drop:saves', 'unsaved lines are saved on drop', 'unsaved lines are not saved (once) on drop')
        elif un == 0 or hd == 0: ctx.ob(x.mon['cb'] == 0, feat + ':drop:needless', 'nothing is saved without need', 'the handler is called on drop although nothing is unsaved')
        else: ctx.bad(feat + ':drop:unknown', 'dropping does not look at whether lines are unsaved')
    for s, cond, rule, msg in e.oblig:
        if rule == 'handler': ctx.ob(cond(), feat + ':drop:handler', 'the handler is given this history', msg)
    ctx.floor(feat + '.paths on which drop saves', calls, 1)
