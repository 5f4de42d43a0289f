"""Models of calls into code that is not analysed (std and dependencies)."""
import re

# crates whose functions are pure functions of their arguments (possibly updating &mut arguments)
PURE_CRATES = {'core', 'alloc', 'bitflags', 'unicode_width', 'textwrap', 'bitflags_core', 'serde', 'serde_core'}
IMPURE = re.compile(r'std::io::(?!Write::by_ref|ErrorKind|Error::kind|Cursor)|BufWriter|BufReader|io::Lines|std::boxed::Box<F|future|Future|task::')
PURE_STD = re.compile(r'std::time::(Instant as|Instant::(checked|saturating|duration)|Duration)|std::path|std::ffi|'
                      r'crossterm::event::.*(KeyModifiers|KeyEventState|KeyCode)|crossterm::style::|OwnedFd as|SigSet|SaFlags|SigAction::new')


def nm(g):
    return g['path']


def std(e, s, g, args, argtys, dest, target, line):
    p = g['path']
    h = EXACT.get(p)
    if h is None:
        for rx, hh in RX:
            if rx.search(p):
                h = hh
                break
    if h is not None:
        r = h(e, s, g, args, argtys, dest, target, line)
        if r is not None: return r
    return generic(e, s, g, args, argtys, dest, target, line)


def generic(e, s, g, args, argtys, dest, target, line):
    p = g['path']
    pure = (g['kind'] not in ('virtual', 'unres', 'ptr') and g['krate'] in PURE_CRATES and not IMPURE.search(p)) or bool(PURE_STD.search(g['name']))
    e.opaque_calls[p] = e.opaque_calls.get(p, 0) + 1
    if pure:
        snaps = tuple(e.snap(s, a, t) for a, t in zip(args, argtys))
        v = e.norm(s, e.call(p, *snaps))
        e.havoc_muts(s, g, args, argtys, snaps, False)
        return v
    e.havoc_muts(s, g, args, argtys, (), True)
    return e.fresh(s, p)


# ---- predicates on characters that are known
WHITE = set(list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000] + list(range(0x2000, 0x200B)))
CHARS = {
    'is_control': lambda c: c < 0x20 or 0x7F <= c < 0xA0,
    'is_whitespace': lambda c: c in WHITE,
    'is_ascii': lambda c: c < 0x80,
    'is_ascii_digit': lambda c: 48 <= c <= 57,
    'is_ascii_control': lambda c: c < 0x20 or c == 0x7F,
    'is_ascii_alphabetic': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    'is_ascii_alphanumeric': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
    'is_ascii_uppercase': lambda c: 65 <= c <= 90,
    'is_ascii_lowercase': lambda c: 97 <= c <= 122,
    'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32),
    'is_ascii_graphic': lambda c: 0x21 <= c <= 0x7E,
    'is_ascii_punctuation': lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126,
    'is_ascii_hexdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
    'to_ascii_lowercase': lambda c: c + 32 if 65 <= c <= 90 else c,
    'to_ascii_uppercase': lambda c: c - 32 if 97 <= c <= 122 else c,
    'len_utf8': lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4,
}


def char_fn(e, s, g, args, *r):
    f = CHARS[g['path'].split('::')[-1]]
    k = e.isc(e.norm(s, e.content(s, args[0]) if e.tab[args[0]][0] == 'ref' else args[0]))
    return None if k is None else e.c(int(f(k)))


def bound(which):
    """RangeBounds::start_bound / end_bound of the ranges of std: Included = 0, Excluded = 1, Unbounded = 2"""
    def f(e, s, g, args, argtys, *r):
        m = re.search(r'std::ops::(Range\w*)<', g['path'])
        if not m: return None
        k = m.group(1)
        l = e.deref(s, args[0])
        if which == 'start':
            if k in ('Range', 'RangeFrom', 'RangeInclusive'): return e.agg(e.cur_dest_ty, 0, (e.ref(l[0], l[1] + ((None, 0),)),))
            return e.agg(e.cur_dest_ty, 2, ())
        if k == 'RangeInclusive':
            v = e.content(s, args[0])
            x = e.isc(e.norm(s, e.proj(s, v, (None, 2))))
            return None if x is None else e.agg(e.cur_dest_ty, x, (e.ref(l[0], l[1] + ((None, 1),)),))
        if k == 'RangeToInclusive': return e.agg(e.cur_dest_ty, 0, (e.ref(l[0], l[1] + ((None, 0),)),))
        if k in ('Range', 'RangeTo'): return e.agg(e.cur_dest_ty, 1, (e.ref(l[0], l[1] + ((None, 1 if k == 'Range' else 0),)),))
        return e.agg(e.cur_dest_ty, 2, ())
    return f


# ---- helpers
def tyof(e, t):
    return e.ty(t) if isinstance(t, int) else {}


def optty(e):
    return e.cur_dest_ty


def mkopt(e, v=None, ty=None):
    ty = e.cur_dest_ty if ty is None else ty
    return e.agg(ty, 1, (v,)) if v is not None else e.agg(ty, 0, ())


def same_ptr(e, s, g, args, *r):
    """deref-like: the result points at the same content"""
    v = args[0]
    c = e.content(s, v)
    t = e.tab[c]
    if t[0] == 'guard': return t[2]
    if t[0] == 'agg' and 'Cow' in g['name'] or (t[0] == 'agg' and isinstance(t[1], int) and e.ty(t[1]).get('def') == 'std::borrow::Cow'):
        if t[2] == 0: return t[3][0]
        l = e.deref(s, v)
        return e.ref(l[0], l[1] + ((1, 0),))
    return v


def arc_deref(e, s, g, args, *r):
    return e.content(s, args[0])


def content(e, s, g, args, argtys, *r):
    """clone / to_owned / to_string: the content"""
    v = args[0]
    c = e.content(s, v)
    t = e.tab[c]
    if t[0] in ('s',): return c
    return c


def content_kref(e, s, g, args, argtys, *r):
    return e.content(s, args[0])


def ident(e, s, g, args, *r):
    return args[0]


def cow_into(e, s, g, args, *r):
    v = args[0]
    t = e.tab[v]
    if t[0] == 'agg':
        return e.content(s, t[3][0]) if t[2] == 0 else t[3][0]
    return v


def owned_from(e, s, g, args, argtys, *r):
    """From/Into between string types: same text"""
    v = args[0]
    ty = tyof(e, argtys[0])
    if ty.get('k') == 'ref':
        dt = tyof(e, e.cur_dest_ty)
        if dt.get('k') == 'ref': return v
        return e.content(s, v)
    return v


def alias_text(e, s, v):
    return v


def box_new(e, s, g, args, argtys, dest, target, line):
    fr = s.stack[-1]
    o = ('H', fr[1], fr[4])
    e.write(s, (o, ()), args[0])
    return e.ref(o)


def swap(e, s, g, args, *r):
    la, lb = e.deref(s, args[0]), e.deref(s, args[1])
    va, vb = e.read(s, la), e.read(s, lb)
    e.write(s, la, vb)
    e.write(s, lb, va)
    return e.unit


def replace(e, s, g, args, *r):
    l = e.deref(s, args[0])
    v = e.read(s, l)
    e.write(s, l, args[1])
    return v


def take(e, s, g, args, *r):
    l = e.deref(s, args[0])
    v = e.read(s, l)
    t = tyof(e, e.cur_dest_ty)
    d = None
    if t.get('k') == 'adt':
        if t['def'] == 'std::option::Option': d = e.agg(e.cur_dest_ty, 0, ())
        elif t['def'] == 'std::string::String': d = e.mk(('s', ''))
        elif t['def'] == 'std::vec::Vec': d = e.agg('arr', 0, ())
    elif t.get('k') in ('int', 'bool'): d = e.c0
    if d is None: d = e.call('default', e.c(e.cur_dest_ty or 0))
    e.write(s, l, d)
    return v


def eq(e, s, g, args, *r):
    return e.eqv(s, e.content(s, args[0]), e.content(s, args[1]))


def ne(e, s, g, args, *r):
    return e.notv(s, e.eqv(s, e.content(s, args[0]), e.content(s, args[1])))


def length(e, s, g, args, *r):
    return e.lenv(s, e.content(s, args[0]))


def is_empty(e, s, g, args, *r):
    return e.eqv(s, e.lenv(s, e.content(s, args[0])), e.c0)


def empty_string(e, s, g, args, *r):
    return e.mk(('s', ''))


def empty_vec(e, s, g, args, *r):
    return e.agg('arr', 0, ())


def clear(e, s, g, args, argtys, *r):
    t = e.place_content_ty(argtys[0])
    l = e.deref(s, args[0])
    if t is not None and e.ty(t).get('def') == 'std::string::String': e.write(s, l, e.mk(('s', '')))
    else: e.write(s, l, e.agg('arr', 0, ()))
    return e.unit


def index(e, s, g, args, argtys, *r):
    it = tyof(e, argtys[1])
    if it.get('k') == 'int':
        l = e.deref(s, args[0])
        c = e.read(s, l)
        if e.tab[c][0] == 'guard': l = e.deref(s, e.tab[c][2])
        return e.ref(l[0], l[1] + (('i', e.norm(s, args[1])),))
    if it.get('def') == 'std::ops::RangeFull': return args[0]
    c = e.content(s, args[0])
    return e.mk(('kref', e.norm(s, e.call('slice', c, e.snapv(s, args[1], 2)))))


def index_mut(e, s, g, args, argtys, *r):
    it = tyof(e, argtys[1])
    if it.get('k') == 'int': return index(e, s, g, args, argtys, *r)
    if it.get('def') == 'std::ops::RangeFull': return args[0]
    l = e.deref(s, args[0])
    return e.ref(l[0], l[1] + (('i', e.call('range', e.snapv(s, args[1], 2))),))


def get(e, s, g, args, argtys, dest, target, line):
    it = tyof(e, argtys[1])
    if it.get('k') != 'int': return None
    l = e.deref(s, args[0])
    n = e.lenv(s, e.read(s, l))
    i = e.norm(s, args[1])
    cond = e.binop(s, 'Lt', i, n)
    ty = e.cur_dest_ty
    return split(e, s, cond, lambda t: mkopt(e, e.ref(l[0], l[1] + (('i', i),)), ty), lambda t: mkopt(e, None, ty))


def split(e, s, cond, yes, no):
    from engine import Infeasible
    out = []
    for want, f in ((1, yes), (0, no)):
        t = s.copy()
        try: e.assume(t, cond, want)
        except Infeasible: continue
        out.append((t, f(t)))
    return out


def last(e, s, g, args, argtys, *r):
    l = e.deref(s, args[0])
    n = e.lenv(s, e.read(s, l))
    ty = e.cur_dest_ty
    return split(e, s, e.eqv(s, n, e.c0), lambda t: mkopt(e, None, ty),
                 lambda t: mkopt(e, e.ref(l[0], l[1] + (('i', e.binop(t, 'Sub', n, e.c1)),)), ty))


def first(e, s, g, args, argtys, *r):
    l = e.deref(s, args[0])
    n = e.lenv(s, e.read(s, l))
    ty = e.cur_dest_ty
    return split(e, s, e.eqv(s, n, e.c0), lambda t: mkopt(e, None, ty),
                 lambda t: mkopt(e, e.ref(l[0], l[1] + (('i', e.c0),)), ty))


def range_next(e, s, g, args, argtys, *r):
    l = e.deref(s, args[0])
    v = e.read(s, l)
    a, b = e.norm(s, e.proj(s, v, (None, 0))), e.norm(s, e.proj(s, v, (None, 1)))
    ty = e.cur_dest_ty

    def yes(t):
        e.write(t, l, e.setp(t, v, ((None, 0),), e.binop(t, 'Add', a, e.c1)))
        return mkopt(e, a, ty)
    return split(e, s, e.binop(s, 'Lt', a, b), yes, lambda t: mkopt(e, None, ty))


def checked_sub(e, s, g, args, argtys, *r):
    a, b = e.norm(s, args[0]), e.norm(s, args[1])
    ty = e.cur_dest_ty
    return split(e, s, e.binop(s, 'Lt', a, b), lambda t: mkopt(e, None, ty), lambda t: mkopt(e, e.binop(t, 'Sub', a, b), ty))


def checked_add(e, s, g, args, argtys, *r):
    a, b = e.norm(s, args[0]), e.norm(s, args[1])
    ty = e.cur_dest_ty
    if e.isc(a) is not None and e.isc(b) is not None:
        return mkopt(e, e.binop(s, 'Add', a, b, argtys[0]), ty)
    return split(e, s, e.ovf(s, 'Add', a, b, argtys[0]), lambda t: mkopt(e, None, ty), lambda t: mkopt(e, e.binop(t, 'Add', a, b), ty))


def borrow(kind, wrap):
    def f(e, s, g, args, argtys, dest, target, line):
        cell = args[0]
        l = e.deref(s, cell)
        key = (l[0], l[1])
        conflict = [x for x in s.loans if x[0] == key and (kind == 'mut' or x[1] == 'mut')]
        s.nf += 1
        gid = s.nf
        e.acquire(s, key, kind, conflict, line, g)
        s.loans = s.loans | {(key, kind, gid)}
        gv = e.mk(('guard', kind, e.ref(*l), gid))
        if wrap: return e.agg(e.cur_dest_ty, 0, (gv,))
        return gv
    return f


def drop_fn(e, s, g, args, argtys, dest, target, line):
    fr = s.stack[-1]
    l = (('L', fr[1], 'dropped'), ())
    e.write(s, l, args[0])
    if target is None: return False
    return e.drop_value(s, l, args[0], argtys[0], target)


def call_box(e, s, g, args, argtys, dest, target, line):
    """calling a boxed closure: if the closure is known, run its body"""
    return None


def fmt_arg(e, s, g, args, argtys, *r):
    return e.call('fmtarg:' + g['path'].split('::')[-1], e.snap(s, args[0], argtys[0]))


def iter_next(e, s, g, args, argtys, *r):
    l = e.deref(s, args[0])
    it = e.read(s, l)
    v = e.norm(s, e.call('next', it))
    e.write(s, l, e.mk(('mut', 'next', 0, it)))
    return v


def iter_of(name):
    def f(e, s, g, args, argtys, *r):
        return e.call(name, e.content(s, args[0]))
    return f


def str_with(name):
    def f(e, s, g, args, argtys, *r):
        c = e.content(s, args[0])
        pat = e.snap(s, args[1], argtys[1])
        if name in ('starts_with', 'ends_with') and e.tab[c][0] == 's':
            t = e.tab[c][1]
            pt = e.tab[pat]
            x = chr(pt[1]) if pt[0] == 'c' else pt[1] if pt[0] == 's' else None
            if x is not None: return e.c(t.startswith(x) if name == 'starts_with' else t.endswith(x))
        return e.norm(s, e.call(name, c, pat))
    return f


def is_char_boundary(e, s, g, args, argtys, *r):
    c = e.content(s, args[0])
    return e.norm(s, e.call('is_char_boundary', c, e.norm(s, args[1])))


def nonzero_new(e, s, g, args, argtys, *r):
    a = e.norm(s, args[0])
    ty = e.cur_dest_ty
    return split(e, s, e.eqv(s, a, e.c0), lambda t: mkopt(e, None, ty), lambda t: mkopt(e, a, ty))


def size_model(e, s, g, args, argtys, *r):
    return None


def int_min(e, s, g, args, *r):
    return e.norm(s, e.call('min', *args))


def closure_body(e, v):
    """the body a callable value runs, with the arguments it needs first"""
    t = e.tab[v]
    if t[0] == 'fn' and isinstance(t[1], int): return t[1], []
    if t[0] == 'agg' and isinstance(t[1], int) and e.ty(t[1])['k'] == 'closure':
        c = [f for f in e.d.by_path.get(e.ty(t[1])['def'], []) if 'blocks' in f]
        if c: return c[-1]['id'], None
    return None, None


def opt_map(e, s, g, args, argtys, dest, target, line):
    """the combinators of Option and Result in a generic body (elsewhere their own bodies are interpreted)"""
    if g['kind'] != 'unres' or target is None: return None
    from engine import Infeasible
    m = g['path'].rsplit('::', 1)[-1]
    res = 'Result' in g['path']
    v, ty = args[0], e.cur_dest_ty
    good, badv = (0, 1) if res else (1, 0)
    d = e.discr(s, v)

    def done(n, r):
        e.write(n, dest, r)
        if e.goto(n, target): e.push(n)

    def apply(n, fv, xs, wrap):
        """the value of fv(xs), put into variant `wrap` of the result (or as it is)"""
        fid, pre = closure_body(e, fv)
        if fid is None:
            t = e.tab[fv]
            conv = t[0] == 'fn' and ('Into::into' in str(t[1]) or 'From::from' in str(t[1]))
            r = e.call('into', *xs) if conv else e.fresh(n, m)
            return done(n, r if wrap is None else e.agg(ty, wrap, (r,)))
        if wrap is not None: e.write(n, dest, e.agg(ty, wrap, (e.undef,)))
        a = xs if pre is not None else [fv] + xs
        if e.enter(n, fid, a, (dest[0], dest[1] + (((wrap, 0),) if wrap is not None else ())), target): e.push(n)
    for want in (0, 1):
        n = s.copy()
        try: e.assume(n, d, want)
        except Infeasible: continue
        isgood = want == good
        x = e.proj(n, v, (want, 0)) if isgood or res else None
        if m == 'map': apply(n, args[1], [x], good) if isgood else done(n, e.agg(ty, badv, (x,) if res else ()))
        elif m == 'and_then': apply(n, args[1], [x], None) if isgood else done(n, e.agg(ty, badv, (x,) if res else ()))
        elif m == 'map_err': done(n, e.agg(ty, 0, (x,))) if isgood else apply(n, args[1], [x], 1)
        elif m == 'or_else': done(n, e.agg(ty, good, (x,))) if isgood else apply(n, args[1], [x] if res else [], None)
        elif m == 'unwrap_or_else': done(n, x) if isgood else apply(n, args[1], [x] if res else [], None)
        elif m == 'ok_or_else': done(n, e.agg(ty, 0, (x,))) if isgood else apply(n, args[1], [], 1)
        elif m == 'ok_or': done(n, e.agg(ty, 0, (x,)) if isgood else e.agg(ty, 1, (args[1],)))
        elif m == 'unwrap_or': done(n, x if isgood else args[1])
        elif m == 'ok': done(n, e.agg(ty, 1, (x,)) if isgood else e.agg(ty, 0, ()))
        elif m == 'err': done(n, e.agg(ty, 0, ()) if isgood else e.agg(ty, 1, (x,)))
    return False


def into(e, s, g, args, argtys, *r):
    """a conversion chosen by the caller's type: a pure function of its argument"""
    if g['kind'] != 'unres': return None
    return e.call('into', args[0])


EXACT = {
    **{'std::option::Option::<T>::' + m: opt_map for m in ('map', 'and_then', 'or_else', 'unwrap_or_else', 'ok_or_else', 'ok_or', 'unwrap_or')},
    **{'std::result::Result::<T, E>::' + m: opt_map for m in ('map', 'and_then', 'or_else', 'unwrap_or_else', 'map_err', 'unwrap_or', 'ok', 'err')},
    'std::convert::Into::into': into,
    'std::convert::From::from': into,
    'std::boxed::Box::<T>::new': box_new,
    'std::boxed::Box::<T>::pin': box_new,
    'std::sync::Arc::<T>::new': box_new,
    'std::rc::Rc::<T>::new': box_new,
    'std::mem::swap': swap,
    'std::mem::replace': replace,
    'std::mem::take': take,
    'std::mem::drop': drop_fn,
    'std::string::String::new': empty_string,
    'std::string::String::with_capacity': empty_string,
    'std::vec::Vec::<T>::new': empty_vec,
    'std::vec::Vec::<T>::with_capacity': empty_vec,
    'std::string::String::clear': clear,
    'std::vec::Vec::<T, A>::clear': clear,
    'std::string::String::as_bytes': same_ptr,
    'std::string::String::as_str': same_ptr,
    'std::string::String::as_mut_str': same_ptr,
    'core::str::<impl str>::as_bytes': same_ptr,
    'std::vec::Vec::<T, A>::as_slice': same_ptr,
    'std::vec::Vec::<T, A>::as_mut_slice': same_ptr,
    'std::cell::RefCell::<T>::borrow_mut': borrow('mut', False),
    'std::cell::RefCell::<T>::borrow': borrow('shared', False),
    'std::sync::RwLock::<T>::read': borrow('shared', True),
    'std::sync::RwLock::<T>::write': borrow('mut', True),
    'std::sync::RwLock::<T>::new': ident,
    'std::cell::RefCell::<T>::new': ident,
    'std::cell::RefCell::<T>::into_inner': ident,
    'std::cell::RefCell::<T>::get_mut': ident,
    'std::cell::Cell::<T>::new': ident,
    'std::pin::Pin::<Ptr>::new_unchecked': ident,
    'std::pin::Pin::<Ptr>::new': ident,
    'std::borrow::Cow::<\'_, B>::into_owned': cow_into,
    '<std::sync::Arc<T, A> as std::ops::Deref>::deref': arc_deref,
    '<I as std::iter::IntoIterator>::into_iter': ident,
    '<F as std::future::IntoFuture>::into_future': ident,
    '<T as std::convert::From<T>>::from': ident,
    'std::iter::Iterator::by_ref': ident,
    'std::io::Write::by_ref': ident,
    'std::hint::must_use': ident,
    'std::num::NonZero::<T>::new': nonzero_new,
    'std::num::NonZero::<T>::get': ident,
}
RX = [(re.compile(a), b) for a, b in [
    (r'lock_api::(Mutex|RwLock)::<R, T>::(lock|write)$', borrow('mut', False)),
    (r'lock_api::RwLock::<R, T>::read$', borrow('shared', False)),
    (r'std::sync::Mutex::<T>::lock$', borrow('mut', True)),
    (r'lock_api::Mutex::<R, T>::new$', ident),
    (r' as std::ops::Deref(Mut)?>::deref(_mut)?$', same_ptr),
    (r' as std::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$', same_ptr),
    (r' as std::borrow::Borrow(Mut)?<.*>>::borrow(_mut)?$', same_ptr),
    (r' as std::clone::Clone>::clone$', content),
    (r'::to_owned$|::to_string$|::to_vec$|::into_boxed_str$', content),
    (r'<std::(string::String|borrow::Cow<.*>|boxed::Box<.*>|path::PathBuf) as std::convert::From<.*>>::from$', owned_from),
    (r' as std::cmp::PartialEq.*>::eq$|impl std::cmp::PartialEq.*::eq$', eq),
    (r' as std::cmp::PartialEq.*>::ne$|impl std::cmp::PartialEq.*::ne$|std::cmp::PartialEq::ne$', ne),
    (r'^(std::(string::String|vec::Vec::<T, A>|collections::.*)|core::(str::<impl str>|slice::<impl \[T\]>))::len$', length),
    (r'^(std::(string::String|vec::Vec::<T, A>|collections::.*)|core::(str::<impl str>|slice::<impl \[T\]>))::is_empty$', is_empty),
    (r'std::ops::Index<.*::index$', index),
    (r'std::ops::IndexMut<.*::index_mut$', index_mut),
    (r'slice::<impl \[T\]>::get(_mut)?$', get),
    (r'slice::<impl \[T\]>::last(_mut)?$', last),
    (r'slice::<impl \[T\]>::first(_mut)?$', first),
    (r'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$', range_next),
    (r'core::num::<impl u\w+>::checked_sub$', checked_sub),
    (r'core::num::<impl \w+>::checked_add$', checked_add),
    (r'core::fmt::rt::Argument::.*::new_', fmt_arg),
    (r' as std::iter::Iterator>::next$', iter_next),
    (r'str::<impl str>::(chars|char_indices|bytes|lines)$', iter_of('chars')),
    (r'str::<impl str>::starts_with$', str_with('starts_with')),
    (r'str::<impl str>::ends_with$', str_with('ends_with')),
    (r'str::<impl str>::is_char_boundary$', is_char_boundary),
    (r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$', ident),
    (r'RangeBounds<.*>>::start_bound$', bound('start')),
    (r'RangeBounds<.*>>::end_bound$', bound('end')),
    (r'cmp::Ord::min$|intrinsics::integer_min', int_min),
    (r'impl (char|u8)>::(%s)$' % '|'.join(CHARS), char_fn),
]]
